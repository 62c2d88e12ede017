R('number-if-let', (G, '''        match ast.as_i32() {
            Some(number @ 1..=MAX_MESSAGE_FIELD_NUMBER) => Some(number),
            _ => {
                self.errors
                    .push(ParseErrorKind::InvalidMessageNumber { span: ast.span });
                None
            }
        }''', '''        if let Some(number) = ast.as_i32() {
            if number >= 1 && number <= MAX_MESSAGE_FIELD_NUMBER {
                return Some(number);
            }
        }
        self.errors
            .push(ParseErrorKind::InvalidMessageNumber { span: ast.span });
        None'''))
R('enum-options-first', (G, '''        for reserved in ast.reserved {
            match reserved.kind {
                ast::ReservedKind::Ranges(ranges) => {
                    self.path.push(tag::enum_::RESERVED_RANGE);''', '''        self.path.push(tag::enum_::OPTIONS);
        let options = self.generate_options(ast.options);
        self.path.pop();

        for reserved in ast.reserved {
            match reserved.kind {
                ast::ReservedKind::Ranges(ranges) => {
                    self.path.push(tag::enum_::RESERVED_RANGE);'''), (G, '''        self.path.push(tag::enum_::OPTIONS);
        let options = self.generate_options(ast.options);
        self.path.pop();

        EnumDescriptorProto {''', '''        EnumDescriptorProto {'''))
R('streaming-map', (G, '''        let client_streaming = if ast.client_streaming.is_some() {
            Some(true)
        } else {
            None
        };
        if let Some(span) = ast.client_streaming {
            self.add_span_for(&[tag::method::CLIENT_STREAMING], span);
        }''', '''        let client_streaming = match ast.client_streaming {
            Some(span) => {
                self.add_span_for(&[tag::method::CLIENT_STREAMING], span);
                Some(true)
            }
            None => None,
        };'''))
R('streaming-then-some', (G, '''        let client_streaming = if ast.client_streaming.is_some() {
            Some(true)
        } else {
            None
        };''', '''        let client_streaming = ast.client_streaming.is_some().then_some(true);'''))
R('range-end-helper', (G, '''        let end = match range.end {
            ast::ReservedRangeEnd::None => start,
            ast::ReservedRangeEnd::Int(value) => self.generate_message_number(value),
            ast::ReservedRangeEnd::Max(_) => Some(if is_message_set {
                i32::MAX - 1
            } else {
                MAX_MESSAGE_FIELD_NUMBER
            }),
        };
''', '''        let end = self.generate_range_end(range.end, start, is_message_set);
'''), (G, '''    fn generate_message_extension_range(''', '''    fn generate_range_end(
        &mut self,
        end: ast::ReservedRangeEnd,
        start: Option<i32>,
        is_message_set: bool,
    ) -> Option<i32> {
        match end {
            ast::ReservedRangeEnd::None => start,
            ast::ReservedRangeEnd::Int(value) => self.generate_message_number(value),
            ast::ReservedRangeEnd::Max(_) => Some(if is_message_set {
                i32::MAX - 1
            } else {
                MAX_MESSAGE_FIELD_NUMBER
            }),
        }
    }

    fn generate_message_extension_range('''))
R('add-span-via-comments', (G, '''        let span = self.lines.resolve_span(span);
        self.locations.push(Location {
            path: self.path.clone(),
            span,
            ..Default::default()
        });''', '''        let location = Location {
            path: self.path.clone(),
            span: self.lines.resolve_span(span),
            ..Default::default()
        };
        self.locations.push(location);'''))
R('file-package-match', (G, '''        let package = if let Some(package) = ast.package {
            self.add_comments_for(&[tag::file::PACKAGE], package.span, package.comments);
            Some(package.name.to_string())
        } else {
            None
        };''', '''        let package = match ast.package {
            None => None,
            Some(ast::Package { name, span, comments }) => {
                let text = name.to_string();
                self.add_comments_for(&[tag::file::PACKAGE], span, comments);
                Some(text)
            }
        };'''))
R('import-if-let', (G, '''            match import.kind {
                Some((ast::ImportKind::Public, span)) => {
                    self.add_span_for(
                        &[
                            tag::file::PUBLIC_DEPENDENCY,
                            index_to_i32(public_dependency.len()),
                        ],
                        span,
                    );
                    public_dependency.push(index);
                }
                Some((ast::ImportKind::Weak, span)) => {
                    self.add_span_for(
                        &[
                            tag::file::WEAK_DEPENDENCY,
                            index_to_i32(weak_dependency.len()),
                        ],
                        span,
                    );
                    weak_dependency.push(index);
                }
                None => (),
            }''', '''            if let Some((kind, span)) = import.kind {
                let (list_tag, list) = match kind {
                    ast::ImportKind::Public => (tag::file::PUBLIC_DEPENDENCY, &mut public_dependency),
                    ast::ImportKind::Weak => (tag::file::WEAK_DEPENDENCY, &mut weak_dependency),
                };
                let position = index_to_i32(list.len());
                list.push(index);
                self.add_span_for(&[list_tag, position], span);
            }'''))
R('syntax-before-items', (G, '''        if let Some((syntax_span, syntax_comments)) = ast.syntax_span {
            self.add_comments_for(&[tag::file::SYNTAX], syntax_span, syntax_comments);
        }
        let syntax = if''', '''        let syntax = if'''), (G, '''        let mut message_type = Vec::new();
        let mut enum_type = Vec::new();
        let mut service = Vec::new();''', '''        if let Some((syntax_span, syntax_comments)) = ast.syntax_span {
            self.add_comments_for(&[tag::file::SYNTAX], syntax_span, syntax_comments);
        }

        let mut message_type = Vec::new();
        let mut enum_type = Vec::new();
        let mut service = Vec::new();'''))
R('oneof-name-first', (G, '''                let oneof_name = if ast.name.value.starts_with('_') {
                    format!("X{}", &ast.name.value)
                } else {
                    format!("_{}", &ast.name.value)
                };

                let oneof_index = index_to_i32(oneofs.len());
                self.path.extend([oneof_tag, oneof_index]);
                oneofs.push(OneofDescriptorProto {
                    name: Some(oneof_name),
                    options: None,
                });
                self.pop_path(2);
''', '''                let prefix = if ast.name.value.starts_with('_') { "X" } else { "_" };
                let oneof_name = format!("{}{}", prefix, ast.name.value);

                let oneof_index = index_to_i32(oneofs.len());
                oneofs.push(OneofDescriptorProto {
                    name: Some(oneof_name),
                    options: None,
                });
'''))
R('take-option-question', (G, '''    if let Some(options) = options {
        if let Some(index) = options.options.iter().position(|o| o.has_name(name)) {
            return Some(options.options.remove(index));
        }
    }

    None''', '''    let list = options.as_mut()?;
    let index = list.options.iter().position(|o| o.has_name(name))?;
    Some(list.options.remove(index))'''))
R('label-nested-match', (G, '''            (_, Some((ast::FieldLabel::Required, span))) if self.syntax == ast::Syntax::Proto3 => {
                self.errors
                    .push(ParseErrorKind::Proto3RequiredField { span });
                None
            }
            (_, Some((ast::FieldLabel::Required, span))) => {
                self.add_span_for(&[tag::field::LABEL], span);
                Some(field_descriptor_proto::Label::Required)
            }''', '''            (_, Some((ast::FieldLabel::Required, span))) => {
                if self.syntax == ast::Syntax::Proto3 {
                    self.errors
                        .push(ParseErrorKind::Proto3RequiredField { span });
                    None
                } else {
                    self.add_span_for(&[tag::field::LABEL], span);
                    Some(field_descriptor_proto::Label::Required)
                }
            }'''))
R('parse-syntax-early', (M, '''        let syntax = match self.peek()? {
            Some((Token::StringLiteral(_), _)) => {
                let value = self.parse_string()?;
                match value.value.as_slice() {
                    b"proto2" => ast::Syntax::Proto2,
                    b"proto3" => ast::Syntax::Proto3,
                    bytes => {
                        self.add_error(ParseErrorKind::UnknownSyntax {
                            syntax: String::from_utf8_lossy(bytes).into_owned(),
                            span: value.span.clone(),
                        });
                        return Err(());
                    }
                }
            }
            _ => self.unexpected_token("a string")?,
        };
''', '''        let value = match self.peek()? {
            Some((Token::StringLiteral(_), _)) => self.parse_string()?,
            _ => self.unexpected_token("a string")?,
        };
        let syntax = match value.value.as_slice() {
            b"proto2" => ast::Syntax::Proto2,
            b"proto3" => ast::Syntax::Proto3,
            bytes => {
                self.add_error(ParseErrorKind::UnknownSyntax {
                    syntax: String::from_utf8_lossy(bytes).into_owned(),
                    span: value.span.clone(),
                });
                return Err(());
            }
        };
'''))
R('statement-order', (M, '''            Some((Token::IMPORT, _)) => Ok(Some(Statement::Import(self.parse_import()?))),
            Some((Token::PACKAGE, _)) => Ok(Some(Statement::Package(self.parse_package()?))),
''', '''            Some((Token::PACKAGE, _)) => Ok(Some(Statement::Package(self.parse_package()?))),
            Some((Token::IMPORT, _)) => Ok(Some(Statement::Import(self.parse_import()?))),
'''))
R('field-options-helper', (M, '''        let options = match self.peek_skip_comments()? {
            Some((Token::LeftBracket, _)) => Some(self.parse_options_list()?),
            Some((Token::Semicolon, _)) => None,
            _ => self.unexpected_token("';' or '['")?,
        };
''', '''        let options = self.parse_field_options()?;
'''), (M, '''    fn parse_extend(&mut self)''', '''    fn parse_field_options(&mut self) -> Result<Option<ast::OptionList>, ()> {
        match self.peek_skip_comments()? {
            Some((Token::LeftBracket, _)) => Ok(Some(self.parse_options_list()?)),
            Some((Token::Semicolon, _)) => Ok(None),
            _ => self.unexpected_token("';' or '['")?,
        }
    }

    fn parse_extend(&mut self)'''))
R('int-sign-first', (M, '''        let (negative, start) = match self.peek_skip_comments()? {
            Some((Token::Minus, span)) => {
                self.bump();
                (true, Some(span))
            }
            _ => (false, None),
        };
''', '''        let start = match self.peek_skip_comments()? {
            Some((Token::Minus, span)) => {
                self.bump();
                Some(span)
            }
            _ => None,
        };
        let negative = start.is_some();
'''))
R('rpc-body-early', (M, '''            Some((Token::Semicolon, span)) => {
                self.bump();
                span
            }
            Some((Token::LeftBrace, _)) => {
                self.bump();
                loop {''', '''            Some((Token::Semicolon, _)) => self.bump(),
            Some((Token::LeftBrace, _)) => {
                self.bump();
                loop {'''))
R('bump-inline-reset', (M, '''        match tok {
            Token::LineComment(_) | Token::BlockComment(_) | Token::Newline => (),
            _ => self.comments.reset(),
        }
        span''', '''        if !matches!(
            tok,
            Token::LineComment(_) | Token::BlockComment(_) | Token::Newline
        ) {
            self.comments.reset();
        }
        span'''))
R('peek-nested-if', (M, '''                tok @ (None
                | Some((Token::RightBrace | Token::RightBracket | Token::RightParen, _))) => {
                    self.comments.flush();
                    return Ok(tok);
                }
                tok => return Ok(tok),''', '''                tok => {
                    if matches!(
                        tok,
                        None | Some((Token::RightBrace | Token::RightBracket | Token::RightParen, _))
                    ) {
                        self.comments.flush();
                    }
                    return Ok(tok);
                }'''))
R('comments-if-let', (PP + 'parse/comments.rs', '''        match &mut self.leading {
            None => self.leading = Some(comment.into_owned()),
            Some(current) => current.push_str(comment.as_ref()),
        }''', '''        if let Some(current) = &mut self.leading {
            current.push_str(comment.as_ref());
        } else {
            self.leading = Some(comment.into_owned());
        }'''))
R('comments-flush', (PP + 'parse/comments.rs', '''        if self.is_trailing {
            debug_assert!(self.leading_detached.is_empty());
            self.trailing = self.leading.take();
            self.is_trailing = false;
        } else {
            self.leading_detached.extend(self.leading.take());
        }''', '''        let comment = self.leading.take();
        if !self.is_trailing {
            if let Some(comment) = comment {
                self.leading_detached.push(comment);
            }
        } else {
            self.trailing = comment;
        }
        self.is_trailing = false;'''))
R('lines-resolve-if', (PP + 'generate/lines.rs', '''            Err(0) => (0, index_to_i32(offset)),
            Err(index) => (
                index_to_i32(index),
                index_to_i32(offset) - self.lines[index - 1],
            ),''', '''            Err(index) => {
                let line_start = if index == 0 { 0 } else { self.lines[index - 1] };
                (index_to_i32(index), index_to_i32(offset) - line_start)
            }'''))
R('ident-chars', (PP + 'case.rs', '''    !s.is_empty()
        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
        && s.as_bytes()[1..]
            .iter()
            .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')
''', '''    if s.is_empty() {
        return false;
    }
    let bytes = s.as_bytes();
    (bytes[0].is_ascii_alphabetic() || bytes[0] == b'_')
        && bytes
            .iter()
            .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')
'''))
R('pascal-push', (PP + 'case.rs', '''        } else if uppercase_next {
            result.push(ch.to_ascii_uppercase());
            uppercase_next = false;
        } else {
            result.push(ch);
        }''', '''        } else {
            result.push(if uppercase_next { ch.to_ascii_uppercase() } else { ch });
            uppercase_next = false;
        }'''))
R('int-value-let', (L, '''    match u64::from_str_radix(&lex.source()[span.clone()], radix) {''', '''    let parsed = u64::from_str_radix(&lex.source()[span.clone()], radix);
    match parsed {'''))
R('text-format-if', (M, '''            if tok == Token::LeftBrace {
                brace_level += 1;
            } else if tok == Token::RightBrace {
                match brace_level.checked_sub(1) {
                    None => break,
                    Some(new_brace_level) => brace_level = new_brace_level,
                }
            }
''', '''            match tok {
                Token::LeftBrace => brace_level += 1,
                Token::RightBrace if brace_level == 0 => break,
                Token::RightBrace => brace_level -= 1,
                _ => (),
            }
'''))
R('strings-loop', (M, '''        while let Some((Token::StringLiteral(value), span)) = self.peek_skip_comments()? {
            self.bump();
            result.value.extend(value.as_ref());
            result.span = join_span(result.span.clone(), span);
        }
''', '''        while let Some((Token::StringLiteral(value), _)) = self.peek_skip_comments()? {
            let span = self.bump();
            result.value.extend_from_slice(&value);
            result.span.end = span.end;
        }
'''))
R('compile-imports-helper', (C, '''        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            if !already_imported.insert(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            self.add_import(import, &mut import_stack)
                .map_err(|e| e.into_import_error(&file, i))?;
        }
''', '''        for (i, import) in file.descriptor.dependency.iter().enumerate() {
            if already_imported.contains(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            already_imported.insert(import);
            if let Err(err) = self.add_import(import, &mut import_stack) {
                return Err(err.into_import_error(&file, i));
            }
        }
'''))
R('compile-stack-push-late', (C, '''        import_stack.push(file_name.to_owned());
        let mut already_imported = HashSet::new();''', '''        let mut already_imported = HashSet::new();
        import_stack.push(file_name.to_owned());'''))
R('compile-metadata-let', (C, '''        let path = self.check_file(file)?;
        self.files.insert(
            file_name.to_owned(),
            FileMetadata {
                name: file_name.to_owned(),
                path,
                is_import: true,
            },
        );
        Ok(())''', '''        let name = file_name.to_owned();
        let path = self.check_file(file)?;
        let metadata = FileMetadata {
            name: name.clone(),
            path,
            is_import: true,
        };
        self.files.insert(name, metadata);
        Ok(())'''))
R('chain-find-map', (PX + 'file/chain.rs', '''        for resolver in &self.resolvers {
            if let Some(name) = resolver.resolve_path(path) {
                return Some(name);
            }
        }

        None''', '''        for resolver in self.resolvers.iter() {
            let name = resolver.resolve_path(path);
            if name.is_some() {
                return name;
            }
        }

        None'''))
R('chain-if', (PX + 'file/chain.rs', '''                Err(err) if err.is_file_not_found() => continue,
                Err(err) => return Err(err),''', '''                Err(err) => {
                    if !err.is_file_not_found() {
                        return Err(err);
                    }
                }'''))
R('shadow-match', (PX + 'file/include.rs', '''    if let Some(actual_path) = actual_path {
        if !path_eq(actual_path, expected_path) {
            return Err(Error::from_kind(ErrorKind::FileShadowed {
                name: file.to_string(),
                path: expected_path.to_owned(),
                shadow: actual_path.to_owned(),
            }));
        }
    }

    Ok(())''', '''    match actual_path {
        Some(actual_path) if !path_eq(expected_path, actual_path) => {
            Err(Error::from_kind(ErrorKind::FileShadowed {
                name: file.to_owned(),
                path: expected_path.to_owned(),
                shadow: actual_path.to_owned(),
            }))
        }
        _ => Ok(()),
    }'''))
