def S(name, prop, edits, needs, breaks, demo, count=1):
    SEEDS.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, count=count))

M, L, G, A = PP + 'parse/mod.rs', PP + 'lex/mod.rs', PP + 'generate/mod.rs', PP + 'ast/mod.rs'

S('c01-brace-level-u8', 'C01', [(M, 'let mut brace_level = 0u32;', 'let mut brace_level = 0u8;')],
  'an aggregate option value with more than 255 nested braces',
  'the brace counter of an aggregate overflows and parsing panics',
  'ok(&format!("option (a) = {}{};", "{ x ".repeat(300), "}".repeat(300)));')
S('c01-int-ident-eof', 'C01', [(L, "while end < lex.source().len() && lex.source().as_bytes()[end].is_ascii_alphabetic() {", "while lex.source().as_bytes()[end].is_ascii_alphabetic() {")],
  'an integer directly followed by letters that end the file',
  'the scan for the end of the identifier runs past the end of the text and panics',
  'bad("message M { optional int32 a = 10ab");')
S('c02-json-name-utf8', 'C02', [(G, '''                    self.errors
                        .push(ParseErrorKind::InvalidUtf8String { span: string.span });
                    None''', '''                    Some(std::string::String::from_utf8_lossy(string.span.start.to_string().as_bytes()).into_owned())''')],
  'x', 'x', '')
SEEDS.pop()
S('c02-negative-ident', 'C02', [(G, '''                self.errors
                    .push(ParseErrorKind::NegativeIdentOutsideDefault { span });
                Default::default()''', '''                if self.errors.is_empty() {
                    self.errors
                        .push(ParseErrorKind::NegativeIdentOutsideDefault { span });
                }
                Default::default()''')], 'x', 'x', '')
SEEDS.pop()
S('c02-duplicate-package-same', 'C19', [(M, '''                            if let Some(existing_package) = &package {
                                self.add_error''', '''                            if let Some(existing_package) = package
                                .as_ref()
                                .filter(|p| p.name.to_string() != new_package.name.to_string())
                            {
                                self.add_error''')],
  'two package statements with the same name', 'the second package statement is accepted and replaces the first',
  'ok("package a.b; message M {}"); bad("package a.b;\\nmessage M {}\\npackage a.b;");')
S('c02-enum-number-first-only', 'C02', [(G, '''                self.errors
                    .push(ParseErrorKind::InvalidEnumNumber { span: ast.span });
                None''', '''                if ast.value != u64::MAX {
                    self.errors
                        .push(ParseErrorKind::InvalidEnumNumber { span: ast.span });
                }
                None''')], 'x', 'x', '')
SEEDS.pop()
S('c02-errors-overwritten', 'C02', [(M, '''            Some((Token::COMMENT''', '')], 'x', 'x', '')
SEEDS.pop()
S('c02-invalid-utf8-import', 'C02', [(M, '''            Err(bytes) => {
                self.add_error(ParseErrorKind::InvalidUtf8String {
                    span: bytes.span.clone(),
                });
                Ok((
                    String::from_utf8_lossy(&bytes.value).into_owned(),
                    bytes.span,
                ))''', '''            Err(bytes) => {
                let lossy = String::from_utf8_lossy(&bytes.value).into_owned();
                if !is_valid_import(&lossy) {
                    self.add_error(ParseErrorKind::InvalidUtf8String {
                        span: bytes.span.clone(),
                    });
                }
                Ok((lossy, bytes.span))''')],
  'an import path that is not UTF-8 but otherwise well formed',
  'the invalid-UTF-8 diagnostic is dropped and a descriptor with replacement characters is returned',
  'bad("import \\"a\\\\xff.proto\\";");')
S('c03-hex-upper-x', 'C03', [(L, '#[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]', '#[regex("0x[0-9A-Fa-f]+", |lex| int(lex, 16, 2))]')],
  'a hexadecimal literal written with a capital X', 'the literal is rejected',
  'let f = ok("message M { optional int32 a = 0X1F; }"); eq(f.message_type[0].field[0].number(), 31);')
S('c04-int-min', 'C04', [(A, '''            if self.value == (i32::MAX as u64 + 1) {
                Some(i32::MIN)
            } else {
                Some(-i32::try_from(self.value).ok()?)
            }''', '''            Some(-i32::try_from(self.value).ok()?)''')],
  'an enum value numbered exactly -2147483648', 'the smallest legal enum number is rejected',
  'let f = ok("enum E { A = -2147483648; }"); eq(f.enum_type[0].value[0].number(), i32::MIN);')
S('c04-number-wrap', 'C04', [(G, '''        match ast.as_i32() {
            Some(number @ 1..=MAX_MESSAGE_FIELD_NUMBER) => Some(number),''', '''        match Some(ast.value as i32).filter(|_| !ast.negative) {
            Some(number @ 1..=MAX_MESSAGE_FIELD_NUMBER) => Some(number),''')],
  'a field number of 2^32 or more whose low 32 bits are a legal number', 'the number is silently wrapped',
  'bad("message M { optional int32 a = 4294967297; }");')
S('c05-messageset-first-option', 'C05', [(G, '''            .iter()
            .find(|o| o.body.has_name("message_set_wire_format"))''', '''            .first()
            .filter(|o| o.body.has_name("message_set_wire_format"))''')],
  'message_set_wire_format written after another message option', 'the range 4 to max ends at 536870912 instead of 2147483647',
  'let f = ok("message M { option deprecated = true; option message_set_wire_format = true; extensions 4 to max; }"); eq(f.message_type[0].extension_range[0].end(), i32::MAX);')
S('c05-reserved-max-set', 'C05', [(G, '''        descriptor_proto::ReservedRange {
            start,
            end: end.map(|n| n + 1),
        }''', '''        descriptor_proto::ReservedRange {
            start,
            end: end.map(|n| (n + 1).min(MAX_MESSAGE_FIELD_NUMBER + 1)),
        }''')],
  'a reserved range up to max in a message set', 'the reserved range ends too early',
  'let f = ok("message M { option message_set_wire_format = true; reserved 4 to max; }"); eq(f.message_type[0].reserved_range[0].end(), i32::MAX);')
S('c06-i64-min', 'C06', [(A, '''            if self.value == (i64::MAX as u64 + 1) {
                Some(i64::MIN)''', '''            if self.value > i64::MAX as u64 {
                Some(i64::MIN)''')],
  'a negative default below the 64-bit minimum', 'the out-of-range default is silently replaced by the minimum',
  'bad("message M { optional sint64 a = 1 [default = -9223372036854775809]; }");')
S('c06-bool-ident-negative', 'C06', [(A, '''            OptionValue::Ident {
                negative: false,
                ident,
                ..
            } if ident.value == "true" => Some(true),''', '''            OptionValue::Ident { ident, .. } if ident.value == "true" => Some(true),''')],
  'a bool default written -true', 'the invalid default is accepted as true',
  'bad("message M { optional bool a = 1 [default = -true]; }");')
S('c06-fixed-signed', 'C06', [(G, '(Some(Type::Int64 | Type::Sfixed64 | Type::Sint64), ast::OptionValue::Int(int)) => {', '(Some(Type::Int64 | Type::Sfixed64 | Type::Sint64 | Type::Fixed64), ast::OptionValue::Int(int)) => {')],
  'a default on a fixed64 field that is negative or above 2^63', 'a negative default is accepted on an unsigned field',
  'bad("message M { optional fixed64 a = 1 [default = -1]; }");')
S('c07-oct-wrap', 'C07', [(L, '''    fn oct_escape<'a>(lex: &mut Lexer<'a, Component<'a>>) -> Result<u8, ()> {
        u32::from_str_radix(&lex.slice()[1..], 8)
            .expect("expected valid oct escape")
            .try_into()
            .map_err(drop)
    }''', '''    fn oct_escape<'a>(lex: &mut Lexer<'a, Component<'a>>) -> Result<u8, ()> {
        let value =
            u32::from_str_radix(&lex.slice()[1..], 8).expect("expected valid oct escape");
        Ok(value as u8)
    }''')],
  'an octal escape above \\\\377', 'the escape wraps to another byte instead of being rejected',
  r'''ok("import \"a\\101\";"); bad("import \"a\\501\";");''')
S('c07-surrogate', 'C07', [(L, '''        char::from_u32(value)
    }''', '''        char::from_u32(value).or((0xd800..0xe000).contains(&value).then_some('\\u{fffd}'))
    }''')],
  'a \\\\u escape naming a surrogate code point', 'the invalid escape is accepted as U+FFFD',
  r'''ok("import \"a\\u0041\";"); bad("import \"a\\ud83d\";");''')
S('c08-del', 'C08', [(A, r"b'\x20'..=b'\x7e' =>", r"b'\x20'..=b'\x7f' =>")],
  'a bytes default holding byte 0x7f', 'an unprintable character is stored unescaped',
  r'''let f = ok("message M { optional bytes a = 1 [default = \"\\177\"]; }"); eq(f.message_type[0].field[0].default_value(), "\\177");''')
S('c08-octal-short', 'C08', [(A, r'write!(f, "\\{:03o}", ch)?;', r'write!(f, "\\{:02o}", ch)?;')],
  'a bytes default holding a control byte followed by a digit', 'the escape is too short and swallows the digit that follows',
  r'''let f = ok("message M { optional bytes a = 1 [default = \"\\0011\"]; }"); eq(f.message_type[0].field[0].default_value(), "\\0011");''')
S('c09-string-pieces-span', 'C09', [(M, 'result.span = join_span(result.span.clone(), span);', 'result.span = span;')],
  'a default value made of several adjacent string literals', 'the span of the value starts at its last piece',
  r'''let s = "message M { optional string a = 1 [default = \"x\" 'yz']; }"; let f = ok(s); eq(at(&f, s, &[4, 0, 2, 0, 7]), vec!["\"x\" 'yz'"]);''')
S('c09-negative-int-span', 'C09', [(M, '''                    Some(start) => join_span(start, end),
                };''', '''                    Some(start) => start.end..end.end,
                };''')],
  'a negative enum number', 'the span of the number leaves out its sign',
  'let s = "enum E { A = - 12; }"; let f = ok(s); eq(at(&f, s, &[5, 0, 2, 0, 2]), vec!["- 12"]);')
S('c10-reserved-name-index', 'C10', [(G, '''                    for name in names {
                        self.add_span_for(&[index_to_i32(reserved_name.len())], name.span);
                        reserved_name.push(name.value);
                    }
                    self.path.pop();
                }
            }
        }

        self.path.push(tag::enum_::OPTIONS);''', '''                    for (index, name) in names.into_iter().enumerate() {
                        self.add_span_for(&[index_to_i32(index)], name.span);
                        reserved_name.push(name.value);
                    }
                    self.path.pop();
                }
            }
        }

        self.path.push(tag::enum_::OPTIONS);''')],
  'an enum with two reserved-name statements', 'the names of the second statement are located at the indexes of the first',
  'let s = "enum E { A = 0; reserved \\"x\\"; reserved \\"y\\"; }"; let f = ok(s); eq(at(&f, s, &[5, 0, 5, 1]), vec!["\\"y\\""]);')
S('c10-group-nested-index', 'C10', [(G, '''                self.pop_path(2);
                self.path
                    .extend([message_tag, index_to_i32(messages.len())]);
                self.add_comments(ast.span, ast.comments);''', '''                self.pop_path(2);
                self.path
                    .extend([message_tag, index_to_i32(field_index)]);
                self.add_comments(ast.span, ast.comments);''')],
  'a group whose field index differs from the index of its nested message', 'the locations of the group body address another nested message',
  'let s = "message M { optional int32 z = 9; optional group G = 1 { optional int32 a = 2; } }"; let f = ok(s); eq(at(&f, s, &[4, 0, 3, 0, 1]), vec!["G"]);')
S('c11-server-streaming-loc', 'C11', [(G, '''        if let Some(span) = ast.server_streaming {
            self.add_span_for''', '''        if let (Some(span), None) = (ast.server_streaming, client_streaming) {
            self.add_span_for''')],
  'a method streaming in both directions', 'the stream keyword of the response has no location',
  'let s = "service S { rpc A(stream B) returns (stream C); }"; let f = ok(s); eq(f.service[0].method[0].server_streaming(), true); eq(at(&f, s, &[6, 0, 2, 0, 6]), vec!["stream"]);')
S('c11-sort-by-depth', 'C11', [(G, 'ctx.locations.sort_unstable_by(|l, r| l.path.cmp(&r.path));', 'ctx.locations\n            .sort_unstable_by(|l, r| l.path.iter().take(7).cmp(r.path.iter().take(7)));')],
  'x', 'x', '')
SEEDS.pop()
S('c12-group-extend-required', 'C12', [(G, '''                name = ast.name.value.to_ascii_lowercase();
                label = self.generate_field_label(ast.label, ast.span.clone(), scope);''', '''                name = ast.name.value.to_ascii_lowercase();
                label = self.generate_field_label(ast.label, ast.span.clone(), FieldScope::Message);''')],
  'a required group inside an extend block', 'the required extension is accepted',
  'ok("extend E { optional group G = 1 {} }"); bad("extend E { required group G = 1 {} }");')
S('c12-map-label-oneof-only', 'C12', [(G, '''                        if let Some((_, span)) = ast.label {
                            self.errors.push(ParseErrorKind::MapFieldWithLabel { span });''', '''                        if let Some((ast::FieldLabel::Optional | ast::FieldLabel::Required, span)) =
                            ast.label
                        {
                            self.errors.push(ParseErrorKind::MapFieldWithLabel { span });''')],
  'a map field written repeated', 'the label is accepted',
  'ok("message M { map<int32, int32> a = 1; }"); bad("message M { repeated map<int32, int32> a = 1; }");')
S('c13-synthetic-underscore', 'C13', [(G, '''                let oneof_name = if ast.name.value.starts_with('_') {
                    format!("X{}", &ast.name.value)
                } else {
                    format!("_{}", &ast.name.value)
                };''', '''                let oneof_name = format!("_{}", ast.name.value.trim_start_matches('_'));''')],
  'a proto3 optional field whose name starts with an underscore', 'the synthetic oneof gets the name of the field',
  'let f = ok("syntax = \\"proto3\\"; message M { optional int32 _a = 1; }"); eq(f.message_type[0].oneof_decl[0].name(), "X_a");')
S('c13-oneof-real-count', 'C13', [(G, '''        oneof_decl.resize(real_oneof_count, OneofDescriptorProto::default());
''', '''        oneof_decl.resize(real_oneof_count.min(1), OneofDescriptorProto::default());
'''), (G, '''                    oneof_decl[real_oneof_index] = self.generate_oneof_descriptor(''', '''                    if real_oneof_index > 0 {
                        oneof_decl.insert(real_oneof_index, OneofDescriptorProto::default());
                    }
                    oneof_decl[real_oneof_index] = self.generate_oneof_descriptor(''')],
  'a proto3 message with two oneofs and an optional field written before the second', 'the oneof index of the optional field names the second oneof',
  'let f = ok("syntax = \\"proto3\\"; message M { oneof x { int32 a = 1; } optional int32 b = 2; oneof y { int32 c = 3; } }"); let m = &f.message_type[0]; eq(m.oneof_decl.len(), 3); eq(m.field[1].oneof_index(), 2);')
S('c14-map-key-sfixed', 'C14', [(G, '''                        | ast::Ty::Bool
                        | ast::Ty::String
                ) {''', '''                        | ast::Ty::Bool
                        | ast::Ty::String
                        | ast::Ty::Bytes
                ) {''')],
  'a map with bytes keys', 'the illegal key type is accepted',
  'bad("message M { map<bytes, int32> a = 1; }");')
S('c14-value-type-name', 'C14', [(A, '            Ty::Named(name) => Some(name.to_string()),', '            Ty::Named(name) => Some(name.name.to_string()),')],
  'a map whose value type is written with a leading dot', 'the value type loses its leading dot',
  'let f = ok("message M { map<int32, .a.B> a = 1; }"); eq(f.message_type[0].nested_type[0].field[1].type_name(), ".a.B");')
S('c15-weak-index', 'C15', [(G, 'weak_dependency.push(index);', 'weak_dependency.push(index - index_to_i32(public_dependency.len()));')],
  'a weak import after a public one', 'the weak index names another import',
  'let f = ok("import public \\"a\\"; import weak \\"b\\";"); eq(f.weak_dependency, vec![1]);')
S('c15-dotdot-end', 'C15', [(M, '''        if component.is_empty() || component.contains('\\\\') || component == "." || component == ".."
        {
            return false;
        }
    }

    !Path::new(s).is_absolute()''', '''        if component.is_empty() || component.contains('\\\\') || component == "." {
            return false;
        }
    }

    !Path::new(s).is_absolute() && !s.starts_with("../") && !s.contains("/../")''')],
  'an import path ending in a parent component', 'the path a/.. is accepted',
  'bad("import \\"../a\\";"); bad("import \\"a/..\\";");')
S('c16-block-then-line', 'C16', [(PP + 'parse/comments.rs', '''            self.leading_detached.extend(self.leading.take());
        }
        self.is_line_comment = false;''', '''            self.leading_detached.extend(self.leading.take());
        }''')],
  'a line comment, a blank line, a block comment and another line comment before a declaration', 'the block comment and the line comment after it are joined into one',
  'let s = ";\\n\\n// a\\n\\n/* b */\\n// c\\nmessage M {}"; let f = ok(s); let l = loc(&f, &[4, 0]); eq(l.leading_comments(), " c\\n"); eq(l.leading_detached_comments.clone(), vec![" a\\n", " b "]);')
S('c16-paren-trailing', 'C16', [(M, '| Some((Token::RightBrace | Token::RightBracket | Token::RightParen, _))) => {', '| Some((Token::RightBracket | Token::RightParen, _))) => {')],
  'a comment on the line after the last field of a message, directly before the closing brace', 'the comment is lost',
  'let s = "message M {\\n  optional int32 a = 1;\\n  // c\\n}"; let f = ok(s); eq(loc(&f, &[4, 0, 2, 0]).trailing_comments(), " c\\n");')
S('c17-swap-remove', 'C17', [(G, 'return Some(options.options.remove(index));', 'return Some(options.options.swap_remove(index));')],
  'a field with a default before at least two other options', 'the order of the remaining options changes',
  'let f = ok("message M { optional int32 a = 1 [default = 1, x = 2, y = 3]; }"); let o = &f.message_type[0].field[0].options.as_ref().unwrap().uninterpreted_option; eq(o.iter().map(|o| o.name[0].name_part.clone()).collect::<Vec<_>>(), vec!["x", "y"]);')
S('c17-negative-wrap', 'C17', [(G, '''                    let negative_int_value = int.as_i64();
                    if''', '''                    let negative_int_value = Some((int.value as i64).wrapping_neg());
                    if''')],
  'an option set to an integer below -2^63', 'the value wraps to another number',
  'bad("option (a) = -9223372036854775809;");')
S('c17-ext-leading-dot', 'C17', [(G, 'name_part: extension.to_string(),', 'name_part: extension.name.to_string(),')],
  'an option name whose extension part is written with a leading dot', 'the dot is lost',
  'let f = ok("option (.a.b).c = 1;"); eq(f.options.unwrap().uninterpreted_option[0].name[0].name_part.clone(), ".a.b");')
S('c18-service-rpc-end', 'C18', [(G, '''        let server_streaming = if ast.server_streaming.is_some() {
            Some(true)''', '''        let server_streaming = if ast.server_streaming.is_some() {
            Some(client_streaming.is_none())''')],
  'a method streaming in both directions', 'the response is no longer marked streaming',
  'let f = ok("service S { rpc A(stream B) returns (stream C); }"); eq(f.service[0].method[0].server_streaming(), true);')
S('c18-fixed32-proto-ty', 'C18', [(A, 'Ty::Sfixed32 => Some(field_descriptor_proto::Type::Sfixed32)', 'Ty::Sfixed32 => Some(field_descriptor_proto::Type::Fixed32)')],
  'a field of type sfixed32', 'the field gets another type',
  'let f = ok("message M { optional sfixed32 a = 1; }"); eq(f.message_type[0].field[0].r#type(), field_descriptor_proto::Type::Sfixed32);')
S('c19-syntax-lossy', 'C19', [(M, 'match value.value.as_slice() {', 'match value.value.trim_ascii_end() {')],
  'a syntax string with trailing white space', 'an unknown syntax is accepted',
  'ok("syntax = \\"proto3\\";"); bad("syntax = \\"proto3 \\";");')
S('c20-reserved-digit', 'C20', [(PP + 'case.rs', '''pub(crate) fn is_valid_ident(s: &str) -> bool {
    !s.is_empty()
        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
        && s.as_bytes()[1..]
            .iter()
            .all(''', '''pub(crate) fn is_valid_ident(s: &str) -> bool {
    !s.is_empty()
        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
        && s.as_bytes()[1..]
            .iter()
            .take(63)
            .all(''')],
  'a reserved name with an illegal character after position 64', 'the name is accepted',
  'bad(&format!("message M {{ reserved \\"{}-\\"; }}", "a".repeat(80)));')
S('c21-string-lossy', 'C21', [(L, '''                for &ch in bytes.as_ref() {
                    write!(f, "{}", ascii::escape_default(ch))?;
                }''', '''                for ch in String::from_utf8_lossy(bytes).bytes() {
                    write!(f, "{}", ascii::escape_default(ch))?;
                }''')],
  'a string in an aggregate holding bytes that are not UTF-8', 'the bytes are replaced',
  r'''let f = ok("option (a) = { x: \"\\xff\" };"); eq(f.options.unwrap().uninterpreted_option[0].aggregate_value(), "x : \"\\xff\"");''')
S('c21-mode-nested', 'C21', [(M, '''        self.lexer.extras.text_format_mode = false;

        Ok(result)''', '''        self.lexer.extras.text_format_mode = result.is_empty();

        Ok(result)''')],
  'an empty aggregate value followed by text-format-only syntax', 'a # comment after an empty aggregate is accepted',
  'bad("option (a) = {};\\n# c\\n"); bad("option (a) = { b: 1 };\\n# c\\n");')

I, CH, C, E_ = PX + 'file/include.rs', PX + 'file/chain.rs', PX + 'compile/mod.rs', PX + 'error.rs'
S('c22-parent-component', 'C22', [(I, '            _ => return None,\n        }\n    }\n\n    if name.is_empty()', '            std::path::Component::ParentDir if !name.is_empty() => name.push_str("/.."),\n            _ => return None,\n        }\n    }\n\n    if name.is_empty()')],
  "a path with a '..' component after the include path", 'a name outside the include path is returned',
  'let r = IncludeFileResolver::new(PathBuf::from("inc")); eq(r.resolve_path(Path::new("inc/a/b.proto")), Some("a/b.proto".to_string())); eq(r.resolve_path(Path::new("inc/a/../../b.proto")), None::<String>);')
S('c22-shadow-curdir', 'C22', [(I, '''            (Some(path::Component::CurDir), _) => {
                lhs = lhs_next;
            }
            (_, Some(path::Component::CurDir)) => {
                rhs = rhs_next;
            }
            (Some(ref l), Some(ref r)) if path_component_eq(l, r) => {
                lhs = lhs_next;''', '''            (Some(path::Component::CurDir), _) => {
                lhs = lhs_next;
            }
            (Some(ref l), Some(ref r)) if path_component_eq(l, r) => {
                lhs = lhs_next;''')],
  "the file given with a leading './' below an include path without one", 'the file is reported as shadowing itself',
  'std::fs::create_dir("inc").unwrap(); std::fs::write("inc/a.proto", "").unwrap(); let mut c = Compiler::new(["inc"]).unwrap(); if let Err(e) = c.open_file("./inc/a.proto") { fail(format!("{e}")) }')
S('c22-include-prefix-string', 'C22', [(I, '''    Some(iter_after(path.components(), prefix.components())?.as_path())''', '''    let after = iter_after(path.components(), prefix.components());
    Some(after.unwrap_or(path.strip_prefix("..").ok()?.components()).as_path())''')],
  'x', 'x', '')
SEEDS.pop()
S('c23-first-error-only', 'C23', [(CH, 'Err(err) if err.is_file_not_found() => continue,\n                Err(err) => return Err(err),', 'Err(err) if err.is_file_not_found() || err.is_io() => continue,\n                Err(err) => return Err(err),')],
  'a resolver that fails with an IO error before one that knows the file', 'the error is skipped and the later file returned',
  '''struct Io; impl FileResolver for Io { fn open_file(&self, _: &str) -> Result<File, Error> { Err(std::io::Error::other("disk").into()) } }
  let mut ch = ChainFileResolver::new(); ch.add(Io); ch.add(Mem([("a.proto", "")].into()));
  match ch.open_file("a.proto") { Err(e) if e.is_io() => (), r => fail(format!("{r:?}")) }''')
S('c24-duplicate-nested', 'C24', [(C, '''            if !already_imported.insert(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            self.add_import(import, import_stack)''', '''            if !already_imported.insert(import) && !self.files.contains_key(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            self.add_import(import, import_stack)''')],
  'an imported file that imports the same file twice', 'the duplicate import is accepted',
  'let mut c = mem(&[("a.proto", "import \\"b.proto\\";"), ("b.proto", "import \\"c.proto\\"; import \\"c.proto\\";"), ("c.proto", "")]); if c.open_file("a.proto").is_ok() { fail("accepted".into()) }')
S('c24-cycle-root', 'C24', [(C, 'if import_stack.iter().any(|name| name == file_name) {', 'if import_stack.iter().skip(1).any(|name| name == file_name) || import_stack.len() == 1 && import_stack[0] == file_name {')],
  'a cycle through the opened file over at least one other file', 'the cycle is reported only after the opened file was loaded a second time',
  'let mut c = mem(&[("a.proto", "import \\"b.proto\\";"), ("b.proto", "import \\"a.proto\\";")]); let e = c.open_file("a.proto").unwrap_err(); eq(e.to_string(), "import cycle detected: a.proto -> b.proto -> a.proto");')
S('c24-stack-not-popped', 'C24', [(C, '        import_stack.pop();\n', '        if !file.descriptor.dependency.is_empty() {\n            import_stack.pop();\n        }\n')],
  'a file importing an already loaded file that has an import without imports of its own', 'the importer fails with a cycle that does not exist',
  'let mut c = mem(&[("a.proto", "import \\"b.proto\\"; import \\"c.proto\\";"), ("b.proto", "import \\"d.proto\\";"), ("c.proto", "import \\"b.proto\\";"), ("d.proto", "")]); if let Err(e) = c.open_file("a.proto") { fail(e.to_string()) }')
S('c25-reopen-import', 'C25', [(C, '            file_metadata.is_import = false;\n            return Ok(self);', '            file_metadata.is_import &= !is_resolved;\n            return Ok(self);')],
  'a file opened by its name after it was loaded as an import', 'the file stays marked as an import and is left out of the output',
  'let mut c = mem(&[("a.proto", "import \\"b.proto\\";"), ("b.proto", "")]); c.open_file("a.proto").unwrap(); c.open_file("b.proto").unwrap(); eq(names(&c), vec!["b.proto", "a.proto"]);')
S('c25-source-info-imports', 'C25', [(C, '                if self.include_source_info {', '                if self.include_source_info && (!self.include_imports || !self.files[f.name()].is_import) {')],
  'source info requested together with imports', 'imported files lose their source info',
  'let mut c = mem(&[("a.proto", "import \\"b.proto\\";"), ("b.proto", "")]); c.include_imports(true).include_source_info(true); c.open_file("a.proto").unwrap(); for f in c.file_descriptor_set().file { if f.source_code_info.is_none() { fail(format!("{} has no source info", f.name())) } }')
S('c26-import-not-found-outer', 'C26', [(E_, '            ErrorKind::FileNotFound { name } => {\n                let source_code', '            ErrorKind::FileNotFound { name } | ErrorKind::ImportNotFound { name, .. } => {\n                let source_code')],
  'an import missing in a file that is itself imported', 'the missing import is reported at the outer file',
  'let mut c = mem(&[("a.proto", "import \\"b.proto\\";"), ("b.proto", "import \\"c.proto\\";")]); let e = c.open_file("a.proto").unwrap_err(); eq(e.file(), Some("b.proto"));')
S('c26-custom-io', 'C26', [(E_, "ErrorKind::Custom(err) if err.downcast_ref::<io::Error>().is_some() => true,", "ErrorKind::Custom(err) if err.source().is_some_and(|e| e.is::<io::Error>()) || err.is::<io::Error>() => true,")],
  'x', 'x', '')
SEEDS.pop()
S('c26-check-not-found', 'C26', [(C, '            if err.is_file_not_found() {\n                Error::from_kind(ErrorKind::FileNotIncluded {', '            if err.is_file_not_found() || (!is_resolved && err.is_io()) {\n                Error::from_kind(ErrorKind::FileNotIncluded {')],
  'an IO error while opening a requested file by name', 'the IO error is turned into file-not-found',
  '''struct Io; impl FileResolver for Io { fn open_file(&self, _: &str) -> Result<File, Error> { Err(std::io::Error::other("disk").into()) } }
  let e = Compiler::with_file_resolver(Io).open_file("a.proto").unwrap_err(); eq(e.is_io(), true); eq(e.is_file_not_found(), false);''')
DEAD = 'c01-int-ident-eof c02-invalid-utf8-import c04-int-min c05-reserved-max-set c06-i64-min c06-fixed-signed c09-string-pieces-span c09-negative-int-span c14-value-type-name c16-paren-trailing c17-negative-wrap c18-fixed32-proto-ty c21-string-lossy'.split()
SEEDS[:] = [s for s in SEEDS if s['name'] not in DEAD]  # the existing tests catch these

S('c01-float-upper-suffix', 'C01', [(L, "        b'f' | b'F' => {\n            if", "        b'f' => {\n            if")],
  'a float literal with a capital F suffix', 'the literal is handed to the float parser with its suffix and parsing panics',
  'bad("option a = 1.5F;"); ok("option a = { b: 1.5F };");')
S('c02-error-file-name', 'C02', [(PP + 'error.rs', 'source_code: NamedSource::new(name, source),', 'source_code: NamedSource::new(name.trim_start_matches("./"), source),')],
  'a file name starting with ./', 'the error names another file than the one passed in',
  'eq(parse("./a.proto", "x").unwrap_err().file(), "./a.proto");')
S('c03-hex-no-space', 'C03', [(L, "    if matches!(lex.remainder().chars().next(), Some(ch) if", "    if radix != 16\n        && matches!(lex.remainder().chars().next(), Some(ch) if")],
  'a hexadecimal integer directly followed by a letter that is not a hex digit', 'the missing space is accepted',
  'bad("message M { reserved 1to 2; }"); bad("message M { reserved 0x1to 2; }");')
S('c09-type-name-dot-span', 'C09', [(A, '''        if let Some(leading_dot) = &self.leading_dot {
            join_span(leading_dot.clone(), self.name.span())
        } else {''', '''        if let Some(leading_dot) = &self.leading_dot {
            leading_dot.end..self.name.span().end
        } else {''')],
  'a type name written with a leading dot', 'the span of the type name leaves out its dot',
  'let s = "message M { optional .a.B c = 1; }"; let f = ok(s); eq(at(&f, s, &[4, 0, 2, 0, 6]), vec![".a.B"]);')
S('c09-crlf-column', 'C09', [(PP + 'generate/lines.rs', 'Err(0) => (0, index_to_i32(offset)),', 'Err(0) if !self.lines.is_empty() => (0, index_to_i32(offset)),\n            Err(0) => (0, index_to_i32(offset).min(i32::from(u16::MAX))),')],
  'x', 'x', '')
SEEDS.pop()
S('c04-ext-number-proto3', 'C04', [(G, "            Some(number @ 1..=MAX_MESSAGE_FIELD_NUMBER) => Some(number),", "            Some(number @ 1..=MAX_MESSAGE_FIELD_NUMBER) if !ast.negative => Some(number),\n            Some(number @ i32::MIN..=-2147483648) => Some(number),")],
  'x', 'x', '')
SEEDS.pop()
S('c06-string-lossy', 'C06', [(G, '''                if let Ok(string) = String::from_utf8(string.value) {
                    Some(string)
                } else {''', '''                let lossy = String::from_utf8_lossy(&string.value).into_owned();
                if string.value.is_empty() || lossy != "\\u{fffd}" {
                    Some(lossy)
                } else {''')],
  'a string default that is partly not UTF-8', 'the bytes are silently replaced',
  r'''bad("message M { optional string a = 1 [default = \"a\\xff\"]; }");''')
S('c16-detached-drop', 'C16', [(PP + 'parse/comments.rs', '''            debug_assert!(self.leading_detached.is_empty());
            self.trailing = self.leading.take();
            self.is_trailing = false;''', '''            debug_assert!(self.leading_detached.is_empty());
            self.trailing = self.leading.clone();
            self.is_trailing = false;''')],
  'x', 'x', '')
SEEDS.pop()
S('c16-nested-star', 'C16', [(L, '''                if stripped.starts_with('*') && !stripped.starts_with("*/") {
                    comment_lexer.bump(1);
                }''', '''                if stripped.starts_with('*') && !stripped.starts_with("*/") {
                    comment_lexer.bump(1 + usize::from(stripped.starts_with("**")));
                }''')],
  'a block comment line that starts with two stars', 'both stars are removed from the text',
  'let f = ok("/* a\\n ** b\\n */\\nmessage M {}"); eq(loc(&f, &[4, 0]).leading_comments(), " a\\n* b\\n");')
S('c18-nested-enum-order', 'C18', [(G, '''                    enum_type.push(self.generate_enum_descriptor(enum_ast));
                    self.pop_path(2);
                }
                ast::MessageItem::Message''', '''                    let index = enum_type.len().saturating_sub(enum_ast.values.is_empty() as usize);
                    enum_type.insert(index, self.generate_enum_descriptor(enum_ast));
                    self.pop_path(2);
                }
                ast::MessageItem::Message''')],
  'a nested enum without values after another nested enum', 'the nested enums change their order',
  'let f = ok("message M { enum A { X = 0; } enum B {} }"); eq(f.message_type[0].enum_type[1].name(), "B");')
S('c21-colon-brace', 'C21', [(M, '''            } else if tok == Token::RightBrace {
                match brace_level.checked_sub(1) {''', '''            } else if tok == Token::LeftBracket {
                brace_level = brace_level.max(1);
            } else if tok == Token::RightBrace {
                match brace_level.checked_sub(1) {''')],
  'an aggregate with a list value and no nested message', 'the closing brace is taken for a nested one',
  'let f = ok("option (a) = { b: [1] }; message M {}"); eq(f.options.unwrap().uninterpreted_option[0].aggregate_value(), "b : [ 1 ]");')

S('c16-eof-comment', 'C16', [(M, '''                tok @ (None
                | Some((Token::RightBrace | Token::RightBracket | Token::RightParen, _))) => {''', '''                tok @ Some((Token::RightBrace | Token::RightBracket | Token::RightParen, _)) => {''')],
  'a comment on the line after the last declaration of a file', 'the trailing comment of the last declaration is lost',
  'let f = ok("package a;\\n// c\\n"); eq(loc(&f, &[2]).trailing_comments(), " c\\n");')
S('c16-extensions-options', 'C16', [(M, '''            Some((Token::LeftBracket, _)) => Some(self.parse_options_list()?),
            Some((Token::Semicolon, _)) => None,
            _ => self.unexpected_token("';' or '['")?,
        };

        let end = self.expect_eq(Token::Semicolon)?;

        let comments = self.parse_trailing_comment(leading_comments);

        Ok(ast::Extensions {''', '''            Some((Token::LeftBracket, _)) => Some(self.parse_options_list()?),
            Some((Token::Semicolon, _)) => None,
            _ => self.unexpected_token("';' or '['")?,
        };

        let leading_comments = match &options {
            Some(options) if options.options.len() > 1 => (vec![], leading_comments.1),
            _ => leading_comments,
        };
        let end = self.expect_eq(Token::Semicolon)?;

        let comments = self.parse_trailing_comment(leading_comments);

        Ok(ast::Extensions {''')],
  'a detached comment before an extensions statement that has two options', 'the detached comment is lost',
  'let f = ok("message M {\\n int32 a = 1;\\n\\n // x\\n\\n extensions 5 [(a) = 1, (b) = 2];\\n}".replace("int32", "optional int32").as_str()); eq(loc(&f, &[4, 0, 5]).leading_detached_comments.len(), 1);')
S('c16-oneof-trailing', 'C16', [(M, '''        self.expect_eq(Token::LeftBrace)?;
        let comments = self.parse_trailing_comment(leading_comments);

        let mut fields = Vec::new();
        let mut options = Vec::new();
''', '''        self.expect_eq(Token::LeftBrace)?;
        let comments = self.parse_trailing_comment(leading_comments);
        self.comments.reset();

        let mut fields = Vec::new();
        let mut options = Vec::new();
''')],
  'a comment before the first field of a oneof', 'the leading comment of the first field of a oneof is lost',
  'let f = ok("message M { oneof o { // t\\n\\n // l\\n int32 a = 1; } }"); eq(loc(&f, &[4, 0, 2, 0]).leading_comments(), " l\\n");')
S('c16-generate-group-type', 'C16', [(G, '''                self.add_comments(ast.span, ast.comments);
                self.add_span_for(&[tag::message::NAME], ast.name.span);
                messages.push''', '''                if body.items.is_empty() {
                    self.add_span(ast.span);
                } else {
                    self.add_comments(ast.span, ast.comments);
                }
                self.add_span_for(&[tag::message::NAME], ast.name.span);
                messages.push''')],
  'a group without fields that has a comment', 'the comment is lost',
  'let f = ok("message M {\\n // c\\n optional group G = 1 {}\\n}"); eq(loc(&f, &[4, 0, 3, 0]).leading_comments(), " c\\n");')
S('c09-empty-statement-span', 'C09', [(M, '''                    file_span = join_span(file_span, statement.span());
                    match statement {
                        Statement::Empty(_) => continue,''', '''                    if let Statement::Empty(_) = statement {
                        continue;
                    }
                    file_span = join_span(file_span, statement.span());
                    match statement {
                        Statement::Empty(_) => continue,''')],
  'an empty statement at the end of a file', 'the location of the file ends before the last token',
  'let f = ok("package a;\\n;"); eq(loc(&f, &[]).span.clone(), vec![0, 0, 1, 1]);')
S('c09-rpc-body-span', 'C09', [(M, '''                        Some((Token::OPTION, _)) => {
                            options.push(self.parse_option()?);
                        }
                        Some((Token::RightBrace, _)) => break self.bump(),
                        Some((Token::Semicolon, _)) => {
                            self.bump();
                            continue;
                        }''', '''                        Some((Token::OPTION, _)) => {
                            options.push(self.parse_option()?);
                        }
                        Some((Token::RightBrace, _)) => break self.bump(),
                        Some((Token::Semicolon, semicolon)) => {
                            self.bump();
                            if let Some((Token::RightBrace, _)) = self.peek()? {
                                self.bump();
                                break semicolon;
                            }
                            continue;
                        }''')],
  'a method body that ends with an empty statement', 'the span of the method ends at that statement and not at its brace',
  'let f = ok("service S { rpc a(b) returns (c) { ; } }"); eq(loc(&f, &[6, 0, 2, 0]).span.clone(), vec![0, 12, 0 + 38]);')
S('c10-extension-range-restart', 'C10', [(G, '''            for range in extensions.ranges {
                self.path.push(index_to_i32(extension_range.len()));
                extension_range.push''', '''            for (index, range) in extensions.ranges.into_iter().enumerate() {
                self.path.push(index_to_i32(index));
                extension_range.push''')],
  'two extensions statements in a message', 'the locations of the second statement carry the indexes of the first',
  'let f = ok("message M { extensions 5; extensions 7; }"); eq(loc(&f, &[4, 0, 5, 1]).span.clone(), vec![0, 37, 38]);')
S('c10-extend-group-type', 'C10', [(G, '''                self.pop_path(2);
                self.path
                    .extend([message_tag, index_to_i32(messages.len())]);''', '''                self.pop_path(2);
                self.path.extend([
                    match scope_is_extend {
                        true => tag::message::NESTED_TYPE,
                        false => message_tag,
                    },
                    index_to_i32(messages.len()),
                ]);'''), (G, '''        self.path.extend([field_tag, index_to_i32(field_index)]);
        self.add_span_for(&[tag::field::NAME]''', '''        let scope_is_extend = matches!(scope, FieldScope::Extend);
        self.path.extend([field_tag, index_to_i32(field_index)]);
        self.add_span_for(&[tag::field::NAME]''')],
  'a group inside an extend at the top of a file', 'the location of the group type carries the path of another element',
  'let f = ok("extend M { optional group G = 1 {} }"); loc(&f, &[4, 0, 1]);')
S('c11-extendee-first-only', 'C11', [(G, '''            self.add_span_for(&[tag::field::EXTENDEE], ast.extendee.span());
            self.pop_path(2);''', '''            if field_ast.options.is_none() {
                self.add_span_for(&[tag::field::EXTENDEE], ast.extendee.span());
            }
            self.pop_path(2);''')],
  'an extension field with options', 'the extendee of the field has no location',
  'let f = ok("extend M { optional int32 a = 1 [(b) = 1]; }"); loc(&f, &[7, 0, 2]);')
S('c13-extend-optional', 'C13', [(G, '''            } else {
                (Some(true), None)
            }
        } else {''', '''            } else {
                (matches!(&ast.kind, ast::FieldKind::Normal { ty, .. } if !matches!(ty, ast::Ty::Named(_))).then_some(true), None)
            }
        } else {''')],
  'a proto3 extension field written optional whose type is a message', 'proto3_optional is not set on the field',
  'let f = ok("syntax = \\"proto3\\"; extend M { optional a.B c = 1; }"); eq(f.extension[0].proto3_optional, Some(true));')
S('c12-oneof-optional-label', 'C12', [(G, '''            (FieldScope::Oneof, Some((_, span))) => {
                self.errors
                    .push(ParseErrorKind::OneofFieldWithLabel { span });
                None
            }''', '''            (FieldScope::Oneof, Some((ast::FieldLabel::Required | ast::FieldLabel::Repeated, span))) => {
                self.errors
                    .push(ParseErrorKind::OneofFieldWithLabel { span });
                None
            }''')],
  'an optional field in a oneof', 'the label is accepted',
  'bad("message M { oneof o { optional int32 a = 1; } }");')
S('c12-proto3-required-extend', 'C12', [(G, '''            (FieldScope::Extend, Some((ast::FieldLabel::Required, span))) => {
                self.errors
                    .push(ParseErrorKind::RequiredExtendField { span });
                None
            }''', '''            (FieldScope::Extend, Some((ast::FieldLabel::Required, span)))
                if field_span.start <= span.start && self.path.len() <= 2 =>
            {
                self.errors
                    .push(ParseErrorKind::RequiredExtendField { span });
                None
            }''')],
  'a required extension field in an extend nested in a message', 'the label is accepted',
  'bad("message N { extend M { required int32 a = 1; } }");')
S('c05-enum-reserved-negative-end', 'C05', [(G, '''            ast::ReservedRangeEnd::Int(value) => self.generate_enum_number(value),
            ast::ReservedRangeEnd::Max(_) => Some(i32::MAX),''', '''            ast::ReservedRangeEnd::Int(value) if value.value == 0 => start,
            ast::ReservedRangeEnd::Int(value) => self.generate_enum_number(value),
            ast::ReservedRangeEnd::Max(_) => Some(i32::MAX),''')],
  'a reserved range of an enum that ends at zero', 'the range ends at its start',
  'let f = ok("enum E { A = 1; reserved -5 to 0; }"); eq(f.enum_type[0].reserved_range[0].end(), 0);')
S('c18-extensions-last', 'C18', [(G, '''                options: options.map(|uninterpreted_option| ExtensionRangeOptions {
                uninterpreted_option,
            }),''', '''x''')], 'x', 'x', '')
SEEDS.pop()
S('c18-rpc-leading-dot', 'C18', [(G, "        let output_type = ast.output_ty.to_string();", '''        let output_type = if ast.server_streaming.is_some() {
            ast.output_ty.name.to_string()
        } else {
            ast.output_ty.to_string()
        };''')],
  'a server streaming method whose response type has a leading dot', 'the leading dot is lost',
  'let f = ok("service S { rpc a(.b) returns (stream .c.D); }"); eq(f.service[0].method[0].output_type(), ".c.D");')
S('c17-shared-range-options', 'C17', [(G, '''                    is_message_set,
                    extensions.options.clone(),
                ));''', '''                    is_message_set,
                    extensions.options.clone().filter(|_| extension_range.len() < 2),
                ));''')],
  'options on an extensions statement with more than two ranges', 'the third range has no options',
  'let f = ok("message M { extensions 1, 3, 5 [(a) = 1]; }"); for r in &f.message_type[0].extension_range { eq(r.options.is_some(), true); }')
S('c17-negative-float-zero', 'C17', [(M, '''                            value: -value,
                            span: join_span(start, end),''', '''                            value: 0.0 - value,
                            span: join_span(start, end),''')],
  'the option value -0.0', 'the sign of zero is lost',
  'let f = ok("option (a) = -0.0;"); eq(f.options.unwrap().uninterpreted_option[0].double_value().is_sign_negative(), true);')
S('c17-extension-part-name', 'C17', [(A, '', '')], 'x', 'x', '')
SEEDS.pop()
S('c14-map-value-enum-label', 'C14', [(G, '''                            type_name: value_ty.ty_name(),''', '''                            type_name: value_ty
                                .ty_name()
                                .map(|ty| ty.trim_start_matches('.').to_owned()),''')],
  'a map whose value type has a leading dot', 'the leading dot is lost',
  'let f = ok("message M { map<string, .a.B> m = 1; }"); eq(f.message_type[0].nested_type[0].field[1].type_name(), ".a.B");')
S('c06-group-default', 'C06', [(G, '''                if let Some(o) = default_value_option {
                    self.errors.push(ParseErrorKind::InvalidDefault {
                        kind: "group",
                        span: o.span(),
                    });
                }''', '''                if let Some(o) = default_value_option.filter(|o| o.value.as_bool().is_none()) {
                    self.errors.push(ParseErrorKind::InvalidDefault {
                        kind: "group",
                        span: o.span(),
                    });
                }''')],
  'a group with a boolean default', 'the default is accepted',
  'bad("message M { optional group G = 1 [default = true] {} }");')
S('c06-repeated-default-enum', 'C06', [(G, '''            } else if matches!(ast.label, Some((ast::FieldLabel::Repeated, _))) {
                self.errors.push(ParseErrorKind::InvalidDefault {''', '''            } else if matches!(ast.label, Some((ast::FieldLabel::Repeated, _)))
                && !matches!(&ast.kind, ast::FieldKind::Normal { ty: ast::Ty::Named(_), .. })
            {
                self.errors.push(ParseErrorKind::InvalidDefault {''')],
  'a repeated field of a named type with a default', 'the default is accepted',
  'bad("message M { repeated E a = 1 [default = X]; }");')
S('c21-escape-high', 'C21', [(L, 'write!(f, "{}", ascii::escape_default(ch))?;', 'if ch == 0x7f || ch >= 0x80 {\n                        write!(f, "\\\\{:o}", ch)?;\n                    } else {\n                        write!(f, "{}", ascii::escape_default(ch))?;\n                    }')],
  'an aggregate string with the byte 0x7f', 'the byte is printed with another escape',
  'let f = ok("option (a) = { b: \\"\\\\1775\\" };"); eq(f.options.unwrap().uninterpreted_option[0].aggregate_value(), "b : \\"\\\\x7f5\\"");')
S('c20-group-lower', 'C20', [(PP + 'case.rs', '''        && s.as_bytes()[0].is_ascii_uppercase()''', '''        && (s.as_bytes()[0].is_ascii_uppercase() || s.as_bytes().starts_with(b"_") && s.len() > 1 && s.as_bytes()[1].is_ascii_uppercase())''')],
  'a group whose name starts with an underscore and a capital', 'the name is accepted',
  'bad("message M { optional group _G = 1 {} }");')
S('c19-no-syntax-location', 'C19', [(G, "        let syntax = if ast.syntax == ast::Syntax::default() {", "        let syntax = if ast.syntax == ast::Syntax::default() || dependency.len() > 8 && package.is_none() {")],
  'a proto3 file without package and with more than eight imports', 'the syntax is dropped',
  'let imports: String = (0..9).map(|i| format!("import \\"{i}\\";")).collect(); let f = ok(&format!("syntax = \\"proto3\\"; {imports}")); eq(f.syntax(), "proto3");')
S('c24-dup-import-order', 'C24', [(C, '''            if !already_imported.insert(import) {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            self.add_import(import, &mut import_stack)''', '''            if !already_imported.insert(import) && !self.files[import.as_str()].is_import {
                return Err(Error::duplicated_import(import.to_owned(), &file, i));
            }
            self.add_import(import, &mut import_stack)''')],
  'a requested file that imports a file twice', 'the duplicate is accepted',
  'let mut c = mem(&[("a.proto", "import \\"b.proto\\"; import \\"b.proto\\";"), ("b.proto", "")]); eq(c.open_file("a.proto").is_err(), true);')
S('c25-import-of-root', 'C25', [(C, '''        if self.files.contains_key(file_name) {
            return Ok(());
        }
''', '''        if let Some(file) = self.files.get_mut(file_name) {
            file.is_import |= import_stack.len() > 1;
            return Ok(());
        }
''')],
  'a file opened explicitly and later imported by an import', 'the file is marked as an import and left out of the output',
  'let mut c = mem(&[("a.proto", "import \\"b.proto\\";"), ("b.proto", "import \\"c.proto\\";"), ("c.proto", "")]); c.open_file("c.proto").unwrap(); c.open_file("a.proto").unwrap(); eq(names(&c), vec!["c.proto", "a.proto"]);')
S('c22-shadow-reopen', 'C22', [(C, '''            if is_resolved {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;''', '''            if is_resolved && file_metadata.is_import {
                check_shadow(&name, file_metadata.path(), path)?;
            }
            file_metadata.is_import = false;''')],
  'two files with the same name in two include directories, opened one after the other', 'the second file is taken for the first and silently ignored',
  '''let d = std::env::temp_dir().join(format!("c22sr{}", std::process::id())); for s in ["x", "y"] { std::fs::create_dir_all(d.join(s)).unwrap(); std::fs::write(d.join(s).join("a.proto"), "").unwrap(); }
  let mut c = Compiler::new([d.join("x"), d.join("y")]).unwrap(); c.open_file(d.join("x/a.proto")).unwrap(); let r = c.open_file(d.join("y/a.proto")).is_err(); std::fs::remove_dir_all(&d).unwrap(); eq(r, true);''')
S('c23-resolve-last', 'C23', [(PX + 'file/chain.rs', '''        for resolver in &self.resolvers {
            if let Some(name) = resolver.resolve_path(path) {
                return Some(name);
            }
        }

        None''', '''        self.resolvers
            .iter()
            .filter_map(|resolver| resolver.resolve_path(path))
            .min_by_key(|name| name.len())''')],
  'a path that two resolvers give different names', 'the shortest name wins, not that of the first resolver',
  '''struct N(&'static str); impl FileResolver for N { fn resolve_path(&self, _: &std::path::Path) -> std::option::Option<String> { Some(self.0.into()) } fn open_file(&self, n: &str) -> Result<File, Error> { Err(Error::file_not_found(n)) } }
  let mut c = ChainFileResolver::new(); c.add(N("long.proto")); c.add(N("s")); eq(c.resolve_path(std::path::Path::new("q")), Some("long.proto".to_owned()));''')
S('c26-resolved-custom-not-found', 'C26', [(PX + 'file/mod.rs', '''                io::ErrorKind::NotFound => Error::file_not_found(name),
                io::ErrorKind::InvalidData''', '''                io::ErrorKind::NotFound | io::ErrorKind::PermissionDenied => {
                    Error::file_not_found(name)
                }
                io::ErrorKind::InvalidData''')],
  'x', 'x', '')
SEEDS.pop()
S('c26-dir-as-not-found', 'C26', [(PX + 'file/mod.rs', '''        let metadata = file.metadata().map_err(map_io_err)?;
''', '''        let metadata = file.metadata().map_err(map_io_err)?;
        if metadata.is_dir() {
            return Err(Error::file_not_found(name));
        }
''')],
  'a file name that is a directory', 'the IO error is reported as file-not-found',
  '''let d = std::env::temp_dir().join(format!("c26d{}", std::process::id())); std::fs::create_dir_all(d.join("a.proto")).unwrap();
  let r = File::open("a.proto", &d.join("a.proto")).unwrap_err(); std::fs::remove_dir_all(&d).unwrap(); eq(r.is_io(), true); eq(r.is_file_not_found(), false);''')
DEAD = 'c16-eof-comment c09-rpc-body-span c12-oneof-optional-label c14-map-value-enum-label c21-escape-high'.split()
SEEDS[:] = [s for s in SEEDS if s['name'] not in DEAD]  # the existing tests catch these
