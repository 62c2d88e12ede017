#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that ids/anchors stay consistent)."""
import json, os
G="protox-parse/src/generate/mod.rs"; P="protox-parse/src/parse/mod.rs"; L="protox-parse/src/lex/mod.rs"
A="protox-parse/src/ast/mod.rs"; LN="protox-parse/src/generate/lines.rs"; C="protox-parse/src/parse/comments.rs"
CS="protox-parse/src/case.rs"; LB="protox-parse/src/lib.rs"; ER="protox-parse/src/error.rs"
INC="protox/src/file/include.rs"; CH="protox/src/file/chain.rs"; CP="protox/src/compile/mod.rs"
PE="protox/src/error.rs"; DS="protox/src/file/descriptor_set.rs"; FM="protox/src/file/mod.rs"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["return value of protox_parse::parse"],hook_needed=None))
    if state: d["anchors"]["state"]=state
    assert len(title)<=80,(id,len(title))
    props.append(d)

p("C01","Parsing any text terminates and never panics or exhausts the stack",
  "For every file name and every UTF-8 text, parsing returns either a file descriptor or an error: it never panics, never overflows an integer or an index, never loops forever, and its recursion depth is bounded whatever the nesting of the input. Every parsing step either consumes input, records a diagnostic or ends.",
  ["inputs"],"every UTF-8 string, including truncated, malformed and deeply nested ones",
  "The tests run a few hundred fixed strings; panics hide behind token sequences nobody wrote down (a token consumed without having been peeked, an index past the end, a number at the edge of its type).",
  [P,L,G,LN,A],[("peek-before-bump discipline","Parser::peek/bump"),("error recovery","Parser::skip_until"),("checked narrowing","index_to_i32, Int::as_i32"),("nesting limit","Parser::parse_message_body")])
p("C02","A descriptor is returned exactly when no diagnostic was raised",
  "Parsing returns a descriptor only if neither lexing, parsing nor descriptor generation raised a diagnostic, and a diagnostic once raised is never dropped or overwritten by a later success. When parsing fails, the error carries at least one diagnostic, and the file name of the error is the one passed in.",
  ["inputs"],"every input text, in particular ones with a recoverable error followed by valid text",
  "Tests check single-error inputs; whether an error found early survives all later recovery paths is a statement about every path.",
  [P,G,LB,ER],[("error list in lexer extras","parse_file (free function)"),("error list in the generator context","generate_file"),("ParseError::new",ER)])
p("C03","Integer literals denote their exact value or are rejected",
  "A decimal, octal (leading 0) or hexadecimal (0x) integer literal is read as exactly the mathematical value of its digits in that base when that value is at most 2^64-1, and is rejected with an error otherwise, never wrapped or truncated. An integer immediately followed by a letter or underscore is rejected.",
  ["inputs"],"every digit string in each of the three bases",
  "Tests sample a handful of literals; off-by-one prefixes and wrap-around at 2^64 show only at particular digit strings.",
  [L],[("int callback with (radix, prefix length)","lex::int and the #[regex] table of Token")])
p("C04","Field and enum numbers are accepted exactly in their legal ranges",
  "A field or extension number is accepted exactly when it is an integer from 1 to 536870911 inclusive and appears unchanged in the descriptor; an enum value number is accepted exactly when it fits a signed 32-bit integer, negative ones keeping their sign, and appears unchanged. Anything outside is reported as an error, never wrapped.",
  ["inputs"],"every (sign, 64-bit magnitude) pair used as a number",
  "Only a few numbers are tested; the narrowing from 64-bit magnitude plus sign to 32-bit has edges at i32::MIN, i32::MAX, the field limit and 0.",
  [G,A],[("Int::as_i32",A),("generate_message_number",G),("generate_enum_number",G)])
p("C05","Reserved and extension ranges have exactly the declared bounds",
  "A message reserved or extension range 'a to b' becomes start=a, end=b+1, a single number n becomes [n, n+1), and 'max' becomes end 536870912, or 2147483647 when the message sets message_set_wire_format = true. An enum reserved range keeps both bounds inclusive with max = 2147483647. Ranges and reserved names keep source order and every declared one appears.",
  ["inputs"],"every list of ranges and names in messages and enums, with or without message-set wire format",
  "Half-open versus inclusive conversion, the message-set limit and the accumulation over several statements are only sampled.",
  [G,P,A],[("generate_message_reserved_range",G),("generate_message_extension_range",G),("generate_enum_reserved_range",G),("parse_reserved_range",P)])
p("C06","Default values are canonical, in range and of the field's type",
  "For a scalar field an accepted default value is stored as the canonical text of the written value: decimal for integers (any base), true/false for bool, the literal text for strings, escaped text for bytes, the number, inf or nan for floats. A default whose type or range does not fit the field type, or that is placed on a repeated, map or group field or in a proto3 file, is an error and never a silently different value.",
  ["inputs"],"every (field type, option value) pair",
  "15 scalar types times 5 kinds of constants with sign and range edges; tests visit a few cells.",
  [G,A],[("generate_field_default_value",G),("Int::as_i32/as_i64/as_u32/as_u64, OptionValue::as_bool/as_f64",A)])
p("C07","String literals decode to exactly the bytes they denote",
  "Every escape sequence in a string literal (simple, octal up to \\377, hex of one or two digits, \\u and \\U code points as UTF-8) decodes to exactly the bytes it denotes, all other characters stand for their UTF-8 bytes, and adjacent literals concatenate in order. Invalid escapes, NUL, raw newlines and unterminated strings are errors.",
  ["inputs"],"every string literal body and every sequence of adjacent literals",
  "Tests contain a dozen escapes; the space is all byte values in all spellings and their neighbours.",
  [L,P],[("string callback and its Component sub-lexer","lex::string"),("adjacent-literal loop","Parser::parse_string")])
p("C08","Bytes defaults are escaped reversibly into printable ASCII",
  "The text stored as the default value of a bytes field consists only of printable ASCII characters, and undoing its C-style escapes (\\n, \\r, \\t, \\\\, \\', \\\", three-digit octal) gives back exactly the bytes of the source literal, whatever those bytes are and whatever follows them.",
  ["inputs"],"every byte string",
  "A round-trip over all byte sequences; tests print one example.",
  [A,G],[("Display for the string literal",A),("default value of bytes fields",G)])
p("C09","Source spans give the exact zero-based line and column of every element",
  "Every span in the source info is the exact byte range of its element converted to zero-based lines and columns: line is the number of newlines before the offset and column the number of bytes since the last newline. A span on one line has three numbers (line, start column, end column), any other four, and the start never lies after the end.",
  ["inputs"],"every text (any mix of line lengths, CRLF, multi-byte characters) and every offset in it",
  "The unit test checks two fixed strings; exactness at the first and last byte of every line is a statement over all texts.",
  [LN,G],[("LineResolver::new/resolve/resolve_span",LN),("add_span/add_comments",G)])
p("C10","Every source-info path addresses the element declared at its span",
  "Each location path in the source info is a valid path into the returned descriptor, and the text at its span is the declaration of the element it addresses (names, numbers, types, labels, options, ranges, whole declarations); indices count elements of the same kind in the same scope. The path bookkeeping is balanced: describing an element leaves the enclosing path as it was.",
  ["inputs"],"every file shape: any nesting and interleaving of messages, groups, maps, oneofs, extends, enums, services",
  "Index bookkeeping depends on how many siblings of each kind came before, in any interleaving; snapshots contain a few small shapes.",
  [G],[("path stack push/pop discipline","Context::path, add_span_for, pop_path"),("per-kind counters","generate_*_descriptor loops")],
  state=[dict(name="Context::path",meaning="descriptor path of the element being generated",where=G)])
p("C11","Source info covers every declaration and is sorted by path",
  "The locations of a parsed file are in lexicographic order of their paths, and each declared element (package, syntax, import, message, field, extension, oneof, enum, enum value, service, method, option, range, reserved name) has at least one location. Elements that have no source text of their own, such as synthesized map-entry messages and synthetic oneofs, have none.",
  ["inputs"],"every file",
  "Existence for each element and order of all pairs is a universally quantified statement; snapshots fix a few lists.",
  [G],[("sort by path","generate_file"),("add_span/add_comments calls",G)])
p("C12","Field labels follow the syntax and scope rules, and nothing else",
  "The label in the descriptor is the one written, or optional when none is written where that is legal. A missing label on a proto2 message or extension field, any label on a oneof field, any label on a map field, 'required' in proto3 or in an extension, a group in proto3 and a map inside a oneof or extension are errors; every other combination is accepted.",
  ["inputs"],"every combination of syntax, scope, label and field kind",
  "A decision table with 2x3x4x3 cells; the tests visit some of them one at a time.",
  [G],[("generate_field_label",G),("Map/Group arms of generate_field_descriptor",G)])
p("C13","Oneof membership indexes are exact, with synthetic oneofs last",
  "Every field inside a oneof carries the index of that oneof in the message, real oneofs are numbered in source order from zero, and every proto3 optional message field gets its own additional synthetic oneof placed after all real ones, named after the field with a leading underscore (X in front when the field name starts with one) and distinct from the field's name. No other field has a oneof index, and proto3_optional is set exactly on the fields written optional in proto3.",
  ["inputs"],"every interleaving of fields, optional fields and oneofs in a message",
  "Indexes depend on the number and order of all oneofs and optional fields around; tests contain few interleavings.",
  [G],[("real_oneof_count placeholder slots","generate_message_body_descriptor"),("synthetic oneof","generate_field_descriptor"),("generate_oneof_descriptor",G)])
p("C14","Map fields and groups are lowered to the exact nested messages",
  "A map field becomes a repeated message field whose type is a nested map-entry message named after the field in PascalCase plus 'Entry' with exactly an optional key (number 1) and an optional value (number 2) of the declared types; only integral, bool and string keys are accepted. A group becomes a field with the lowercased name plus a nested message of the group's name holding its body; nested messages keep source order.",
  ["inputs"],"every key/value type pair, every field name, every position among siblings",
  "Key/value types, names with underscores and positions combine freely; tests show a few.",
  [G,CS,P],[("Map and Group arms","generate_field_descriptor"),("to_pascal_case",CS),("parse_map, parse_group",P)])
p("C15","Imports appear in order with exact public and weak indexes and safe paths",
  "The dependency list is exactly the imported paths in source order, and the public and weak lists hold exactly the positions of the imports written public or weak, in order. An import path that is empty, absolute, or has an empty, '.' or '..' component or a backslash is rejected.",
  ["inputs"],"every sequence of imports and every import string",
  "Index lists over interleaved modifiers and path validity over all strings are not enumerable by examples.",
  [G,P],[("import loop in generate_file_descriptor",G),("is_valid_import",P),("parse_import",P)])
p("C16","Comments attach to the right declaration, once, and none leaks",
  "A comment ending on the line directly before a declaration is its leading comment, comments separated from it by a blank line are its detached comments in order, and a comment following its end (same line, or next line followed by a blank line or closing) is its trailing comment; consecutive line comments join into one. Every comment is attached to at most one declaration and its text is the source text with only comment markers and leading line decoration removed.",
  ["inputs"],"every layout of comments, blank lines and declarations",
  "Attachment is decided by a small state machine over arbitrary token histories; tests exercise some histories.",
  [C,P,L],[("Comments state machine",C),("Parser::peek",P),("line_comment, block_comment",L)],
  state=[dict(name="Comments",meaning="pending leading/detached/trailing comments",where=C)])
p("C17","Options are kept completely, in order, with their exact name and value",
  "Each written option appears exactly once in the descriptor of the element it is written on, in source order, with its name split into the written parts (extension parts flagged) and its value of the written kind: identifier, non-negative integer, negative integer, float, string bytes or aggregate text. Only default and json_name on fields are taken out, into their own descriptor fields; an integer or sign that cannot be represented is an error.",
  ["inputs"],"every option name and constant on every kind of element",
  "Name shapes, value kinds and hosts multiply; taking one option out must not disturb the others at any position.",
  [G,P,A],[("generate_options, generate_options_list, generate_option, take_option",G),("parse_option_body",P)])
p("C18","Every declaration is kept, in source order, under its own name and type",
  "Messages, fields, enums, enum values, services, methods and extensions appear in the descriptor exactly once, nested as written and in source order per kind, with the written name, the written scalar type or the type name as written (including a leading dot), and for methods the written input, output and streaming flags. Nothing that was not written appears.",
  ["inputs"],"every tree of declarations",
  "Structural faithfulness for every tree; tests check selected trees.",
  [G,P,A],[("generate_*_descriptor",G),("Ty::proto_ty, Ty::ty_name, Display for TypeName",A),("parse_*",P)])
p("C19","Syntax and package statements are read exactly and at most once",
  "The syntax is proto2 when no syntax statement is given and otherwise exactly the one given, only 'proto2' and 'proto3' being accepted and only as the first statement; the descriptor's syntax field is unset for proto2 and 'proto3' for proto3. A second package statement is an error, and the package is the dotted name as written.",
  ["inputs"],"every prefix and order of file-level statements",
  "Order and repetition of statements is unbounded; tests try one each.",
  [P,G],[("parse_syntax, parse_file",P),("generate_file_descriptor",G)])
p("C20","Reserved-name, group-name and case rules hold for every string",
  "A reserved name is accepted exactly when it is an identifier: a letter or underscore followed by letters, digits and underscores. A group name is accepted exactly when it is such a name starting with an ASCII capital, and the PascalCase conversion used for map entries removes every underscore, capitalizes the ASCII letter that starts a word and leaves all other characters as they were.",
  ["inputs"],"every string",
  "String predicates over all strings; tests try a few words.",
  [CS,P],[("is_valid_ident, is_valid_group_name, to_pascal_case",CS)])
p("C21","Aggregate option values keep every token between their braces",
  "The text stored for an aggregate option value is exactly the sequence of tokens between its outermost matching braces, in order, separated by single spaces, re-lexing to the same tokens; nested braces are matched exactly and the closing brace ends the value. Text-format-only syntax ('#' comments, float suffixes) is accepted inside the braces and rejected everywhere else, also after the aggregate.",
  ["inputs"],"every token sequence inside an aggregate, with any nesting",
  "Brace matching and the lexer mode switch range over unbounded nesting and what follows.",
  [P,L],[("parse_text_format_message",P),("TokenExtras::text_format_mode",L),("Display for Token",L)])
p("C22","File-system paths map to unique file names below the include path only",
  "Mapping a path to a file name strips the include path component-wise (ignoring '.') and succeeds exactly when the rest is a non-empty sequence of ordinary UTF-8 components, which joined by '/' are the name; a path with '..' left, or outside the include path, has no name. A file found under the same name at a different path is reported as shadowed, and never when both are the same path up to '.' components.",
  ["inputs","configurations"],"every path, include path and pair of candidate paths",
  "Component sequences with '.' and '..' in any position; the tests try a few literal paths.",
  [INC],[("strip_prefix/iter_after, path_to_file_name, path_eq, check_shadow",INC)],observe=["FileResolver::resolve_path","Compiler::open_file"])
p("C23","Chained resolvers answer with the first that knows the file",
  "Opening a name through a chain returns the result of the first resolver, in the order they were added, that does not answer 'file not found', be it a file or another error, and answers 'file not found' only when all of them do. Mapping a path returns the first resolver's mapping that exists, and later resolvers are not consulted.",
  ["inputs","configurations"],"every list of resolvers and every combination of their answers",
  "Order and error kinds multiply; tests use one or two resolvers.",
  [CH,PE],[("ChainFileResolver::open_file, resolve_path",CH),("Error::is_file_not_found",PE)],observe=["ChainFileResolver as FileResolver"])
p("C24","Import resolution terminates, loads each file once and detects cycles",
  "For every import graph, opening a file either fails or adds it and all files it transitively imports, each exactly once and each after all the files it imports; a graph with a cycle reachable from the file is an error naming the cycle. A file that imports the same file twice is an error, a missing import is reported at the importing file, and files opened earlier keep their place.",
  ["inputs","histories"],"every finite import graph, cyclic or not, and every sequence of opened files",
  "Graphs and open orders are unbounded; tests have a handful of small graphs.",
  [CP],[("add_import, open_file",CP),("import stack",CP)],observe=["Compiler::open_file","Compiler::files","Compiler::file_descriptor_set"])
p("C25","Compiled output holds exactly the requested files and source info",
  "The descriptor set holds every loaded file when imports are included, and otherwise exactly the files that were opened explicitly at some point, in dependency order, whatever the order in which they were opened or imported. Source info is present on all of them when requested and on none otherwise, and all else in the descriptors is the same.",
  ["histories","configurations"],"every sequence of open calls and both output switches",
  "Whether a file counts as import depends on the whole history of opens; tests open one or two files.",
  [CP],[("file_descriptor_set, is_import flag",CP)],observe=["Compiler::file_descriptor_set"])
p("C26","Compile errors keep their kind and file",
  "An error is classified as file-not-found exactly when a requested file or an import was missing, as parse error exactly when a file's text was the cause (its syntax, its encoding or its size), as IO error exactly when it came from IO; no error is any two of them. Passing through importing files keeps every error as it is, except that a missing imported file becomes 'import not found' at the file that imports it.",
  ["inputs"],"every error kind at every import depth",
  "Classification over all kinds and depths; tests construct a few.",
  [PE,CP],[("is_file_not_found/is_parse/is_io, into_import_error",PE)],observe=["protox::Error methods"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in props: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(props))
