use crate::gen::*;
use crate::proj::facts;
use crate::{Ctx, Out};
use prost_types::field_descriptor_proto::{Label, Type};
#[allow(unused_imports)]
use prost_types::{descriptor_proto, enum_descriptor_proto, uninterpreted_option, DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto, EnumValueOptions, ExtensionRangeOptions, FieldDescriptorProto, FieldOptions, FileDescriptorProto, FileOptions, MessageOptions, MethodDescriptorProto, MethodOptions, OneofDescriptorProto, OneofOptions, ServiceDescriptorProto, ServiceOptions, UninterpretedOption};

pub fn check(c: &mut Ctx) {
    match c.id.clone().as_str() {
        "C01" => c01(c), "C02" => c02(c), "C03" => c03(c), "C04" => c04(c), "C05" => c05(c), "C06" => c06(c), "C07" => c07(c), "C08" => c08(c),
        "C12" => c12(c), "C13" => c13(c), "C14" => c14(c), "C15" => c15(c), "C16" => c16(c), "C17" => c17(c), "C19" => c19(c), "C20" => c20(c), "C21" => c21(c),
        _ => (),
    }
    docs(c);
}

/// Generated documents: everything the property speaks about must be as expected.
fn docs(c: &mut Ctx) {
    let mut k = 0u64;
    while c.time_left() && k < 2_000_000 {
        let d = Em::new(c.seed.wrapping_mul(1_000_003).wrapping_add(k)).file("test.proto");
        k += 1;
        let Some(fd) = c.expect_ok(&d.src, "generated valid document") else { continue };
        compare(c, &d, &fd);
        if c.id == "C02" || c.id == "C01" { inject(c, &d, k) }
    }
}

fn compare(c: &mut Ctx, d: &Doc, fd: &FileDescriptorProto) {
    let id = c.id.clone();
    match id.as_str() {
        "C09" | "C10" | "C11" | "C16" => locations(c, d, fd),
        "C01" => (),
        "C02" => { if fd.name.as_deref() != Some("test.proto") { c.fail(&d.src, "file name in the descriptor is wrong") } }
        _ => {
            let (g, w) = (facts(&id, fd), facts(&id, &d.fd));
            if g != w {
                let at = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
                c.fail(&d.src, format!("descriptor differs: got {:?}, expected {:?}", g.get(at), w.get(at)))
            }
        }
    }
}

fn locations(c: &mut Ctx, d: &Doc, fd: &FileDescriptorProto) {
    let got = fd.source_code_info.as_ref().map(|s| s.location.clone()).unwrap_or_default();
    let mut want: Vec<(Vec<i32>, Vec<i32>, Com)> = d.locs.iter().map(|l| (l.path.clone(), span_of(&d.src, l.s, l.e), l.com.clone())).collect();
    let mut got: Vec<(Vec<i32>, Vec<i32>, Com)> = got.into_iter().map(|l| (l.path, l.span, Com { leading: l.leading_comments, trailing: l.trailing_comments, detached: l.leading_detached_comments })).collect();
    if c.id == "C11" && !got.windows(2).all(|w| w[0].0 <= w[1].0) { c.fail(&d.src, "locations are not sorted by path") }
    if d.empty { got.retain(|l| !l.0.is_empty()); }
    let key = |l: &(Vec<i32>, Vec<i32>, Com)| (l.0.clone(), l.1.clone(), format!("{:?}", l.2));
    want.sort_by_key(key); got.sort_by_key(key);
    let show = |w: String, g: String| format!("source info differs: got {g}, expected {w}");
    match c.id.as_str() {
        "C11" => {
            let (mut w, mut g): (Vec<_>, Vec<_>) = (want.iter().map(|l| &l.0).collect(), got.iter().map(|l| &l.0).collect());
            w.sort(); g.sort();
            if w != g { let i = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len())); c.fail(&d.src, show(format!("path {:?}", w.get(i)), format!("path {:?}", g.get(i)))) }
        }
        "C09" => {
            for l in &got {
                let s = &l.1;
                let ok = (s.len() == 3 && s[1] <= s[2]) || (s.len() == 4 && s[0] < s[2]);
                if !ok { c.fail(&d.src, format!("malformed span {s:?} at path {:?}", l.0)) }
            }
            let (mut w, mut g): (Vec<_>, Vec<_>) = (want.iter().map(|l| &l.1).collect(), got.iter().map(|l| &l.1).collect());
            w.sort(); g.sort();
            if w != g { let i = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len())); c.fail(&d.src, show(format!("span {:?}", w.get(i)), format!("span {:?}", g.get(i)))) }
        }
        "C10" => {
            let i = want.iter().zip(&got).position(|(a, b)| (&a.0, &a.1) != (&b.0, &b.1));
            if let Some(i) = i { c.fail(&d.src, show(format!("{:?}", (&want[i].0, &want[i].1)), format!("{:?}", (&got[i].0, &got[i].1)))) }
            else if want.len() != got.len() { c.fail(&d.src, format!("{} locations, expected {}", got.len(), want.len())) }
        }
        _ => {
            let f = |v: &Vec<(Vec<i32>, Vec<i32>, Com)>| v.iter().filter(|l| l.2 != Com::default()).cloned().collect::<Vec<_>>();
            let (w, g) = (f(&want), f(&got));
            if w != g { let i = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len())); c.fail(&d.src, show(format!("comment {:?}", w.get(i)), format!("comment {:?}", g.get(i)))) }
        }
    }
}

/// Break a valid document at one place: it must be rejected, with a diagnostic and the file name.
fn inject(c: &mut Ctx, d: &Doc, k: u64) {
    let mut r = Rng::new(c.seed ^ k.wrapping_mul(77));
    let bad = ["$", "\u{1}", "\"abc\n\"", "\"\\q\"", "\"\\xg\"", "0xg", "09x ", "99999999999999999999 ", "é", "'\\400'", "\"a\0\"", "'\\ud800'", "@ ", "1a ", "/* /* */ */ $", "~"];
    if c.id == "C01" {
        for _ in 0..4 {
            let mut s = d.src.clone();
            for _ in 0..r.range(1, 3) {
                let mut at = r.below(s.len() + 1); while !s.is_char_boundary(at) { at -= 1 }
                match r.below(5) {
                    0 => s.truncate(at),
                    1 => s.insert_str(at, *r.pick(&bad)),
                    2 => s.insert_str(at, *r.pick(&TOKENS)),
                    3 => { let mut e = (at + r.below(12)).min(s.len()); while !s.is_char_boundary(e) { e += 1 } s.replace_range(at..e, "") }
                    _ => { let mut e = (at + r.below(40)).min(s.len()); while !s.is_char_boundary(e) { e += 1 } let x = s[at..e].to_owned(); s.insert_str(at, &x) }
                }
            }
            c.parse(&s);
        }
        return;
    }
    for _ in 0..3 {
        if d.toks.is_empty() { break }
        let at = *r.pick(&d.toks);
        let b = *r.pick(&bad);
        // a word character before the insertion could merge with it into something legal
        let pre = if d.src[..at].ends_with(|x: char| x.is_ascii_alphanumeric() || x == '_' || x == '.' || x == '/') { " " } else { "" };
        let s = format!("{}{pre}{b} {}", &d.src[..at], &d.src[at..]);
        match c.parse(&s) {
            Out::Ok(_) => c.fail(&s, format!("{b:?} was inserted before a token, but the text is accepted")),
            Out::Err(e) => {
                if e.file != "test.proto" { c.fail(&s, format!("error names file {:?}", e.file)) }
                if e.display.is_empty() || e.count == 0 { c.fail(&s, "error without diagnostic") }
                if e.span.map_or(false, |x| x.start > x.end || x.end > s.len() + 1) { c.fail(&s, "span outside the text") }
            }
            Out::Panic(_) => (),
        }
    }
}

pub const TOKENS: [&str; 46] = ["message", "enum", "service", "rpc", "returns", "stream", "extend", "oneof", "group", "map", "option", "optional", "required", "repeated", "reserved", "extensions", "to", "max", "import", "public", "weak", "package", "syntax", "Foo", "_x", "int32", "1", "-", "0x10", "1.5", "\"a\"", "'proto3'", "{", "}", "[", "]", "(", ")", "<", ">", ";", ",", "=", ".", "// c\n", "/* c */"];

fn c01(c: &mut Ctx) {
    // nesting of every construct, on a 2 MiB stack in a child process
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("vreplay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let n = 20000;
    let deep: Vec<String> = vec![
        "message A { ".repeat(n), format!("{}{}", "message A { ".repeat(n), "}".repeat(n)),
        format!("message M {{ {}", "optional group A = 1 { ".repeat(n)),
        format!("message M {{ {}", "oneof a { group A = 1 { ".repeat(n)),
        format!("message M {{ {}", "extend A { optional group B = 1 { ".repeat(n)),
        format!("extend M {{ {}", "optional group A = 1 { message B { extend C { ".repeat(n)),
        format!("option a = {}", "{ ".repeat(n * 4)), format!("option a = {}{};", "{ ".repeat(n * 4), "} ".repeat(n * 4)),
        format!("option {}", "(".repeat(n)), format!("message A {{ a.b{} c = 1; }}", ".d".repeat(n)),
        "[".repeat(n), "/*".repeat(n), format!("{}{}", "/*".repeat(n), "*/".repeat(n)), "enum A { ".repeat(n), "service A { rpc B(C) returns (D) { ".repeat(n),
        format!("option a = \"{}", "\\".repeat(n)), format!("option a = {}", "'x' ".repeat(n)), "message A { oneof b { ".repeat(n), "option a = ".repeat(n), "map<".repeat(n), format!("message A {{ {}", "map<map<".repeat(n)),
        "$ ".repeat(n), "\"".repeat(n), "}".repeat(n), ";".repeat(n * 5), "\n".repeat(n * 5), "// c\n".repeat(n), "1a ".repeat(n), format!("message A {{ reserved {}", "1, ".repeat(n)), format!("message A {{ reserved {}", "'a', ".repeat(n)), format!("option a = -{}", "-".repeat(n)), "syntax = ".repeat(n), "import ".repeat(n),
    ];
    for (i, s) in deep.iter().enumerate() {
        c.case(s);
        let f = dir.join(format!("{i}.proto"));
        std::fs::write(&f, s).unwrap();
        let mut ch = std::process::Command::new(&exe).arg("small").arg(&f).stderr(std::process::Stdio::null()).spawn().unwrap();
        let t = std::time::Instant::now();
        let why = loop {
            match ch.try_wait().unwrap() {
                Some(s) if s.success() => break None,
                Some(s) => break Some(format!("parsing on a 2 MiB stack ended with {s} (stack overflow or panic)")),
                None if t.elapsed().as_secs() > 60 => { let _ = ch.kill(); break Some("parsing did not end within 60 s".to_owned()) }
                None => std::thread::sleep(std::time::Duration::from_millis(2)),
            }
        };
        let _ = std::fs::remove_file(&f);
        if let Some(w) = why { c.fail(s, w); break }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // every text of up to two tokens in every context, and random longer ones
    let pre = ["", "message M { ", "enum E { ", "service S { ", "extend X { ", "message M { oneof o { ", "option ", "option a = ", "option a = { ", "message M { int32 a = ", "message M { int32 a = 1 [", "message M { reserved ", "message M { extensions ", "enum E { reserved ", "enum E { A = ", "service S { rpc ", "service S { rpc A(", "import ", "package ", "syntax = ", "message M { map<", "message M { optional ", "message M { group "];
    for p in pre {
        c.parse(p);
        for a in TOKENS { c.parse(&format!("{p}{a}")); for b in TOKENS { c.parse(&format!("{p}{a} {b}")); } if !c.viols.is_empty() { return } }
    }
    let mut r = Rng::new(c.seed);
    for _ in 0..4000 {
        if !c.viols.is_empty() { return }
        let mut s = String::from(*r.pick(&pre));
        for _ in 0..r.below(30) { s.push_str(*r.pick(&TOKENS)); if r.chance(85) { s.push(' ') } if r.chance(8) { s.push('\n') } }
        c.parse(&s);
        let len = r.below(40);
        let s: String = (0..len).map(|_| char::from_u32(*r.pick(&[0u32, 9, 10, 13, 32, 34, 35, 39, 42, 45, 46, 47, 48, 49, 56, 92, 92, 95, 97, 101, 102, 120, 117, 85, 123, 125, 233, 0x1F600])).unwrap()).collect();
        c.parse(&s);
        c.parse(&format!("option a = {{ {s}"));
        c.parse(&format!("option a = \"{s}"));
    }
}

fn c02(c: &mut Ctx) {
    // one bad declaration among good ones, at every position
    let bad = ["message A { int32 = 1; }", "message A { optional int32 a = 0; }", "enum E { A = 4294967296; }", "import '/a';", "message A { oneof o {} }", "message A { optional int32 a = 1 [default = 'x']; }", "option a = 99999999999999999999;", "option a = -x;", "message A { reserved '1a'; }", "option a = '\\q';", "message A { optional group g = 1 {} }", "foo;", "message A { int32 a = 1; }", "message A { optional map<int32,int32> a = 1; }", "message A { map<float,int32> a = 1; }", "extend A { required int32 a = 1; }", "message A { oneof o { optional int32 a = 1; } }", "message A { optional string a = 1 [default = '\\377']; }", "message A { optional int32 a = 1 [json_name = 5]; }", "message A { repeated int32 a = 1 [default = 1]; }", "option a = -9223372036854775809;", "option a = 1.0f;", "# x\n", "message A { reserved 0; }", "message A { extensions 5 to 536870912; }", "enum E { reserved -2147483649; }", "/* unterminated", "option a = 1a;", "package a; package b;", "; syntax = 'proto3';", "}", "message A { optional int32 a = 1 [default = 2147483648]; }", "option a = 'x\0y';", "/* /* */ */", "message A {", "service S { rpc A(B) return (C); }", "message A { optional bytes a = 1 [default = 1]; }", "message A { optional bool a = 1 [default = 1]; }", "message A { optional group G = 1 [default = 1] {} }"];
    let good = ["message G1 { optional int32 a = 1; }", "enum G2 { X = 0; }", "service G3 { }", "option g = 1;", ";", "import 'x.proto';"];
    for b in bad {
        for (i, g) in good.iter().enumerate() {
            for s in [format!("{b}"), format!("{g} {b}"), format!("{b} {g}"), format!("{g} {b} {}", good[(i + 1) % good.len()]), format!("// c\n{g}\n\n{b}\n{g}")] {
                c.expect_err(&s, "contains an invalid declaration");
            }
        }
        for b2 in bad { if b == "message A {" && b2 == "}" { continue } c.expect_err(&format!("{b} {b2}"), "contains two invalid declarations"); }
    }
    let mut names: Vec<String> = ["", "a.proto", "dir/b.proto", "é", "./a.proto", "../a.proto", "/a.proto", "a/./b.proto", "a//b.proto", "a/", "A\\b.proto", "C:\\a", " a ", "a b", "a\nb", "a\0b", ".", "..", "a.PROTO", "file://a", "<stdin>", "-", "a:1:2", "%41", "\u{feff}a", "e\u{301}"].iter().map(|s| s.to_string()).collect();
    names.push("x".repeat(5000));
    let mut r = Rng::new(c.seed);
    for _ in 0..60 { let n = r.range(1, 9); names.push((0..n).map(|_| *r.pick(&['.', '/', '\\', 'a', 'Z', ' ', ':', '-', 'é', '0'])).collect()) }
    for name in &names {
        for s in ["message A { $ }", "$", "message A {", "message A { optional int32 a = 0; }", "import '/a';", "'", "option a = 99999999999999999999;"] {
            match crate::run(name, s) { Out::Err(e) if e.file == *name && e.count > 0 => (), o => c.fail(s, format!("file name {name:?} not in the error: {}", match o { Out::Err(e) => format!("names {:?}", e.file), o => o.text() })) }
        }
        match crate::run(name, "message A { }") { Out::Ok(f) if f.name.as_ref() == Some(name) => (), o => c.fail("message A { }", format!("file name {name:?} not in the descriptor: {}", o.text())) }
    }
}

fn u64s(c: &Ctx) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    for k in 0..68u32 { for d in [-2i128, -1, 0, 1, 2] { let x = (1i128 << k) + d; if x >= 0 { v.push(x as u128) } } }
    let mut p: u128 = 1; for _ in 0..24 { v.extend([p - 1, p, p + 1]); p *= 10 }
    let mut r = Rng::new(c.seed); for _ in 0..300 { let s = r.below(64); v.push((r.next() >> s) as u128) }
    v.extend([u64::MAX as u128 * 2, u64::MAX as u128 * 16, u64::MAX as u128 * 8 + 7, 0o1777777777777777777777, 0o2000000000000000000000]);
    v
}
fn int_forms(v: u128) -> Vec<String> {
    let mut f = vec![v.to_string(), format!("0x{v:x}"), format!("0X{v:X}"), format!("0{v:o}"), format!("00{v:o}"), format!("0x0{v:X}")];
    if v == 0 { f.push("00".into()) }
    f
}
fn c03(c: &mut Ctx) {
    for v in u64s(c) { for t in int_forms(v) {
        let s = format!("option a = {t};");
        if v <= u64::MAX as u128 { if let Some(f) = c.expect_ok(&s, "integer in range") { let o = &f.options.unwrap().uninterpreted_option[0]; c.eq(&s, "value", &o.positive_int_value, &Some(v as u64)) } }
        else { c.expect_err(&s, "integer above 2^64-1") }
        let s = format!("message M {{ optional uint64 a = 1 [default = {t}]; }}");
        if v <= u64::MAX as u128 { if let Some(f) = c.expect_ok(&s, "integer in range") { c.eq(&s, "value", &f.message_type[0].field[0].default_value, &Some(v.to_string())) } }
        else { c.expect_err(&s, "integer above 2^64-1") }
        let s = format!("option a = {{ b: {t} }};");
        if v <= u64::MAX as u128 { if let Some(f) = c.expect_ok(&s, "integer in range") { c.eq(&s, "value", &f.options.unwrap().uninterpreted_option[0].aggregate_value, &Some(format!("b : {v}"))) } }
        else { c.expect_err(&s, "integer above 2^64-1") }
        if !c.viols.is_empty() { return }
    } }
    for n in ["0", "1", "10", "017", "0x1f", "0XA", "07", "00", "123456789"] {
        for suf in ["a", "_", "g", "z", "Z", "x1", "_1", "to", "é"] {
            if (n.starts_with("0x") || n.starts_with("0X")) && suf.chars().next().unwrap().is_ascii_hexdigit() || n == "0" && suf == "x1" { continue }
            c.expect_err(&format!("option a = {n}{suf};"), "integer followed by a letter");
            c.expect_err(&format!("message M {{ reserved {n}{suf} 5; }}"), "integer followed by a letter");
        }
        c.expect_err(&format!("message M {{ reserved {n}to 5; }}"), "integer followed by a letter");
        c.expect_err(&format!("enum E {{ reserved {n}to 5; }}"), "integer followed by a letter");
    }
    for bad in ["0x", "0xg", "08", "09", "018", "0x_1", "1_000", "0b1", "0o7", "018", "0778", "0999", "00000008", "1__", "0_", "0a", "0z"] { c.expect_err(&format!("option a = {bad};"), "malformed integer") }
}

fn ints() -> Vec<i128> {
    let mut v = vec![];
    for k in [0, 1, 7, 8, 15, 16, 28, 29, 30, 31, 32, 33, 62, 63, 64] { for d in -2..=2 { let x = (1i128 << k) + d; v.push(x); v.push(-x) } }
    v.extend([0, 19000, 19999, 536870910, 536870911, 536870912, 4294967297, 4294967296 + 536870911, (1i128 << 32) + 5, (1i128 << 33) + 1, 18446744073709551615, -1]);
    v
}
fn signed_forms(v: i128, neg_zero: bool) -> Vec<String> {
    let f = int_forms(v.unsigned_abs());
    if v < 0 { f.into_iter().flat_map(|t| [format!("-{t}"), format!("- {t}")]).collect() } else if v == 0 && neg_zero { f.iter().map(|t| format!("-{t}")).collect() } else { f }
}
fn c04(c: &mut Ctx) {
    let ctx: [(&str, fn(&FileDescriptorProto) -> Option<i32>); 8] = [
        ("message M { optional int32 a = @; }", |f| f.message_type[0].field[0].number),
        ("message M { required .Foo a = @ [deprecated = true]; }", |f| f.message_type[0].field[0].number),
        ("message M { repeated group G = @ { } }", |f| f.message_type[0].field[0].number),
        ("message M { map<int32, string> a = @; }", |f| f.message_type[0].field[0].number),
        ("message M { oneof o { Foo a = 1; string b = @; } }", |f| f.message_type[0].field[1].number),
        ("extend M { optional int32 a = @; }", |f| f.extension[0].number),
        ("message M { extend X { optional int32 a = @; } }", |f| f.message_type[0].extension[0].number),
        ("syntax = 'proto3'; message M { optional int32 a = @; }", |f| f.message_type[0].field[0].number),
    ];
    for v in ints() { for t in signed_forms(v, false) { 
        for (tpl, get) in &ctx {
            let s = tpl.replace('@', &t);
            if (1..=536870911).contains(&v) { if let Some(f) = c.expect_ok(&s, "field number in range") { c.eq(&s, "number", &get(&f), &Some(v as i32)) } }
            else { c.expect_err(&s, "field number out of range") }
        }
        for tpl in ["enum E { A = @; }", "message M { enum E { option allow_alias = true; A = @ [deprecated = true]; } }", "syntax = 'proto3'; enum E { A = @; }"] {
            let s = tpl.replace('@', &t);
            let get = |f: &FileDescriptorProto| f.enum_type.first().or(f.message_type.first().and_then(|m| m.enum_type.first())).and_then(|e| e.value[0].number);
            if (i32::MIN as i128..=i32::MAX as i128).contains(&v) { if let Some(f) = c.expect_ok(&s, "enum number in range") { c.eq(&s, "number", &get(&f), &Some(v as i32)) } }
            else { c.expect_err(&s, "enum number out of range") }
        }
        if !c.viols.is_empty() { return }
    } }
    for t in ["", "1.0", "1e3", "'1'", "a", "--1", "+1", "- - 1", "1 2", "max"] { for (tpl, _) in &ctx { c.expect_err(&tpl.replace('@', t), "not an integer") } c.expect_err(&format!("enum E {{ A = {t}; }}"), "not an integer") }
}

fn c05(c: &mut Ctx) {
    let ms = [None, Some("true"), Some("false")];
    let vals: Vec<i128> = vec![-2147483649, -2147483648, -5, -1, 0, 1, 2, 100, 536870910, 536870911, 536870912, 2147483646, 2147483647, 2147483648, 4294967297, 18446744073709551615];
    let msg_ok = |v: i128| (1..=536870911).contains(&v);
    let en_ok = |v: i128| (i32::MIN as i128..=i32::MAX as i128).contains(&v);
    let mut kinds: Vec<(String, i128, Option<Option<i128>>)> = vec![]; // text, start, None=single, Some(None)=max, Some(Some(b))
    for &a in &vals {
        kinds.push((a.to_string(), a, None));
        kinds.push((format!("{a} to max"), a, Some(None)));
        for &b in &vals { kinds.push((format!("{a} to {b}"), a, Some(Some(b)))) }
    }
    for (t, a, e) in &kinds {
        for m in ms {
            let opt = m.map_or(String::new(), |v| format!("option message_set_wire_format = {v}; "));
            for before in [true, false] {
                let lim: i128 = if m == Some("true") { 2147483647 } else { 536870912 };
                let ok = msg_ok(*a) && match e { Some(Some(b)) => msg_ok(*b), _ => true };
                let end = match e { None => a + 1, Some(None) => lim, Some(Some(b)) => b + 1 };
                for kw in ["reserved", "extensions"] {
                    let s = if before { format!("message M {{ {opt}{kw} 7, {t}; }}") } else { format!("message M {{ {kw} 7, {t}; {opt}}}") };
                    if ok { if let Some(f) = c.expect_ok(&s, "range in bounds") {
                        let m = &f.message_type[0];
                        let g: Vec<_> = if kw == "reserved" { m.reserved_range.iter().map(|r| (r.start, r.end)).collect() } else { m.extension_range.iter().map(|r| (r.start, r.end)).collect() };
                        c.eq(&s, "ranges", &g, &vec![(Some(7), Some(8)), (Some(*a as i32), Some(end as i32))]);
                    } } else { c.expect_err(&s, "range out of bounds") }
                }
            }
        }
        let s = format!("enum E {{ reserved 7, {t}; }}");
        let ok = en_ok(*a) && match e { Some(Some(b)) => en_ok(*b), _ => true };
        let end = match e { None => *a, Some(None) => 2147483647, Some(Some(b)) => *b };
        if ok { if let Some(f) = c.expect_ok(&s, "range in bounds") { let g: Vec<_> = f.enum_type[0].reserved_range.iter().map(|r| (r.start, r.end)).collect(); c.eq(&s, "ranges", &g, &vec![(Some(7), Some(7)), (Some(*a as i32), Some(end as i32))]) } } else { c.expect_err(&s, "range out of bounds") }
        if !c.viols.is_empty() { return }
    }
    // the option only counts under its own plain name and with the value true
    for (o, set) in [("option message_set_wire_format = true;", true), ("option (message_set_wire_format) = true;", false), ("option message_set_wire_format.x = true;", false), ("option x.message_set_wire_format = true;", false), ("option message_set_wire_format = 1;", false), ("option message_set_wire_format = 'true';", false), ("option a = 1; option message_set_wire_format = true;", true), ("option .message_set_wire_format = true;", false)] {
        let s = format!("message M {{ {o} reserved 1 to max; extensions 2 to max [a = 1]; }}");
        let Out::Ok(f) = c.parse(&s) else { continue };
        let m = &f.message_type[0];
        let lim = if set { 2147483647 } else { 536870912 };
        c.eq(&s, "ends", &(m.reserved_range[0].end, m.extension_range[0].end), &(Some(lim), Some(lim)));
    }
    for t in ["reserved 1 to;", "reserved to 5;", "reserved max;", "reserved 1 to min;", "reserved 1, ;", "reserved ;", "reserved 1 'a';", "reserved 'a', 1;", "reserved 1 [a = 1];", "extensions 'a';", "extensions 1 to 2 3;", "reserved 1.5;", "extensions;"] { c.expect_err(&format!("message M {{ {t} }}"), "malformed range") }
    for t in ["extensions 100 [a = 1];", "extensions 100, 200 [a = 1];", "extensions 1 to 2, 5 [a = 1];", "extensions 1 to max [a = 1];"] { c.expect_ok(&format!("message M {{ {t} }}"), "extension options"); }
    // order across statements
    let s = "message M { reserved 5 to 6; extensions 9; reserved 'b', 'a'; reserved 1; reserved 'c'; extensions 3 to 4, 7; }";
    if let Some(f) = c.expect_ok(s, "") { let m = &f.message_type[0];
        c.eq(s, "reserved", &m.reserved_range.iter().map(|r| (r.start(), r.end())).collect::<Vec<_>>(), &vec![(5, 7), (1, 2)]);
        c.eq(s, "names", &m.reserved_name, &vec!["b".to_owned(), "a".into(), "c".into()]);
        c.eq(s, "extensions", &m.extension_range.iter().map(|r| (r.start(), r.end())).collect::<Vec<_>>(), &vec![(9, 10), (3, 5), (7, 8)]); }
}

#[derive(Clone, Debug)]
enum Dv { Int(bool, u64), Float(f64), Id(bool, &'static str), Str(Vec<u8>), Agg }
fn c06(c: &mut Ctx) {
    let mut vals: Vec<(String, Dv)> = vec![];
    for v in [0u64, 1, 7, 8, 100, 127, 255, 2147483646, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295, 4294967296, 4294967297, 9007199254740993, 9223372036854775806, 9223372036854775807, 9223372036854775808, 9223372036854775809, u64::MAX - 1, u64::MAX] {
        for t in [v.to_string(), format!("0x{v:x}"), format!("0{v:o}")] { vals.push((t.clone(), Dv::Int(false, v))); vals.push((format!("-{t}"), Dv::Int(true, v))); }
    }
    for t in ["0.0", "1.5", ".5", "5.", "1e10", "1E-10", "1e308", "1e400", "0.1", "123456789.125", "1e-400", "3.4028235e38", "1e22", "1e16", "0e0"] { let f: f64 = t.parse().unwrap(); vals.push((t.into(), Dv::Float(f))); vals.push((format!("-{t}"), Dv::Float(-f))) }
    for t in ["true", "false", "inf", "nan", "foo", "True", "FALSE", "t", "Inf", "NAN", "infinity", "max"] { vals.push((t.into(), Dv::Id(false, t))); vals.push((format!("-{t}"), Dv::Id(true, t))) }
    for (t, v) in [("''", &b""[..]), ("'abc'", b"abc"), ("\"a\\n\\x00\\377\"", b"a\n\x00\xff"), ("'true'", b"true"), ("'1' '2'", b"12"), ("'\u{e9}'", "\u{e9}".as_bytes()), ("'\\303\\251'", "\u{e9}".as_bytes()), ("'\\xc3' '\\xa9'", "\u{e9}".as_bytes()), ("'\\xe9'", b"\xe9"), ("'\\\\\\'\\\"'", b"\\'\"")] { vals.push((t.into(), Dv::Str(v.to_vec()))) }
    vals.push(("{ a: 1 }".into(), Dv::Agg));
    for (ty, t) in SCALARS {
        for (txt, v) in &vals {
            let (smin, smax, unsigned) = match t {
                Type::Int32 | Type::Sint32 | Type::Sfixed32 => (1u64 << 31, (1u64 << 31) - 1, false),
                Type::Int64 | Type::Sint64 | Type::Sfixed64 => (1u64 << 63, (1u64 << 63) - 1, false),
                Type::Uint32 | Type::Fixed32 => (0, u32::MAX as u64, true),
                _ => (0, u64::MAX, true),
            };
            let want: Option<String> = match (t, v) {
                (Type::Double | Type::Float, Dv::Int(n, x)) => Some({ let f = if *n { -(*x as f64) } else { *x as f64 }; format!("{f}") }),
                (Type::Double | Type::Float, Dv::Float(f)) => Some(format!("{f}").to_lowercase()),
                (Type::Double | Type::Float, Dv::Id(n, "inf")) => Some(if *n { "-inf" } else { "inf" }.into()),
                (Type::Double | Type::Float, Dv::Id(_, "nan")) => Some("nan".into()),
                (Type::Double | Type::Float, _) => None,
                (Type::Bool, Dv::Id(false, b @ ("true" | "false"))) => Some(b.to_string()),
                (Type::Bool, _) => None,
                (Type::String, Dv::Str(b)) => String::from_utf8(b.clone()).ok(),
                (Type::String, _) => None,
                (Type::Bytes, Dv::Str(b)) => Some(c_escape(b)),
                (Type::Bytes, _) => None,
                (_, Dv::Int(n, x)) => {
                    if *n && unsigned { None } else if *n && *x <= smin { Some(if *x == 0 { "0".into() } else { format!("-{x}") }) } else if !*n && *x <= smax { Some(x.to_string()) } else { None }
                }
                _ => None,
            };
            for tpl in ["message M { optional TY a = 1 [default = @]; }", "extend X { optional TY a = 1 [a = 1, default = @, b = 2]; }", "message M { oneof o { TY a = 1 [default = @]; } }", "message M { required TY a = 1 [default = @, json_name = 'x']; }"] {
                let s = tpl.replace("TY", ty).replace('@', txt);
                match &want {
                    Some(w) => if let Some(f) = c.expect_ok(&s, "default fits the type") { let fl = f.extension.first().or(f.message_type.first().map(|m| &m.field[0])).unwrap(); c.eq(&s, "default", &fl.default_value, &Some(w.clone())) },
                    None => c.expect_err(&s, "default does not fit the type"),
                }
            }
            for tpl in ["message M { repeated TY a = 1 [default = @]; }", "syntax = 'proto3'; message M { TY a = 1 [default = @]; }", "message M { map<int32, TY> a = 1 [default = @]; }", "syntax = 'proto3'; message M { optional TY a = 1 [default = @]; }", "syntax = 'proto3'; message M { oneof o { TY a = 1 [default = @]; } }", "extend X { repeated TY a = 1 [default = @]; }"] {
                c.expect_err(&tpl.replace("TY", ty).replace('@', txt), "default where none is allowed")
            }
            if !c.viols.is_empty() { return }
        }
        c.expect_err(&format!("message M {{ optional {ty} a = 1 [default = 1, default = 2], b; }}"), "malformed");
    }
    for (txt, _) in &vals {
        c.expect_err(&format!("message M {{ optional group G = 1 [default = {txt}] {{}} }}"), "default on a group");
        c.expect_err(&format!("message M {{ repeated Foo a = 1 [default = {txt}]; }}"), "default on a repeated field");
        c.expect_err(&format!("syntax = 'proto3'; message M {{ Foo a = 1 [default = {txt}]; }}"), "default in proto3");
    }
    for id in ["FOO", "a_b", "true", "inf", "nan", "_x", "default"] {
        let s = format!("message M {{ optional Foo a = 1 [default = {id}]; }}");
        if let Some(f) = c.expect_ok(&s, "enum default") { c.eq(&s, "default", &f.message_type[0].field[0].default_value, &Some(id.to_owned())) }
    }
    // absent default
    let s = "message M { optional int32 a = 1; optional int32 b = 2 [(default) = 5, default.x = 3, x.default = 3]; }";
    if let Some(f) = c.expect_ok(s, "") { for fl in &f.message_type[0].field { c.eq(s, "default", &fl.default_value, &None) } }
}

fn str_cases(c: &Ctx) -> Vec<(String, Option<Vec<u8>>)> {
    let mut v: Vec<(String, Option<Vec<u8>>)> = vec![];
    for b in 0..512u32 {
        for t in [format!("{b:o}"), format!("{b:02o}"), format!("{b:03o}")] {
            if t.len() > 3 { continue }
            for fol in ["", "8", "g"] { 
                let mut x = vec![b as u8]; x.extend(fol.as_bytes());
                v.push((format!("\\{t}{fol}"), if b < 256 { Some(x) } else { None }));
            }
            if t.len() == 3 { let mut x = vec![b as u8]; x.push(b'7'); v.push((format!("\\{t}7"), if b < 256 { Some(x) } else { None })) }
        }
    }
    for b in 0..256u32 { for t in [format!("x{b:x}"), format!("X{b:02X}"), format!("x{b:02x}")] { 
        for fol in ["", "g"] { let mut x = vec![b as u8]; x.extend(fol.as_bytes()); v.push((format!("\\{t}{fol}"), Some(x))) }
        if t.len() == 3 { v.push((format!("\\{t}A"), Some(vec![b as u8, b'A']))) }
    } }
    for ch in 0..128u8 {
        let simple: Option<u8> = match ch { b'a' => Some(7), b'b' => Some(8), b'f' => Some(12), b'n' => Some(10), b'r' => Some(13), b't' => Some(9), b'v' => Some(11), b'?' => Some(b'?'), b'\\' => Some(b'\\'), b'\'' => Some(b'\''), b'"' => Some(b'"'), _ => None };
        if (b'0'..=b'7').contains(&ch) { continue }
        v.push((format!("\\{}", ch as char), simple.map(|b| vec![b])));
        v.push((format!("p\\{}q", ch as char), simple.map(|b| vec![b'p', b, b'q'])));
        if ch != b'\\' && ch != b'"' { v.push((format!("p{}q", ch as char), if ch == 0 || ch == 10 { None } else { Some(vec![b'p', ch, b'q']) })) }
    }
    for cp in [0x0u32, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0x7fffffff, 0xffffffff] {
        let enc = char::from_u32(cp).map(|ch| ch.to_string().into_bytes());
        if cp <= 0xffff { for t in [format!("\\u{cp:04x}"), format!("\\u{cp:04X}")] { v.push((t.clone(), enc.clone())); v.push((format!("{t}0"), enc.clone().map(|mut e| { e.push(b'0'); e }))) } }
        v.push((format!("\\U{cp:08x}"), enc.clone())); v.push((format!("\\U{cp:08X}0"), enc.map(|mut e| { e.push(b'0'); e })));
    }
    for bad in ["\\x", "\\xg", "\\X ", "\\u123", "\\u12g4", "\\U1234567", "\\U0000000g", "\\8", "\\9", "\\ ", "\\\n", "\\c", "\\é", "a\nb", "\\"] { v.push((bad.into(), None)) }
    let mut r = Rng::new(c.seed ^ 99);
    for _ in 0..1500 { 
        let mut t = String::new(); let mut b = vec![];
        for _ in 0..r.range(1, 4) { let (x, y) = random_literal(&mut r, false); if !x.starts_with('"') { continue } t.push_str(&x[1..x.len() - 1]); t.push(' '); b.extend(y); b.push(b' ') }
        v.push((t, Some(b)))
    }
    v
}
fn c07(c: &mut Ctx) {
    for (t, want) in str_cases(c) {
        let s = format!("option a = \"{t}\";");
        match &want {
            Some(w) => if let Some(f) = c.expect_ok(&s, "valid string") { c.eq(&s, "bytes", &f.options.unwrap().uninterpreted_option[0].string_value, &Some(w.clone())) },
            None => c.expect_err(&s, "invalid string"),
        }
        if let Some(w) = &want {
            let s = format!("option a = \"{t}\" 'x\\x41' /* c */ \"{t}\";");
            let cat = [&w[..], b"xA", &w[..]].concat();
            if let Some(f) = c.expect_ok(&s, "valid strings") { c.eq(&s, "bytes", &f.options.unwrap().uninterpreted_option[0].string_value, &Some(cat)) }
            let s = format!("message M {{ optional string a = 1 [default = \"{t}\", json_name = \"{t}\"]; }}");
            match String::from_utf8(w.clone()) {
                Ok(u) => if let Some(f) = c.expect_ok(&s, "valid utf-8 string") { let fl = &f.message_type[0].field[0]; c.eq(&s, "strings", &(fl.default_value.clone(), fl.json_name.clone()), &(Some(u.clone()), Some(u))) },
                Err(_) => c.expect_err(&s, "string that is not utf-8"),
            }
        } else {
            c.expect_err(&format!("option a = 'x' \"{t}\" 'y';"), "invalid string in a concatenation");
            c.expect_err(&format!("import \"{t}\";"), "invalid string");
        }
        if !c.viols.is_empty() { return }
    }
    for t in ["\"abc", "'abc", "\"abc'", "'abc\"", "\"\\\"", "'", "\"", "\"a\" \"b", "'a\\'"] { c.expect_err(&format!("option a = {t};"), "unterminated"); c.expect_err(&format!("option a = {t}"), "unterminated") }
    for (t, w) in [("'\"'", "\""), ("\"'\"", "'"), ("'a' \"b\" 'c'", "abc"), ("''", ""), ("'' ''", ""), ("'//' /* 'z' */ \"/*\"", "///*"), ("'a'\n\n// c\n'b'", "ab")] { let s = format!("option a = {t};"); if let Some(f) = c.expect_ok(&s, "") { c.eq(&s, "bytes", &f.options.unwrap().uninterpreted_option[0].string_value, &Some(w.as_bytes().to_vec())) } }
}
fn c08(c: &mut Ctx) {
    let one = |c: &mut Ctx, b: &[u8]| {
        let lit: String = b.iter().map(|x| format!("\\x{x:02x}")).collect();
        let s = format!("message M {{ optional bytes a = 1 [default = \"{lit}\"]; }}");
        if let Some(f) = c.expect_ok(&s, "bytes default") {
            let d = f.message_type[0].field[0].default_value.clone().unwrap_or_default();
            if !d.bytes().all(|x| (0x20..0x7f).contains(&x)) { c.fail(&s, format!("{d:?} is not printable ASCII")) }
            if c_unescape(&d).as_deref() != Some(b) { c.fail(&s, format!("{d:?} does not unescape to {b:?}")) }
            // and the parser itself reads it back
            let s2 = format!("message M {{ optional bytes a = 1 [default = \"{d}\"]; }}");
            if let Some(g) = c.expect_ok(&s2, "escaped text as a literal") { c.eq(&s2, "round trip", &g.message_type[0].field[0].default_value, &Some(d)) }
        }
    };
    for a in 0..=255u8 { one(c, &[a]); for b in [b'0', b'7', b'8', b'n', b'a', b'\\', b'"', b'\'', 0, 255, b'x', a] { one(c, &[a, b]) } if !c.viols.is_empty() { return } }
    let mut r = Rng::new(c.seed);
    for _ in 0..1500 { let n = r.below(20); let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect(); one(c, &b); if !c.viols.is_empty() { return } }
}

fn c12(c: &mut Ctx) {
    for syn in ["", "syntax = 'proto2'; ", "syntax = 'proto3'; "] {
        let p3 = syn.contains('3');
        for scope in ["message", "oneof", "extend", "nested extend", "nested message", "oneof in group"] {
            if p3 && scope == "oneof in group" { continue }
            for label in ["", "optional", "required", "repeated"] {
                for kind in ["int32 f = 1;", "string f = 1;", ".a.B f = 1;", "Foo f = 1;", "group G = 1 { }", "map<int32, string> f = 1;", "map<string, Foo> f = 1 [deprecated = true];", "bytes f = 1 [packed = true];"] {
                    let decl = format!("{label} {kind}");
                    let s = syn.to_owned() + &match scope {
                        "message" => format!("message M {{ {decl} }}"), "oneof" => format!("message M {{ oneof o {{ {decl} }} }}"),
                        "extend" => format!("extend M {{ {decl} }}"), "nested extend" => format!("message N {{ extend M {{ {decl} }} }}"),
                        "nested message" => format!("message N {{ message M {{ {decl} }} }}"), _ => format!("message N {{ optional group X = 5 {{ oneof o {{ {decl} }} }} }}"),
                    };
                    let (map, group) = (kind.starts_with("map"), kind.starts_with("group"));
                    let in_oneof = scope.starts_with("oneof"); let in_ext = scope.contains("extend");
                    let ok = if map { !in_oneof && !in_ext && label.is_empty() } else {
                        !(group && p3) && !(in_oneof && !label.is_empty()) && !(label == "required" && (p3 || in_ext)) && !(label.is_empty() && !p3 && !in_oneof)
                    };
                    if ok { if let Some(f) = c.expect_ok(&s, "legal label") {
                        let fl = match scope { "message" | "oneof" => &f.message_type[0].field[0], "extend" => &f.extension[0], "nested extend" => &f.message_type[0].extension[0], _ => &f.message_type[0].nested_type[0].field[0] };
                        let want = if map { Label::Repeated } else { match label { "required" => Label::Required, "repeated" => Label::Repeated, _ => Label::Optional } };
                        c.eq(&s, "label", &fl.label, &Some(want as i32));
                    } } else { c.expect_err(&s, "illegal label") }
                    if !c.viols.is_empty() { return }
                }
            }
        }
        c.expect_err(&format!("{syn}message M {{ optional optional int32 a = 1; }}"), "two labels");
        c.expect_err(&format!("{syn}message M {{ repeated optional int32 a = 1; }}"), "two labels");
    }
}

fn c13(c: &mut Ctx) {
    // every sequence of up to five items: plain, optional, oneof of 1..2 fields, group/nested
    let items = ["P", "O", "U", "A", "B", "N"];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = seqs.clone();
    for _ in 0..4 { let mut nx = vec![]; for s in &layer { for k in 0..items.len() { let mut t = s.clone(); t.push(k); nx.push(t) } } seqs.extend(nx.iter().cloned()); layer = nx; }
    for p3 in [true, false] { for seq in &seqs {
        let mut s = String::from(if p3 { "syntax = 'proto3'; message M {" } else { "message M {" });
        let (mut n, mut real, mut fields, mut synth) = (0, 0, vec![], vec![]);
        let mut reals = vec![];
        for &k in seq {
            match items[k] {
                "P" => { n += 1; s.push_str(&format!(" {} int32 f{n} = {n};", if p3 { "" } else { "required" })); fields.push((None, None)) }
                "O" => { n += 1; s.push_str(&format!(" optional Foo f{n} = {n};")); if p3 { fields.push((Some(1000 + synth.len()), Some(true))); synth.push(format!("_f{n}")) } else { fields.push((None, None)) } }
                "U" => { n += 1; s.push_str(&format!(" optional int32 _f{n} = {n};")); if p3 { fields.push((Some(1000 + synth.len()), Some(true))); synth.push(format!("X_f{n}")) } else { fields.push((None, None)) } }
                "A" => { n += 1; s.push_str(&format!(" oneof o{real} {{ int32 f{n} = {n}; }}")); fields.push((Some(real), None)); reals.push(format!("o{real}")); real += 1 }
                "B" => { n += 2; s.push_str(&format!(" oneof o{real} {{ Foo f{} = {}; option x = 1; ; string f{n} = {n}; }}", n - 1, n - 1)); fields.push((Some(real), None)); fields.push((Some(real), None)); reals.push(format!("o{real}")); real += 1 }
                _ => { n += 1; s.push_str(&format!(" repeated int32 f{n} = {n}; message I{n} {{ oneof q {{ int32 a = 1; }} }} enum E{n} {{ Z = 0; }}")); fields.push((None, None)) }
            }
        }
        s.push_str(" }");
        if let Some(f) = c.expect_ok(&s, "") {
            let m = &f.message_type[0];
            let got: Vec<_> = m.field.iter().map(|f| (f.oneof_index, f.proto3_optional)).collect();
            let want: Vec<_> = fields.iter().map(|(o, p)| (o.map(|o| if o >= 1000 { (o - 1000 + real) as i32 } else { o as i32 }), *p)).collect();
            c.eq(&s, "oneof indexes", &got, &want);
            let gn: Vec<_> = m.oneof_decl.iter().map(|o| o.name().to_owned()).collect();
            c.eq(&s, "oneofs", &gn, &[reals.clone(), synth.clone()].concat());
        }
        if !c.viols.is_empty() { return }
    } }
    for nm in ["a", "_", "_a", "__", "X", "X_a", "Xa", "_X", "oneof", "optional"] {
        let s = format!("syntax = 'proto3'; message M {{ optional int32 {nm} = 1; }}");
        if let Some(f) = c.expect_ok(&s, "") { let o = f.message_type[0].oneof_decl[0].name().to_owned(); c.eq(&s, "synthetic name", &o, &if nm.starts_with('_') { format!("X{nm}") } else { format!("_{nm}") }); }
    }
    // extensions have no oneof
    let s = "syntax = 'proto3'; extend Foo { optional int32 a = 1; int32 b = 2; } message M { extend Foo { optional int32 c = 3; } }";
    if let Some(f) = c.expect_ok(s, "") { let g: Vec<_> = f.extension.iter().chain(&f.message_type[0].extension).map(|e| (e.oneof_index, e.proto3_optional)).collect(); c.eq(s, "extensions", &g, &vec![(None, Some(true)), (None, None), (None, Some(true))]); c.eq(s, "oneofs", &f.message_type[0].oneof_decl.len(), &0) }
}

fn c14(c: &mut Ctx) {
    for (k, kt) in SCALARS { for (v, vt) in SCALARS.iter().copied().map(|(a, b)| (a, Some(b))).chain([("Foo", None), (".a.b.C", None), ("a.B", None)]) {
        for syn in ["", "syntax = 'proto3'; "] {
            let s = format!("{syn}message M {{ message A {{}} map<{k}, {v}> my_field_1x = 5; message B {{}} }}");
            if matches!(kt, Type::Double | Type::Float | Type::Bytes) { c.expect_err(&s, "illegal key type"); continue }
            let Some(f) = c.expect_ok(&s, "legal map") else { continue };
            let m = &f.message_type[0];
            let fl = &m.field[0];
            c.eq(&s, "field", &(fl.name(), fl.label, fl.r#type, fl.type_name.as_deref(), fl.number), &("my_field_1x", Some(3), Some(Type::Message as i32), Some("MyField1xEntry"), Some(5)));
            c.eq(&s, "nested", &m.nested_type.iter().map(|x| x.name().to_owned()).collect::<Vec<_>>(), &vec!["A".to_owned(), "MyField1xEntry".into(), "B".into()]);
            let e = &m.nested_type[1];
            let kv = |n: &str, num, t: Option<Type>, tn: Option<&str>| FieldDescriptorProto { name: Some(n.into()), json_name: Some(n.into()), label: Some(1), number: Some(num), r#type: t.map(|t| t as i32), type_name: tn.map(|t| t.into()), ..Default::default() };
            let want = DescriptorProto { name: Some("MyField1xEntry".into()), field: vec![kv("key", 1, Some(kt), None), kv("value", 2, vt, if vt.is_none() { Some(v) } else { None })], options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }), ..Default::default() };
            c.eq(&s, "entry", e, &want);
        }
        if !c.viols.is_empty() { return }
    } }
    for k in ["Foo", ".Foo", "a.b", "map<int32,int32>", "group", "-"] { c.expect_err(&format!("message M {{ map<{k}, int32> a = 1; }}"), "illegal key type") }
    for v in ["map<int32,int32>", "", "int32 int32", "5"] { c.expect_err(&format!("message M {{ map<int32, {v}> a = 1; }}"), "illegal value type") }
    for g in ["G", "Foo", "FooBar", "A_b", "X9", "ABC"] {
        for lab in ["optional", "required", "repeated"] {
            let s = format!("message M {{ message A {{}} {lab} group {g} = 3 [deprecated = true] {{ optional int32 x = 1; message In {{}} reserved 5; }} map<int32,int32> z = 9; }}");
            if let Some(f) = c.expect_ok(&s, "group") {
                let m = &f.message_type[0]; let fl = &m.field[0];
                c.eq(&s, "field", &(fl.name().to_owned(), fl.r#type, fl.type_name.clone(), fl.number), &(g.to_ascii_lowercase(), Some(Type::Group as i32), Some(g.to_owned()), Some(3)));
                c.eq(&s, "nested", &m.nested_type.iter().map(|x| x.name().to_owned()).collect::<Vec<_>>(), &vec!["A".to_owned(), g.into(), "ZEntry".into()]);
                let b = &m.nested_type[1];
                c.eq(&s, "body", &(b.field.len(), b.field.first().map(|f| f.name().to_owned()), b.nested_type.len(), b.reserved_range.len()), &(1, Some("x".to_owned()), 1, 1));
            }
        }
        for (s, at) in [(format!("extend M {{ optional group {g} = 3 {{ }} }}"), 0), (format!("message N {{ extend M {{ optional group {g} = 3 {{ }} }} }}"), 1), (format!("message N {{ oneof o {{ group {g} = 3 {{ }} }} }}"), 2)] {
            if let Some(f) = c.expect_ok(&s, "group") { 
                let (fl, ns) = match at { 0 => (&f.extension[0], &f.message_type), 1 => (&f.message_type[0].extension[0], &f.message_type[0].nested_type), _ => (&f.message_type[0].field[0], &f.message_type[0].nested_type) };
                c.eq(&s, "group", &(fl.name().to_owned(), fl.type_name.clone(), ns.iter().map(|x| x.name().to_owned()).collect::<Vec<_>>()), &(g.to_ascii_lowercase(), Some(g.to_owned()), vec![g.to_owned()]));
            }
        }
    }
    pascals(c);
}
fn pascals(c: &mut Ctx) {
    let al = ['a', 'Z', '_', '1', 'q'];
    let mut layer: Vec<String> = vec![String::new()]; let mut all = vec![];
    for _ in 0..4 { let mut nx = vec![]; for s in &layer { for ch in al { let mut t = s.clone(); t.push(ch); nx.push(t) } } all.extend(nx.iter().cloned()); layer = nx }
    all.extend(["foo_bar_baz", "fooBar", "FOO_BAR", "a1_b2", "__init__", "x__y", "aBC_dEF"].map(String::from));
    for n in all {
        if n.starts_with('1') { continue }
        let s = format!("message M {{ map<int32, int32> {n} = 1; }}");
        if let Some(f) = c.expect_ok(&s, "") { c.eq(&s, "entry name", &f.message_type[0].nested_type[0].name().to_owned(), &(pascal(&n) + "Entry")); c.eq(&s, "type name", &f.message_type[0].field[0].type_name().to_owned(), &(pascal(&n) + "Entry")) }
        if !c.viols.is_empty() { return }
    }
}

fn c15(c: &mut Ctx) {
    let al = ['a', '.', '/', '\\', 'é'];
    let mut layer: Vec<String> = vec![String::new()]; let mut all = vec![String::new()];
    for _ in 0..5 { let mut nx = vec![]; for s in &layer { for ch in al { let mut t = s.clone(); t.push(ch); nx.push(t) } } all.extend(nx.iter().cloned()); layer = nx }
    all.extend(["google/protobuf/any.proto", "a b/c", "C:/a", "/etc/passwd", "a/../b", "..", "a/b/..", "./a", "a/./b", "a//b", "a/", "..a/b..", "...", "a/.../b", "\u{1}", "~", "a\\..\\b"].map(String::from));
    for p in &all {
        let ok = !p.contains('\\') && p.split('/').all(|x| !x.is_empty() && x != "." && x != "..");
        let s = format!("import \"{}\";", p.replace('\\', "\\\\"));
        if ok { if let Some(f) = c.expect_ok(&s, "safe import") { c.eq(&s, "dependency", &f.dependency, &vec![p.clone()]) } } else { c.expect_err(&s, "unsafe import") }
        if !c.viols.is_empty() { return }
    }
    // all sequences of up to 6 imports
    for n in 0..=6u32 { for code in 0..3u32.pow(n) {
        let mut s = String::new(); let (mut d, mut pu, mut we) = (vec![], vec![], vec![]); let mut k = code;
        for i in 0..n { let w = ["", "public ", "weak "][(k % 3) as usize]; s.push_str(&format!("import {w}\"f{}.proto\"; ", (i * 7) % 4)); d.push(format!("f{}.proto", (i * 7) % 4)); if k % 3 == 1 { pu.push(i as i32) } if k % 3 == 2 { we.push(i as i32) } k /= 3; if i % 2 == 0 { s.push_str("option o = 1; ") } }
        if let Some(f) = c.expect_ok(&s, "imports") { c.eq(&s, "imports", &(f.dependency.clone(), f.public_dependency.clone(), f.weak_dependency.clone()), &(d, pu, we)) }
        if !c.viols.is_empty() { return }
    } }
    for t in ["import a;", "import public weak 'a';", "import 'a' 'b', 'c';", "import;", "import public;", "import 'a'", "import \"\\377\";", "import {};", "import 5;"] { c.expect_err(t, "malformed import") }
}

fn c16(c: &mut Ctx) {
    // every gap of up to five items at each of five places
    let kinds = 4;
    let mut gaps: Vec<Vec<usize>> = vec![vec![]]; let mut layer = gaps.clone();
    for _ in 0..5 { let mut nx = vec![]; for s in &layer { for k in 0..kinds { let mut t = s.clone(); t.push(k); nx.push(t) } } gaps.extend(nx.iter().cloned()); layer = nx }
    let mut r = Rng::new(c.seed);
    for g in &gaps { for place in 0..6 {
        let (mut src, mut exp): (String, Vec<(Vec<i32>, Com)>) = (String::new(), vec![]);
        let els: [(&str, Option<Vec<i32>>, bool); 6] = [("message A {", Some(vec![4, 0]), false), (" int32 x = 1;", Some(vec![4, 0, 2, 0]), false), (" enum E { Z = 0;", None, false), ("}", None, true), (" int32 y = 2; }", None, false), ("", None, true)];
        let _ = els;
        // layout: G0 `message A {` G1 `optional int32 x = 1;` G2 `oneof o {` G3 `int32 y = 2;` G4 `} }` G5 `service S { }` (eof)
        let toks: [(&str, Vec<i32>, bool); 6] = [("message A {", vec![4, 0], false), ("optional int32 x = 1;", vec![4, 0, 2, 0], false), ("oneof o {", vec![4, 0, 8, 0], false), ("int32 y = 2;", vec![4, 0, 2, 1], false), ("} }", vec![], true), ("service S { }", vec![6, 0], false)];
        let mut pending: Option<usize> = None;
        for (i, (t, path, closes)) in toks.iter().enumerate() {
            let gap: Vec<usize> = if i == place { g.clone() } else { (0..r.below(3)).map(|_| r.below(kinds)).collect() };
            let mut items = vec![];
            for (j, k) in gap.iter().enumerate() {
                match k {
                    0 => { src.push('\n'); items.push(It::Nl) }
                    1 => { src.push_str(&format!("// l{i}{j}\n")); items.push(It::Line(format!(" l{i}{j}\n"))) }
                    2 => { src.push_str(&format!("/* b{i}{j} */")); items.push(It::Block(format!(" b{i}{j} "))) }
                    _ => { src.push_str(&format!("/* b{i}{j}\n  * c\n\n d*/")); items.push(It::Block(format!(" b{i}{j}\n c\n\nd"))) }
                }
            }
            let (tr, det, lead) = attach(i == 0, &items, *closes);
            if let (Some(p), Some(x)) = (pending.take(), tr) { exp[p].1.trailing = Some(x) }
            if !path.is_empty() { exp.push((path.clone(), Com { leading: lead, trailing: None, detached: det })); if *t != "service S { }" { pending = Some(exp.len() - 1) } }
            src.push_str(t);
        }
        let Some(f) = c.expect_ok(&src, "comments") else { return };
        let mut want: Vec<(Vec<i32>, Com)> = exp.into_iter().filter(|e| e.1 != Com::default()).collect();
        let mut got: Vec<(Vec<i32>, Com)> = f.source_code_info.unwrap().location.into_iter().map(|l| (l.path, Com { leading: l.leading_comments, trailing: l.trailing_comments, detached: l.leading_detached_comments })).filter(|e| e.1 != Com::default()).collect();
        want.sort_by(|a, b| a.0.cmp(&b.0)); got.sort_by(|a, b| a.0.cmp(&b.0));
        c.eq(&src, "comments", &got, &want);
        if !c.viols.is_empty() { return }
    } }
}

fn c17(c: &mut Ctx) {
    let np = |s: &str, e: bool| uninterpreted_option::NamePart { name_part: s.into(), is_extension: e };
    let names: Vec<(&str, Vec<uninterpreted_option::NamePart>)> = vec![("a", vec![np("a", false)]), ("a.b.c", vec![np("a", false), np("b", false), np("c", false)]), ("(a)", vec![np("a", true)]), ("(.a.b)", vec![np(".a.b", true)]), ("( a . b )", vec![np("a.b", true)]), ("(a.b).c.(d)", vec![np("a.b", true), np("c", false), np("d", true)]), ("a . ( b ) . c", vec![np("a", false), np("b", true), np("c", false)]), ("option", vec![np("option", false)]), ("default.x", vec![np("default", false), np("x", false)]), ("(default)", vec![np("default", true)]), ("(json_name)", vec![np("json_name", true)])];
    let u = UninterpretedOption::default();
    let vals: Vec<(&str, Option<UninterpretedOption>)> = vec![
        ("foo", Some(UninterpretedOption { identifier_value: Some("foo".into()), ..u.clone() })), ("true", Some(UninterpretedOption { identifier_value: Some("true".into()), ..u.clone() })), ("inf", Some(UninterpretedOption { identifier_value: Some("inf".into()), ..u.clone() })),
        ("0", Some(UninterpretedOption { positive_int_value: Some(0), ..u.clone() })), ("-0", Some(UninterpretedOption { negative_int_value: Some(0), ..u.clone() })), ("18446744073709551615", Some(UninterpretedOption { positive_int_value: Some(u64::MAX), ..u.clone() })), ("0x10", Some(UninterpretedOption { positive_int_value: Some(16), ..u.clone() })),
        ("-1", Some(UninterpretedOption { negative_int_value: Some(-1), ..u.clone() })), ("- 9223372036854775808", Some(UninterpretedOption { negative_int_value: Some(i64::MIN), ..u.clone() })), ("-9223372036854775807", Some(UninterpretedOption { negative_int_value: Some(i64::MIN + 1), ..u.clone() })), ("-9223372036854775809", None), ("-18446744073709551615", None), ("-foo", None), ("-inf", None), ("-nan", None), ("--1", None), ("-'a'", None), ("+1", None), ("-{}", None),
        ("1.5", Some(UninterpretedOption { double_value: Some(1.5), ..u.clone() })), ("-1.5", Some(UninterpretedOption { double_value: Some(-1.5), ..u.clone() })), ("1e3", Some(UninterpretedOption { double_value: Some(1000.0), ..u.clone() })), (".25", Some(UninterpretedOption { double_value: Some(0.25), ..u.clone() })),
        ("''", Some(UninterpretedOption { string_value: Some(vec![]), ..u.clone() })), ("'a' 'b\\xff'", Some(UninterpretedOption { string_value: Some(b"ab\xff".to_vec()), ..u.clone() })), ("{}", Some(UninterpretedOption { aggregate_value: Some("".into()), ..u.clone() })), ("{ a: 1 }", Some(UninterpretedOption { aggregate_value: Some("a : 1".into()), ..u.clone() })),
    ];
    let places: [(&str, fn(&FileDescriptorProto) -> Vec<UninterpretedOption>); 12] = [
        ("@S", |f| f.options.clone().unwrap_or_default().uninterpreted_option),
        ("message M { @S }", |f| f.message_type[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("enum E { @S A = 0; }", |f| f.enum_type[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("enum E { A = 0 [@L]; }", |f| f.enum_type[0].value[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("service S { @S }", |f| f.service[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("service S { rpc A(B) returns (C) { @S } }", |f| f.service[0].method[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("message M { oneof o { @S int32 a = 1; } }", |f| f.message_type[0].oneof_decl[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("message M { optional int32 a = 1 [@L]; }", |f| f.message_type[0].field[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("message M { map<int32, Foo> a = 1 [@L]; }", |f| f.message_type[0].field[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("message M { repeated group A = 1 [@L] { @S } }", |f| f.message_type[0].field[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("extend M { optional Foo a = 1 [@L]; }", |f| f.extension[0].options.clone().unwrap_or_default().uninterpreted_option),
        ("message M { extensions 5 [@L]; extensions 7 to max [@L]; }", |f| f.message_type[0].extension_range[1].options.clone().unwrap_or_default().uninterpreted_option),
    ];
    for (tpl, get) in &places { for (nt, nv) in &names { for (vt, vv) in &vals {
        let s = tpl.replace("@S", &format!("option {nt} = {vt}; option zz = 2;")).replace("@L", &format!("{nt} = {vt}, zz = 2"));
        match vv {
            Some(v) => if let Some(f) = c.expect_ok(&s, "option") { let w = vec![UninterpretedOption { name: nv.clone(), ..v.clone() }, UninterpretedOption { name: vec![np("zz", false)], positive_int_value: Some(2), ..u.clone() }]; c.eq(&s, "options", &get(&f), &w) },
            None => c.expect_err(&s, "option value not representable"),
        }
        if !c.viols.is_empty() { return }
    } } }
    for bad in ["option = 1;", "option a 1;", "option a = ;", "option a = 1", "option () = 1;", "option (a = 1;", "option a. = 1;", "option .a = 1;", "option a..b = 1;", "option a = {;", "option a = };", "option a = [1];", "option a = 1 2;", "option a = b.c;"] { c.expect_err(bad, "malformed option") }
    // default and json_name are the only ones taken out
    let s = "message M { optional int32 a = 1 [x = 1, default = 5, y = 2, json_name = 'J', z = 3]; optional int32 b = 2 [json_name = 'K', default = 1]; repeated int32 d = 3 [json_name = 'L', json_name = 'M']; }";
    if let Some(f) = c.expect_ok(s, "") {
        let m = &f.message_type[0];
        let o = |i: usize| m.field[i].options.clone().map(|o| o.uninterpreted_option.iter().map(|x| x.name[0].name_part.clone()).collect::<Vec<_>>());
        c.eq(s, "a", &(o(0), m.field[0].default_value.clone(), m.field[0].json_name.clone()), &(Some(vec!["x".to_owned(), "y".into(), "z".into()]), Some("5".to_owned()), Some("J".to_owned())));
        c.eq(s, "b", &(o(1), m.field[1].default_value.clone(), m.field[1].json_name.clone()), &(None, Some("1".to_owned()), Some("K".to_owned())));
    }
    for s in ["enum E { A = 0 [default = 1, json_name = 'x']; }", "option default = 1; option json_name = 'x';", "message M { option default = 1; option json_name = 'x'; extensions 5 [default = 1, json_name = 'x']; }"] {
        if let Some(f) = c.expect_ok(s, "default as an ordinary option") { let n: usize = f.options.iter().map(|o| o.uninterpreted_option.len()).sum::<usize>() + f.enum_type.iter().flat_map(|e| &e.value).filter_map(|v| v.options.as_ref()).map(|o| o.uninterpreted_option.len()).sum::<usize>() + f.message_type.iter().filter_map(|m| m.options.as_ref()).map(|o| o.uninterpreted_option.len()).sum::<usize>(); c.eq(s, "count", &n, &2) }
    }
    for t in ["1", "foo", "-1", "1.5", "{}", "'\\377'", "true"] { c.expect_err(&format!("message M {{ optional int32 a = 1 [json_name = {t}]; }}"), "json_name is not a utf-8 string") }
}

fn c19(c: &mut Ctx) {
    for (t, w) in [("", Some(None)), ("syntax = 'proto2';", Some(None)), ("syntax = \"proto3\";", Some(Some("proto3"))), ("syntax='pro' \"to3\";", Some(Some("proto3"))), ("// c\n\n/* d */ syntax /* x */ = // y\n 'proto3' ;", Some(Some("proto3"))), ("syntax = '\\x70roto3';", Some(Some("proto3"))), ("syntax = 'proto4';", None), ("syntax = 'proto';", None), ("syntax = '';", None), ("syntax = 'Proto3';", None), ("syntax = 'proto3 ';", None), ("syntax = ' proto3';", None), ("syntax = 'proto33';", None), ("syntax = proto3;", None), ("syntax 'proto3';", None), ("syntax = 'proto3'", None), ("syntax = 3;", None), ("; syntax = 'proto3';", None), ("package a; syntax = 'proto3';", None), ("syntax = 'proto3'; syntax = 'proto3';", None), ("syntax = 'proto2'; syntax = 'proto3';", None), ("edition = '2023';", None), ("syntax = 'editions';", None), ("message A {} syntax = 'proto3';", None), ("syntax = 'proto3\\000';", None), ("syntax = 'proto2' 'proto3';", None)] {
        for rest in ["", "message M { }", " package p; ", "\n// x\n", "enum E { A = 0; }"] {
            if t.contains("package") && rest.contains("package") { continue }
            let s = format!("{t} {rest}");
            match w { Some(w) => if let Some(f) = c.expect_ok(&s, "syntax") { c.eq(&s, "syntax", &f.syntax.as_deref(), &w) }, None => c.expect_err(&s, "bad syntax statement") }
        }
    }
    for (t, w) in [("package a;", Some("a")), ("package a.b.c;", Some("a.b.c")), ("package a . b /* x */ . c ;", Some("a.b.c")), ("package package;", Some("package")), ("package _a.B9.message;", Some("_a.B9.message")), ("package .a;", None), ("package a.;", None), ("package a..b;", None), ("package;", None), ("package 'a';", None), ("package a b;", None), ("package 5;", None), ("package a.5;", None), ("package a", None), ("package a; package b;", None), ("package a; package a;", None), ("package a; message M {} package b;", None)] {
        for pre in ["", "syntax = 'proto3'; ", "import 'x'; option o = 1; ", "message Z { } "] {
            let s = format!("{pre}{t}");
            match w { Some(w) => if let Some(f) = c.expect_ok(&s, "package") { c.eq(&s, "package", &f.package.as_deref(), &Some(w)) }, None => c.expect_err(&s, "bad package statement") }
        }
    }
    for s in ["", ";", "// c", "message M { }", "syntax = 'proto3';"] { if let Some(f) = c.expect_ok(s, "") { c.eq(s, "package", &f.package, &None) } }
}

fn c20(c: &mut Ctx) {
    let al = ['a', 'Z', 'z', '_', '0', '9', '-', '.', ' ', 'é', '@', '[', '`', '{', '/', ':', 'K'];
    let mut layer: Vec<String> = vec![String::new()]; let mut all = vec![String::new()];
    for _ in 0..3 { let mut nx = vec![]; for s in &layer { for ch in al { let mut t = s.clone(); t.push(ch); nx.push(t) } } all.extend(nx.iter().cloned()); layer = nx }
    for b in 1..128u8 { if b != b'"' && b != b'\\' && b != b'\n' { all.push((b as char).to_string()); all.push(format!("a{}", b as char)); all.push(format!("ab{}c", b as char)) } }
    for n in &all {
        let ok = !n.is_empty() && n.chars().enumerate().all(|(i, ch)| ch.is_ascii_alphabetic() || ch == '_' || (i > 0 && ch.is_ascii_digit()));
        for (s, m) in [(format!("message M {{ reserved \"{n}\"; }}"), true), (format!("enum E {{ reserved 'ok', \"{n}\"; }}"), false)] {
            if ok { if let Some(f) = c.expect_ok(&s, "reserved name is an identifier") { let g = if m { f.message_type[0].reserved_name.clone() } else { f.enum_type[0].reserved_name.clone() }; c.eq(&s, "names", &g.last(), &Some(n)) } } else { c.expect_err(&s, "reserved name is not an identifier") }
        }
        let ident = ok;
        if ident {
            let s = format!("message M {{ optional group {n} = 1 {{ }} }}");
            if n.starts_with(|x: char| x.is_ascii_uppercase()) { if let Some(f) = c.expect_ok(&s, "group name") { c.eq(&s, "name", &f.message_type[0].nested_type[0].name(), &n.as_str()) } } else { c.expect_err(&s, "group name without capital") }
        }
        if !c.viols.is_empty() { return }
    }
    c.expect_err("message M { reserved '\\377'; }", "not utf-8"); c.expect_err("message M { reserved foo; }", "not a string");
    for s in ["message M { reserved 'a' 'b'; }"] { if let Some(f) = c.expect_ok(s, "concatenated") { c.eq(s, "names", &f.message_type[0].reserved_name, &vec!["ab".to_owned()]) } }
    pascals(c);
}

fn c21(c: &mut Ctx) {
    let toks = ["a", "1", "-", "1.5", "'s'", "{", "}", "<", ">", "[", "]", ":", ",", ";", "/", ".", "(", ")", "=", "+", "1.5f", "2F", "# c }\n", "// c {\n", "/* } */"];
    let norm = |t: &str| match t { "'s'" => Some("\"s\"".to_owned()), "1.5f" => Some("1.5".into()), "2F" => Some("2.0".into()), x if x.starts_with('#') || x.starts_with('/') && x.len() > 1 => None, x => Some(x.to_owned()) };
    let mut r = Rng::new(c.seed);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..toks.len() { seqs.push(vec![a]); for b in 0..toks.len() { seqs.push(vec![a, b]); for _ in 0..4 { seqs.push(vec![a, b, r.below(toks.len()), r.below(toks.len())]) } } }
    for _ in 0..2000 { let n = r.range(3, 14); seqs.push((0..n).map(|_| r.below(toks.len())).collect()) }
    for q in &seqs {
        let (mut depth, mut ok, mut out, mut txt) = (0i32, true, vec![], String::new());
        for &k in q { let t = toks[k]; if t == "{" { depth += 1 } if t == "}" { depth -= 1; if depth < 0 { ok = false } } txt.push_str(t); txt.push(' '); if let Some(n) = norm(t) { out.push(n) } }
        if depth != 0 { ok = false }
        if !ok { continue }
        for (pre, post) in [("option a = {", "}; message M { }"), ("message M { optional int32 f = 1 [x = {", "}, y = 2]; }"), ("option a = { ", " }; option b = {};"), ("enum E { A = 0 [(x) = { ", "}]; }")] {
            let s = format!("{pre}{txt}{post}");
            if let Some(f) = c.expect_ok(&s, "balanced aggregate") {
                let o = f.options.iter().flat_map(|o| &o.uninterpreted_option).chain(f.message_type.iter().flat_map(|m| &m.field).flat_map(|f| &f.options).flat_map(|o| &o.uninterpreted_option)).chain(f.enum_type.iter().flat_map(|e| &e.value).flat_map(|v| &v.options).flat_map(|o| &o.uninterpreted_option)).next().cloned().unwrap_or_default();
                c.eq(&s, "aggregate", &o.aggregate_value, &Some(out.join(" ")));
            }
            // text-format-only syntax after the aggregate is an error
            if q.len() < 3 { for bad in ["# c\n", "option z = 1.5f;", "option z = 1f;"] { if post.ends_with("; }") || post.ends_with("]; }") { continue } c.expect_err(&format!("{pre}{txt}{post} {bad}"), "text format syntax after an aggregate") } }
        }
        if !c.viols.is_empty() { return }
    }
    for s in ["option a = {", "option a = { {}", "option a = {}};", "option a = { } }", "option a = { a: 1", "option a = {{};", "# c\n", "option a = 1.5f;", "option a = 0f;", "option # c\n a = 1;", "message M { # c\n }", "option a = {} # c\n;", "option a = { 'x };", "message M { optional float a = 1 [default = 1.5f]; }", "message M { optional int32 f = 1 [x = {} # c\n]; }", "message M { optional int32 f = 1 [x = {a:1f}, y = 1f]; }"] { c.expect_err(s, "malformed aggregate or text format syntax outside") }
}
