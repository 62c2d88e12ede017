//! Random proto documents together with an independently computed expectation: the descriptor and every
//! source location (with comments) that parsing the text must give.
#[allow(unused_imports)]
use prost_types::{descriptor_proto, enum_descriptor_proto, uninterpreted_option, DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto, EnumValueOptions, ExtensionRangeOptions, FieldDescriptorProto, FieldOptions, FileDescriptorProto, FileOptions, MessageOptions, MethodDescriptorProto, MethodOptions, OneofDescriptorProto, OneofOptions, ServiceDescriptorProto, ServiceOptions, UninterpretedOption};
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::uninterpreted_option::NamePart;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s ^ 0x9E3779B97F4A7C15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Com { pub leading: Option<String>, pub trailing: Option<String>, pub detached: Vec<String> }

#[derive(Clone, Debug)]
pub struct Loc { pub path: Vec<i32>, pub s: usize, pub e: usize, pub com: Com }

/// One item of the text between two tokens.
#[derive(Clone, Debug)]
pub enum It { Nl, Line(String), Block(String) }

/// Which comment goes where: written from protoc's documented rules (CommentCollector), not from protox.
/// Returns (trailing of the previous element, detached, leading of the next element).
pub fn attach(at_start: bool, gap: &[It], next_closes: bool) -> (Option<String>, Vec<String>, Option<String>) {
    struct Col { buf: Option<String>, is_line: bool, can_prev: bool, trailing: Option<String>, detached: Vec<String> }
    impl Col {
        fn flush(&mut self) {
            if let Some(b) = self.buf.take() {
                if self.can_prev { self.trailing = Some(b); self.can_prev = false; } else { self.detached.push(b); }
            }
        }
        fn line(&mut self, s: &str) {
            if self.buf.is_some() && !self.is_line { self.flush(); }
            self.is_line = true;
            self.buf.get_or_insert_with(String::new).push_str(s);
        }
        fn block(&mut self, s: &str) { if self.buf.is_some() { self.flush(); } self.is_line = false; self.buf = Some(s.to_owned()); }
    }
    let mut c = Col { buf: None, is_line: false, can_prev: !at_start, trailing: None, detached: vec![] };
    let mut i = 0;
    if !at_start {
        match gap.first() {
            Some(It::Line(s)) => { c.line(s); c.flush(); i = 1; }
            Some(It::Block(s)) => {
                if let Some(It::Nl) = gap.get(1) { c.block(s); c.flush(); i = 2; }
                else { return (None, vec![], None); }
            }
            Some(It::Nl) => i = 1,
            None => return (None, vec![], None),
        }
    }
    while i < gap.len() {
        match &gap[i] {
            It::Line(s) => c.line(s),
            It::Block(s) => { c.block(s); if let Some(It::Nl) = gap.get(i + 1) { i += 1; } }
            It::Nl => { c.flush(); c.can_prev = false; }
        }
        i += 1;
    }
    if next_closes { c.flush(); }
    (c.trailing, c.detached, c.buf)
}

pub struct Em {
    pub src: String,
    pub rng: Rng,
    pub locs: Vec<Loc>,
    pub proto3: bool,
    pub comments: bool,
    pub style: u8,
    pending: Option<usize>,
    started: bool,
    n: usize,
    pub budget: usize,
    pub toks: Vec<usize>,
}

pub fn starts_word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' || c == '.' }

impl Em {
    pub fn new(seed: u64) -> Self {
        let mut rng = Rng::new(seed);
        let proto3 = rng.chance(50);
        let comments = rng.chance(60);
        let style = rng.below(4) as u8;
        let budget = rng.range(4, 60);
        Em { src: String::new(), rng, locs: vec![], proto3, comments, style, pending: None, started: false, n: 0, budget, toks: vec![] }
    }
    fn blank(&mut self) -> String {
        let n = self.rng.below(3);
        (0..n).map(|_| *self.rng.pick(&[' ', ' ', ' ', '\t', '\r', '\x0b', '\x0c'])).collect()
    }
    fn nl(&mut self) -> &'static str { if self.style == 3 { "\r\n" } else { "\n" } }
    /// separator inside a statement (its content has no effect on the result)
    fn sep(&mut self, need: bool) {
        let r = self.rng.below(20);
        let mut s = String::new();
        match self.style {
            0 => if need || r < 10 { s.push(' ') },
            _ => {
                if need || r < 12 { s.push(' ') }
                if r == 13 { s.push_str(self.nl()) }
                if r == 14 { s.push_str("\t\n\n ") }
                if self.comments && r == 15 { s.push_str(" // mid\n") }
                if self.comments && r == 16 { s.push_str(" /* mid */ ") }
                if self.comments && r == 17 { s.push_str("\n\n/* mid\n * é */\n// x\n\n") }
                if r == 18 { s.push_str("\x0b\x0c") }
            }
        }
        if need && s.is_empty() { s.push(' ') }
        self.src.push_str(&s);
    }
    fn raw(&mut self, t: &str) -> (usize, usize) {
        let s = self.src.len();
        self.toks.push(s);
        self.src.push_str(t);
        (s, self.src.len())
    }
    /// a token inside a statement
    pub fn tok(&mut self, t: &str) -> (usize, usize) {
        let need = match (self.src.chars().last(), t.chars().next()) {
            (Some(a), Some(b)) => starts_word(a) && starts_word(b) && !(a == '.' && (b.is_ascii_alphabetic() || b == '_')) && !((a.is_ascii_alphabetic() || a == '_') && b == '.')
                || (a == '/' && (b == '/' || b == '*')),
            _ => false,
        };
        // digits next to '.' would fuse into a float, "a.b" with a digit-ending identifier must not start with a digit
        let need = need || matches!((self.src.chars().last(), t.chars().next()), (Some(a), Some('.')) if a.is_ascii_digit() && !self.ends_ident());
        self.sep(need);
        self.raw(t)
    }
    fn ends_ident(&self) -> bool {
        let w: String = self.src.chars().rev().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
        w.chars().last().map_or(false, |c| !c.is_ascii_digit())
    }
    pub fn comment_text(&mut self, block: bool) -> String {
        let words = ["foo", "bar é", "x = 1;", " \"q\" ", "message A {}", "*", "a * b", "#", "//", "日本", "end.", ""];
        let mut s = String::new();
        for _ in 0..self.rng.below(4) {
            if self.rng.chance(60) { s.push(' ') }
            s.push_str(*self.rng.pick(&words));
            if block && self.rng.chance(30) {
                let nl = self.nl();
                s.push_str(nl);
                if self.rng.chance(30) { s.push_str(nl) }
                let b = self.blank(); s.push_str(&b);
                if self.rng.chance(50) { s.push('*') }
            }
        }
        if block { s = s.replace("*/", "* /").replace("/*", "/ *"); if s.ends_with('/') { s.push(' ') } if s.starts_with('/') { s.insert(0, ' ') } }
        s
    }
    /// text of a block comment: per protoc, later lines lose leading blanks and one '*'
    pub fn block_value(raw: &str) -> String {
        let norm = raw.to_owned();
        let mut out = String::new();
        for (i, line) in norm.split('\n').enumerate() {
            if i == 0 { out.push_str(line); continue; }
            out.push('\n');
            // the carriage return that belongs to the line end is not indentation, but an all-blank line has none left
            let l = line.trim_start_matches([' ', '\t', '\x0b', '\x0c', '\r']);
            let l = l.strip_prefix('*').unwrap_or(l);
            out.push_str(l);
        }
        out.replace("\r\n", "\n")
    }
    fn gap_items(&mut self) -> Vec<It> {
        let mut v = vec![];
        if !self.comments { for _ in 0..self.rng.below(3) { v.push(It::Nl) } return v; }
        for _ in 0..self.rng.below(6) {
            match self.rng.below(5) {
                0 | 1 => v.push(It::Nl),
                2 | 3 => { let t = self.comment_text(false); v.push(It::Line(t)) }
                _ => { let t = self.comment_text(true); v.push(It::Block(t)) }
            }
        }
        v
    }
    /// the gap before a statement-level token; returns the comments of the next declaration
    pub fn gap(&mut self, next_closes: bool) -> Com {
        let raw = self.gap_items();
        let eof = next_closes && self.n == usize::MAX;
        let mut vals = vec![];
        let cnt = raw.len();
        for (k, it) in raw.into_iter().enumerate() {
            let b = self.blank();
            self.src.push_str(&b);
            match it {
                It::Nl => { let nl = self.nl(); self.src.push_str(nl); vals.push(It::Nl) }
                It::Line(t) => {
                    self.src.push_str("//"); self.src.push_str(&t);
                    if eof && k + 1 == cnt && self.rng.chance(50) { vals.push(It::Line(t)) }
                    else { let nl = self.nl(); self.src.push_str(nl); vals.push(It::Line(format!("{t}\n"))) }
                }
                It::Block(t) => { self.src.push_str("/*"); self.src.push_str(&t); self.src.push_str("*/"); vals.push(It::Block(Self::block_value(&t))) }
            }
        }
        if !(eof && matches!(vals.last(), Some(It::Line(t)) if !t.ends_with('\n'))) { let b = self.blank(); self.src.push_str(&b); }
        let (tr, det, lead) = attach(!self.started, &vals, next_closes);
        if let Some(i) = self.pending.take() { if let Some(x) = tr { self.locs[i].com.trailing = Some(x) } }
        if !eof { self.started = true; }
        Com { leading: lead, trailing: None, detached: det }
    }
    pub fn loc(&mut self, path: &[i32], sp: (usize, usize)) -> usize { self.locs.push(Loc { path: path.to_vec(), s: sp.0, e: sp.1, com: Com::default() }); self.locs.len() - 1 }
    pub fn locc(&mut self, path: &[i32], sp: (usize, usize), com: Com) -> usize { let i = self.loc(path, sp); self.locs[i].com = com; i }

    pub fn ident(&mut self) -> String {
        self.n += 1;
        let base = *self.rng.pick(&["foo", "Bar", "a_b", "_x", "quz_1_2", "X9", "message", "enum", "optional", "to", "max", "stream", "string", "__", "fooBar", "a__b", "map", "group", "inf", "nan", "true", "default"]);
        if self.rng.chance(70) { format!("{base}{}", self.n) } else { base.to_owned() }
    }
    pub fn uident(&mut self) -> String { self.n += 1; let b = *self.rng.pick(&["Foo", "Bar", "A_b", "X9_", "Quz"]); format!("{b}{}", self.n) }
    fn type_first(&mut self) -> String {
        self.n += 1;
        let b = *self.rng.pick(&["Foo", "Bar", "pkg", "_T", "Type", "x"]);
        format!("{b}{}", self.rng.below(3))
    }
    /// dotted name; returns text as written without blanks, and span
    fn full_ident(&mut self, first: String) -> (String, (usize, usize)) {
        let (s, mut e) = self.tok(&first);
        let mut name = first;
        while self.rng.chance(30) {
            self.tok(".");
            let p = self.ident();
            e = self.tok(&p).1;
            name.push('.'); name.push_str(&p);
        }
        (name, (s, e))
    }
    fn type_name(&mut self) -> (String, (usize, usize)) {
        if self.rng.chance(25) {
            let d = self.tok(".");
            let f = if self.rng.chance(50) { self.ident() } else { self.type_first() };
            let (n, sp) = self.full_ident(f);
            (format!(".{n}"), (d.0, sp.1))
        } else { let f = self.type_first(); self.full_ident(f) }
    }
    pub fn int_text(&mut self, v: u64) -> String {
        match self.rng.below(5) {
            0 => format!("0x{v:x}"), 1 => format!("0X{v:X}"),
            2 if v != 0 => format!("0{v:o}"),
            3 if v < 8 => format!("0{v:o}"),
            _ => v.to_string(),
        }
    }
    pub fn any_u64(&mut self) -> u64 {
        let k = *self.rng.pick(&[0u64, 1, 7, 8, 9, 255, 1 << 29, 536870911, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX]);
        match self.rng.below(3) { 0 => k, 1 => self.rng.next() >> self.rng.below(64), _ => self.rng.next() % 1000 }
    }
    pub fn string_lit(&mut self, utf8: bool) -> (Vec<u8>, (usize, usize)) {
        let n = if self.rng.chance(25) { self.rng.range(2, 3) } else { 1 };
        let mut val = vec![]; let mut sp = (0, 0);
        for i in 0..n {
            let (t, v) = random_literal(&mut self.rng, utf8);
            let s = self.tok(&t);
            if i == 0 { sp = s } else { sp.1 = s.1 }
            val.extend(v);
        }
        (val, sp)
    }
    fn float_text(&mut self) -> (String, f64) {
        let t = match self.rng.below(7) {
            0 => format!("{}.{}", self.rng.below(100), self.rng.below(1000)),
            1 => format!(".{}", self.rng.below(1000)),
            2 => format!("{}.", self.rng.below(1000)),
            3 => format!("{}e{}", self.rng.below(100), self.rng.below(40)),
            4 => format!("{}.{}E-{}", self.rng.below(100), self.rng.below(100), self.rng.below(40)),
            5 => format!("0{}.5e+{}", self.rng.below(100), self.rng.below(300)),
            _ => "1.5".to_owned(),
        };
        let v = t.parse().unwrap();
        (t, v)
    }
    /// a constant of an option, filled into `o`; returns its span and a Const for default handling
    pub fn constant(&mut self, o: &mut UninterpretedOption) -> (usize, usize) {
        match self.rng.below(8) {
            0 => { let id = self.ident(); o.identifier_value = Some(id.clone()); self.tok(&id) }
            1 | 2 => { let v = self.any_u64(); o.positive_int_value = Some(v); let t = self.int_text(v); self.tok(&t) }
            3 => {
                let v = self.any_u64() % ((1 << 63) + 1);
                o.negative_int_value = Some((v as i64).wrapping_neg());
                let a = self.tok("-"); let t = self.int_text(v); let b = self.tok(&t); (a.0, b.1)
            }
            4 => {
                let (t, v) = self.float_text();
                if self.rng.chance(40) { let a = self.tok("-"); let b = self.tok(&t); o.double_value = Some(-v); (a.0, b.1) }
                else { o.double_value = Some(v); self.tok(&t) }
            }
            5 | 6 => { let (v, sp) = self.string_lit(false); o.string_value = Some(v); sp }
            _ => { let (txt, sp) = self.aggregate(); o.aggregate_value = Some(txt); sp }
        }
    }
    pub fn aggregate(&mut self) -> (String, (usize, usize)) {
        let a = self.tok("{");
        let mut out: Vec<String> = vec![];
        let mut depth = 0;
        let n = self.rng.below(8);
        for _ in 0..n {
            let (t, r) = match self.rng.below(10) {
                0 => { depth += 1; ("{".to_owned(), "{".to_owned()) }
                1 if depth > 0 => { depth -= 1; ("}".to_owned(), "}".to_owned()) }
                2 => { let v = self.any_u64(); (self.int_text(v), v.to_string()) }
                3 => {
                    let (t, v) = self.float_text();
                    let t = if self.rng.chance(50) { format!("{t}f") } else { t };
                    (t, if v.fract() == 0.0 { format!("{v:.1}") } else { format!("{v}") })
                }
                4 => {
                    let (t, v) = random_literal(&mut self.rng, false);
                    let mut r = String::from("\"");
                    for b in v { r.push_str(&std::ascii::escape_default(b).to_string()) }
                    r.push('"');
                    (t, r)
                }
                5 | 6 => { let i = self.ident(); (i.clone(), i) }
                _ => { let t = *self.rng.pick(&[":", ",", ";", "[", "]", "<", ">", "/", ".", "-", "+", "(", ")", "="]); (t.to_owned(), t.to_owned()) }
            };
            self.agg_sep();
            self.raw(&t);
            out.push(r);
        }
        for _ in 0..depth { self.agg_sep(); self.raw("}"); out.push("}".into()); }
        self.agg_sep();
        let b = self.raw("}");
        (out.join(" "), (a.0, b.1))
    }
    fn agg_sep(&mut self) {
        let s = *self.rng.pick(&[" ", "  ", "\n", " # c }\n", " // c {\n", " /* } */ ", "\n\n# x\n\n", "\t"]);
        self.src.push_str(s);
    }
    fn option_name(&mut self) -> (Vec<NamePart>, (usize, usize)) {
        let mut parts = vec![]; let mut sp = (usize::MAX, 0);
        loop {
            let s;
            if self.rng.chance(30) {
                let a = self.tok("(");
                let (n, _) = self.type_name();
                let b = self.tok(")");
                s = (a.0, b.1);
                parts.push(NamePart { name_part: n, is_extension: true });
            } else {
                let n = if parts.is_empty() { format!("opt{}", self.rng.below(100)) } else { self.ident() };
                s = self.tok(&n);
                parts.push(NamePart { name_part: n, is_extension: false });
            }
            if sp.0 == usize::MAX { sp = s } else { sp.1 = s.1 }
            if !self.rng.chance(25) { break }
            self.tok(".");
        }
        (parts, sp)
    }
    fn option_body(&mut self) -> (UninterpretedOption, (usize, usize)) {
        let (name, a) = self.option_name();
        self.tok("=");
        let mut o = UninterpretedOption { name, ..Default::default() };
        let b = self.constant(&mut o);
        (o, (a.0, b.1))
    }
    fn stmt_start(&mut self, word: &str) -> ((usize, usize), Com) { let c = self.gap(false); let s = self.raw(word); (s, c) }
    fn end(&mut self, li: Option<usize>, t: &str) -> usize { let e = self.tok(t).1; self.pending = li; e }

    /// `option ...;` statement
    fn option_stmt(&mut self, path: &[i32], opts: &mut Vec<UninterpretedOption>, forced: Option<(&str, &str)>) {
        let (s, c) = self.stmt_start("option");
        let mut p = path.to_vec();
        let l0 = self.loc(&p, s);
        p.extend([999, opts.len() as i32]);
        let li = self.locc(&p, s, c);
        let o = if let Some((n, v)) = forced {
            self.tok(n); self.tok("="); self.tok(v);
            UninterpretedOption { name: vec![NamePart { name_part: n.into(), is_extension: false }], identifier_value: Some(v.into()), ..Default::default() }
        } else { self.option_body().0 };
        opts.push(o);
        let e = self.end(Some(li), ";");
        self.locs[l0].e = e; self.locs[li].e = e;
    }
    /// `[ ... ]`; `field`: Some(expected default text producer) when default/json_name may appear
    fn option_list(&mut self, path: &[i32], field: Option<&mut FieldX>) -> Option<Vec<UninterpretedOption>> {
        let mut opts = vec![];
        let a = self.tok("[");
        let mut p = path.to_vec(); p.push(8);
        if field.is_none() { *p.last_mut().unwrap() = 3; }
        let l0 = self.loc(&p, a);
        let mut items: Vec<u8> = vec![];
        for _ in 0..self.rng.below(4) { items.push(0) }
        let mut fx = field;
        if let Some(f) = fx.as_mut() {
            if f.want_default { let i = self.rng.below(items.len() + 1); items.insert(i, 1) }
            if f.want_json { let i = self.rng.below(items.len() + 1); items.insert(i, 2) }
        }
        if items.is_empty() { items.push(0) }
        for (k, it) in items.iter().enumerate() {
            if k > 0 { self.tok(","); }
            match it {
                0 => {
                    let (o, sp) = self.option_body();
                    let mut q = p.clone(); q.extend([999, opts.len() as i32]);
                    self.loc(&q, sp);
                    opts.push(o);
                }
                1 => {
                    self.tok("default"); self.tok("=");
                    let f = fx.as_mut().unwrap();
                    let ty = f.ty;
                    let (txt, sp) = self.default_value(ty);
                    fx.as_mut().unwrap().default = Some(txt);
                    let mut q = path.to_vec(); q.push(7);
                    self.loc(&q, sp);
                }
                _ => {
                    let s = self.tok("json_name"); self.tok("=");
                    let (v, sp) = self.string_lit(true);
                    fx.as_mut().unwrap().json = Some(String::from_utf8(v).unwrap());
                    let mut q = path.to_vec(); q.push(10);
                    self.loc(&q, (s.0, sp.1));
                    self.loc(&q, sp);
                }
            }
        }
        let b = self.tok("]");
        self.locs[l0].e = b.1;
        if opts.is_empty() { None } else { Some(opts) }
    }
    pub fn default_value(&mut self, ty: Option<Type>) -> (String, (usize, usize)) {
        use Type::*;
        let sint = |em: &mut Em, bits: u32| {
            let neg = em.rng.chance(50);
            let lim = 1u64 << (bits - 1);
            let v = *em.rng.pick(&[0u64, 1, 9, lim - 1, lim - 2, lim / 3, 100]);
            let v = if neg && em.rng.chance(30) { lim } else { v };
            let t = em.int_text(v);
            if neg { let a = em.tok("-"); let b = em.tok(&t); (if v == 0 { "0".to_owned() } else { format!("-{v}") }, (a.0, b.1)) }
            else { let s = em.tok(&t); (v.to_string(), s) }
        };
        let uint = |em: &mut Em, max: u64| {
            let v = *em.rng.pick(&[0u64, 1, 9, max, max - 1, max / 3, 100]);
            let t = em.int_text(v);
            let s = em.tok(&t); (v.to_string(), s)
        };
        match ty {
            Some(Int32 | Sint32 | Sfixed32) => sint(self, 32),
            Some(Int64 | Sint64 | Sfixed64) => sint(self, 64),
            Some(Uint32 | Fixed32) => uint(self, u32::MAX as u64),
            Some(Uint64 | Fixed64) => uint(self, u64::MAX),
            Some(Bool) => { let b = *self.rng.pick(&["true", "false"]); let s = self.tok(b); (b.to_owned(), s) }
            Some(String) => { let (v, s) = self.string_lit(true); (std::string::String::from_utf8(v).unwrap(), s) }
            Some(Bytes) => { let (v, s) = self.string_lit(false); (c_escape(&v), s) }
            Some(Double | Float) => {
                let neg = self.rng.chance(40);
                let a = if neg { Some(self.tok("-")) } else { None };
                let (v, s): (f64, _) = match self.rng.below(4) {
                    0 => { let n = *self.rng.pick(&["inf", "nan"]); let s = self.tok(n); (if n == "inf" { f64::INFINITY } else { f64::NAN }, s) }
                    1 => { let v = self.any_u64(); let t = self.int_text(v); let s = self.tok(&t); (v as f64, s) }
                    _ => { let (t, v) = self.float_text(); let s = self.tok(&t); (v, s) }
                };
                let v = if neg { -v } else { v };
                (format!("{v}").to_lowercase(), (a.map_or(s.0, |x| x.0), s.1))
            }
            None => {
                if self.rng.chance(70) { let i = self.ident(); let s = self.tok(&i); (i, s) }
                else { let (v, s) = self.string_lit(false); (format!("\"{}\"", c_escape(&v)), s) }
            }
            _ => unreachable!(),
        }
    }
}

pub struct FieldX { pub want_default: bool, pub want_json: bool, pub ty: Option<Type>, pub default: Option<String>, pub json: Option<String> }

/// C escaping of bytes as used for bytes defaults (independent of the code under test).
pub fn c_escape(v: &[u8]) -> String {
    let mut s = String::new();
    for &b in v {
        match b {
            b'\t' => s.push_str("\\t"), b'\r' => s.push_str("\\r"), b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"), b'\'' => s.push_str("\\'"), b'"' => s.push_str("\\\""),
            0x20..=0x7e => s.push(b as char),
            _ => { s.push('\\'); for k in [6, 3, 0] { s.push((b'0' + ((b >> k) & 7)) as char) } }
        }
    }
    s
}
/// inverse of C escaping
pub fn c_unescape(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes(); let mut i = 0; let mut out = vec![];
    while i < b.len() {
        if b[i] != b'\\' { out.push(b[i]); i += 1; continue; }
        i += 1;
        match *b.get(i)? {
            b'n' => { out.push(10); i += 1 } b'r' => { out.push(13); i += 1 } b't' => { out.push(9); i += 1 }
            b'\\' => { out.push(b'\\'); i += 1 } b'\'' => { out.push(b'\''); i += 1 } b'"' => { out.push(b'"'); i += 1 }
            c @ b'0'..=b'3' => {
                let d = |k: usize| b.get(k).filter(|x| (b'0'..=b'7').contains(x)).map(|x| (x - b'0') as u32);
                let v = ((c - b'0') as u32) * 64 + d(i + 1)? * 8 + d(i + 2)?;
                out.push(v as u8); i += 3;
            }
            _ => return None,
        }
    }
    Some(out)
}

/// A random string literal: (source text, bytes denoted).
pub fn random_literal(rng: &mut Rng, utf8: bool) -> (String, Vec<u8>) {
    let q = *rng.pick(&['"', '\'']);
    let mut t = String::new(); t.push(q);
    let mut v: Vec<u8> = vec![];
    for _ in 0..rng.below(6) {
        match rng.below(12) {
            0 => { let (c, b) = *rng.pick(&[('a', 7u8), ('b', 8), ('f', 12), ('n', 10), ('r', 13), ('t', 9), ('v', 11), ('?', b'?'), ('\\', b'\\'), ('\'', b'\''), ('"', b'"')]); t.push('\\'); t.push(c); v.push(b) }
            1 => { // octal, one to three digits; a short one must not be followed by another octal digit
                let b = if utf8 { rng.below(0x80) } else { rng.below(256) } as u32;
                let s = match rng.below(3) { 0 if b < 8 => format!("{b:o}"), 1 if b < 64 => format!("{b:02o}"), _ => format!("{b:03o}") };
                t.push('\\'); t.push_str(&s); v.push(b as u8);
                if s.len() < 3 { t.push('g'); v.push(b'g') }
            }
            2 => {
                let b = if utf8 { rng.below(0x80) } else { rng.below(256) } as u32;
                let x = *rng.pick(&['x', 'X']);
                let s = match rng.below(3) { 0 if b < 16 => format!("{b:x}"), 1 => format!("{b:02X}"), _ => format!("{b:02x}") };
                t.push('\\'); t.push(x); t.push_str(&s); v.push(b as u8);
                if s.len() < 2 { t.push('z'); v.push(b'z') }
            }
            3 => {
                let c = char::from_u32(*rng.pick(&[0x41u32, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xffff, 0xd7ff, 0xe000])).unwrap();
                t.push_str(&format!("\\u{:04x}", c as u32));
                let mut b = [0; 4]; v.extend(c.encode_utf8(&mut b).as_bytes())
            }
            4 => {
                let c = char::from_u32(*rng.pick(&[0x1F600u32, 0x10000, 0x10ffff, 0x41, 0xe9])).unwrap();
                t.push_str(&format!("\\U{:08X}", c as u32));
                let mut b = [0; 4]; v.extend(c.encode_utf8(&mut b).as_bytes())
            }
            5 => { let o = if q == '"' { '\'' } else { '"' }; t.push(o); v.push(o as u8) }
            6 => { let s = *rng.pick(&["é", "日", "\u{1F600}", "\u{7f}", "\u{85}"]); t.push_str(s); v.extend(s.as_bytes()) }
            7 => { t.push_str("//"); v.extend(b"//") }
            8 => { t.push_str("\t"); v.push(9) }
            9 => { let s = *rng.pick(&["0", "7", "A", "f"]); t.push_str(s); v.extend(s.as_bytes()) }
            _ => { let s = *rng.pick(&["abc", " ", "{", "}", ";", "#", "x", "/*"]); t.push_str(s); v.extend(s.as_bytes()) }
        }
    }
    t.push(q);
    // An octal/hex escape of three/two digits followed by a digit is complete, so no fixup is needed there.
    (t, v)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scope { Message, Oneof, Extend }

pub const SCALARS: [(&str, Type); 15] = [
    ("double", Type::Double), ("float", Type::Float), ("int32", Type::Int32), ("int64", Type::Int64), ("uint32", Type::Uint32),
    ("uint64", Type::Uint64), ("sint32", Type::Sint32), ("sint64", Type::Sint64), ("fixed32", Type::Fixed32), ("fixed64", Type::Fixed64),
    ("sfixed32", Type::Sfixed32), ("sfixed64", Type::Sfixed64), ("bool", Type::Bool), ("string", Type::String), ("bytes", Type::Bytes),
];

pub fn pascal(s: &str) -> String {
    let mut out = String::new(); let mut up = true;
    for c in s.chars() { if c == '_' { up = true } else if up { out.extend(c.to_uppercase().filter(|_| c.is_ascii())); if !c.is_ascii() { out.push(c) } up = false } else { out.push(c) } }
    out
}

impl Em {
    pub fn file(mut self, name: &str) -> Doc {
        let mut fd = FileDescriptorProto { name: Some(name.into()), ..Default::default() };
        let l0 = self.loc(&[], (0, 0));
        let mut first: Option<usize> = None;
        let mut last = 0usize;
        if self.proto3 || self.rng.chance(50) {
            let (s, c) = self.stmt_start("syntax");
            let li = self.locc(&[12], s, c);
            self.tok("=");
            let v = if self.proto3 { "proto3" } else { "proto2" };
            if self.rng.chance(20) { let (a, b) = v.split_at(3); self.tok(&format!("'{a}'")); self.tok(&format!("\"{b}\"")); }
            else if self.rng.chance(20) { self.tok(&format!("\"\\x70{}\"", &v[1..])); }
            else { self.tok(&format!("\"{v}\"")); }
            let e = self.end(Some(li), ";");
            self.locs[li].e = e;
            first = Some(s.0); last = e;
            if self.proto3 { fd.syntax = Some("proto3".into()) }
        }
        let mut opts = vec![];
        let mut package = false;
        let n = self.rng.range(0, 8);
        for _ in 0..n {
            let before = self.locs.len();
            let k = self.rng.below(11);
            let start = match k {
                0 => { self.gap(false); let s = self.raw(";"); last = s.1; self.pending = None; s.0 }
                1 if !package => {
                    package = true;
                    let (s, c) = self.stmt_start("package");
                    let li = self.locc(&[2], s, c);
                    let id = self.ident(); let (nm, _) = self.full_ident(id);
                    let e = self.end(Some(li), ";"); self.locs[li].e = e; last = e;
                    fd.package = Some(nm);
                    s.0
                }
                2 | 3 => {
                    let (s, c) = self.stmt_start("import");
                    let i = fd.dependency.len() as i32;
                    let li = self.locc(&[3, i], s, c);
                    match self.rng.below(3) {
                        0 => { let t = self.tok("public"); let j = fd.public_dependency.len() as i32; self.loc(&[10, j], t); fd.public_dependency.push(i) }
                        1 => { let t = self.tok("weak"); let j = fd.weak_dependency.len() as i32; self.loc(&[11, j], t); fd.weak_dependency.push(i) }
                        _ => (),
                    }
                    let v = format!("{}{}.proto", self.rng.pick(&["", "a/", "a/b/", "x.y/", "..a/", ".../"]), self.rng.below(5));
                    if self.rng.chance(20) { let (a, b) = v.split_at(1); self.tok(&format!("'{a}'")); self.tok(&format!("'{b}'")); } else { self.tok(&format!("\"{v}\"")); }
                    fd.dependency.push(v);
                    let e = self.end(Some(li), ";"); self.locs[li].e = e; last = e;
                    s.0
                }
                4 => { self.option_stmt(&[8], &mut opts, None); last = self.src.len(); self.locs[before].s }
                5 => { let p = [5, fd.enum_type.len() as i32]; let (e, s) = self.enum_(&p); fd.enum_type.push(e); last = self.src.len(); s }
                6 => { let p = [6, fd.service.len() as i32]; let (e, s) = self.service(&p); fd.service.push(e); last = self.src.len(); s }
                7 => { let s = self.extend(&[], 7, 4, &mut fd.extension, &mut fd.message_type, 0); last = self.src.len(); s }
                _ => { let p = [4, fd.message_type.len() as i32]; let (m, s) = self.message(&p, 0); fd.message_type.push(m); last = self.src.len(); s }
            };
            first.get_or_insert(start);
        }
        self.n = usize::MAX;
        self.gap(true);
        self.n = 0;
        if let Some(f) = first { self.locs[l0].s = f; self.locs[l0].e = last } else { self.locs.remove(l0); }
        if !opts.is_empty() { fd.options = Some(FileOptions { uninterpreted_option: opts, ..Default::default() }) }
        Doc { src: self.src, fd, locs: self.locs, empty: first.is_none(), toks: self.toks }
    }

    fn message(&mut self, path: &[i32], depth: usize) -> (DescriptorProto, usize) {
        let (s, c) = self.stmt_start("message");
        let li = self.locc(path, s, c);
        let nm = self.ident();
        let ns = self.tok(&nm);
        let mut p = path.to_vec(); p.push(1); self.loc(&p, ns);
        self.end(Some(li), "{");
        let (mut m, e) = self.body(path, depth);
        m.name = Some(nm);
        self.locs[li].e = e;
        (m, s.0)
    }

    /// items up to and including '}'
    fn body(&mut self, path: &[i32], depth: usize) -> (DescriptorProto, usize) {
        let mut m = DescriptorProto::default();
        let mut opts = vec![];
        let ms = self.rng.chance(12);
        let ms_val = self.rng.chance(70);
        let mut ms_done = false;
        let n = if depth > 4 || self.budget == 0 { 0 } else { self.rng.below(7) };
        let mut plan: Vec<u8> = (0..n).map(|_| self.rng.below(16) as u8).collect();
        if ms { let i = self.rng.below(plan.len() + 1); plan.insert(i, 100) }
        // real oneofs come first in the descriptor; synthetic ones are appended as fields are met
        let real = plan.iter().filter(|k| **k == 4).count();
        let mut synth: Vec<OneofDescriptorProto> = vec![];
        let mut reals: Vec<OneofDescriptorProto> = vec![];
        let is_ms = ms && ms_val;
        for k in plan {
            self.budget = self.budget.saturating_sub(1);
            match k {
                0 => { self.gap(false); self.raw(";"); self.pending = None; }
                1 => { let mut p = path.to_vec(); p.extend([4, m.enum_type.len() as i32]); let (e, _) = self.enum_(&p); m.enum_type.push(e) }
                2 => { let mut p = path.to_vec(); p.extend([3, m.nested_type.len() as i32]); let (x, _) = self.message(&p, depth + 1); m.nested_type.push(x) }
                3 => { let (mut a, mut b) = (std::mem::take(&mut m.extension), std::mem::take(&mut m.nested_type)); self.extend(path, 6, 3, &mut a, &mut b, depth + 1); m.extension = a; m.nested_type = b; }
                4 => {
                    let idx = reals.len() as i32;
                    let (s, c) = self.stmt_start("oneof");
                    let mut p = path.to_vec(); p.extend([8, idx]);
                    let li = self.locc(&p, s, c);
                    let nm = self.ident(); let ns = self.tok(&nm);
                    let mut q = p.clone(); q.push(1); self.loc(&q, ns);
                    self.end(Some(li), "{");
                    let cnt = self.rng.range(1, 3);
                    let mut oo = vec![];
                    let opt_at = if self.rng.chance(25) { self.rng.below(cnt) } else { 99 };
                    for k in 0..cnt {
                        if k == opt_at { let mut q = p.clone(); q.push(2); self.option_stmt(&q, &mut oo, None) }
                        if self.rng.chance(10) { self.gap(false); self.raw(";"); self.pending = None; }
                        let fi = m.field.len();
                        let mut nested = std::mem::take(&mut m.nested_type);
                        let f = self.field(path, 2, fi, 3, &mut nested, Scope::Oneof, None, depth + 1);
                        m.nested_type = nested;
                        m.field.push(FieldDescriptorProto { oneof_index: Some(idx), ..f });
                    }
                    self.gap(true); let e = self.raw("}").1; self.pending = None;
                    self.locs[li].e = e;
                    reals.push(OneofDescriptorProto { name: Some(nm), options: if oo.is_empty() { None } else { Some(OneofOptions { uninterpreted_option: oo }) } });
                }
                5 => { let mut q = path.to_vec(); q.push(7); self.option_stmt(&q, &mut opts, None) }
                6 => self.reserved_ranges(path, &mut m.reserved_range, is_ms),
                7 => self.reserved_names(path, 10, &mut m.reserved_name),
                8 => self.extension_ranges(path, &mut m.extension_range, is_ms),
                100 => { if !ms_done { ms_done = true; let mut q = path.to_vec(); q.push(7); self.option_stmt(&q, &mut opts, Some(("message_set_wire_format", if ms_val { "true" } else { "false" }))) } }
                _ => {
                    let fi = m.field.len();
                    let base = real + synth.len();
                    let mut nested = std::mem::take(&mut m.nested_type);
                    let mut so = None;
                    let f = self.field(path, 2, fi, 3, &mut nested, Scope::Message, Some((&mut so, base)), depth + 1);
                    if let Some(n) = so { synth.push(OneofDescriptorProto { name: Some(n), options: None }) }
                    m.nested_type = nested;
                    m.field.push(f);
                }
            }
        }
        self.gap(true);
        let e = self.raw("}").1;
        self.pending = None;
        m.oneof_decl = reals; m.oneof_decl.extend(synth);
        if !opts.is_empty() { m.options = Some(MessageOptions { uninterpreted_option: opts, ..Default::default() }) }
        (m, e)
    }

    fn range(&mut self, path: &[i32], tag: i32, idx: usize, lo: i64, hi: i64, max: i64) -> (i64, i64, bool) {
        let val = |em: &mut Em| -> i64 {
            match em.rng.below(4) { 0 => lo, 1 => hi, 2 => (em.rng.next() % 1000) as i64 + 1, _ => lo + (em.rng.next() % (hi - lo + 1) as u64) as i64 }
        };
        let put = |em: &mut Em, v: i64| -> (usize, usize) {
            if v < 0 { let a = em.tok("-"); let t = em.int_text(v.unsigned_abs()); let b = em.tok(&t); (a.0, b.1) } else { let t = em.int_text(v as u64); em.tok(&t) }
        };
        let a = val(self);
        let mut p = path.to_vec(); p.extend([tag, idx as i32]);
        let s = put(self, a);
        let (b, e) = match self.rng.below(3) {
            0 => (a, s),
            1 => { self.tok("to"); let b = val(self); let e = put(self, b); (b, e) }
            _ => { self.tok("to"); let e = self.tok("max"); (max, e) }
        };
        self.loc(&p, (s.0, e.1));
        p.push(1); self.loc(&p, s); p.pop(); p.push(2); self.loc(&p, e);
        (a, b, false)
    }
    fn reserved_ranges(&mut self, path: &[i32], out: &mut Vec<descriptor_proto::ReservedRange>, ms: bool) {
        let (s, c) = self.stmt_start("reserved");
        let mut p = path.to_vec(); p.push(9);
        let li = self.locc(&p, s, c);
        for k in 0..self.rng.range(1, 3) {
            if k > 0 { self.tok(","); }
            let (a, b, _) = self.range(path, 9, out.len(), 1, 536870911, if ms { i32::MAX as i64 - 1 } else { 536870911 });
            out.push(descriptor_proto::ReservedRange { start: Some(a as i32), end: Some((b + 1) as i32) });
        }
        let e = self.end(Some(li), ";"); self.locs[li].e = e;
    }
    fn reserved_names(&mut self, path: &[i32], tag: i32, out: &mut Vec<String>) {
        let (s, c) = self.stmt_start("reserved");
        let mut p = path.to_vec(); p.push(tag);
        let li = self.locc(&p, s, c);
        for k in 0..self.rng.range(1, 3) {
            if k > 0 { self.tok(","); }
            let n = self.ident();
            let sp = self.tok(&format!("'{n}'"));
            let mut q = p.clone(); q.push(out.len() as i32);
            self.loc(&q, sp);
            out.push(n);
        }
        let e = self.end(Some(li), ";"); self.locs[li].e = e;
    }
    fn extension_ranges(&mut self, path: &[i32], out: &mut Vec<descriptor_proto::ExtensionRange>, ms: bool) {
        let (s, c) = self.stmt_start("extensions");
        let mut p = path.to_vec(); p.push(5);
        let li = self.locc(&p, s, c);
        let first = out.len();
        let n = self.rng.range(1, 3);
        for k in 0..n {
            if k > 0 { self.tok(","); }
            let (a, b, _) = self.range(path, 5, out.len(), 1, 536870911, if ms { i32::MAX as i64 - 1 } else { 536870911 });
            out.push(descriptor_proto::ExtensionRange { start: Some(a as i32), end: Some((b + 1) as i32), options: None });
        }
        if self.rng.chance(40) {
            let at = self.locs.len();
            let o = { let mut q = p.clone(); q.push(first as i32); self.option_list(&q, None) };
            let made: Vec<Loc> = self.locs[at..].to_vec();
            for k in first + 1..out.len() {
                for l in &made { let mut l = l.clone(); l.path[p.len()] = k as i32; self.locs.push(l) }
            }
            for r in &mut out[first..] { r.options = o.clone().map(|uninterpreted_option| ExtensionRangeOptions { uninterpreted_option }) }
        }
        let e = self.end(Some(li), ";"); self.locs[li].e = e;
    }

    #[allow(clippy::too_many_arguments)]
    fn field(&mut self, path: &[i32], ftag: i32, fi: usize, mtag: i32, nested: &mut Vec<DescriptorProto>, scope: Scope, synth: Option<(&mut Option<String>, usize)>, depth: usize) -> FieldDescriptorProto {
        let c = self.gap(false);
        let mut p = path.to_vec(); p.extend([ftag, fi as i32]);
        let mut f = FieldDescriptorProto { label: Some(Label::Optional as i32), ..Default::default() };
        let kind = self.rng.below(12);
        let map = kind == 0 && scope == Scope::Message;
        let group = kind == 1 && !self.proto3 && depth < 5;
        let mut start = None;
        let mut first = true;
        let mut put = |em: &mut Em, t: &str| -> (usize, usize) { let r = if first { em.raw(t) } else { em.tok(t) }; first = false; if start.is_none() { start = Some(r.0) } r };
        let mut written_label = None;
        if !map && scope != Scope::Oneof {
            let l = if !self.proto3 { if scope == Scope::Extend { self.rng.pick(&["optional", "repeated"]) } else { self.rng.pick(&["optional", "required", "repeated"]) } }
                    else { self.rng.pick(&["", "", "optional", "repeated"]) };
            if !l.is_empty() {
                let sp = put(self, l);
                let mut q = p.clone(); q.push(4); self.loc(&q, sp);
                written_label = Some(*l);
                f.label = Some(match *l { "optional" => Label::Optional, "required" => Label::Required, _ => Label::Repeated } as i32);
            }
        }
        let mut oneof = None;
        let nm;
        let mut fx = FieldX { want_default: false, want_json: self.rng.chance(12), ty: None, default: None, json: None };
        let li;
        let sub = |p: &[i32], k: i32| { let mut q = p.to_vec(); q.push(k); q };
        if map {
            let a = put(self, "map"); self.tok("<");
            let keys = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"];
            let kt = *self.rng.pick(&keys); self.tok(kt); self.tok(",");
            let kty = SCALARS.iter().find(|s| s.0 == kt).unwrap().1;
            let (vt, vn) = if self.rng.chance(60) { let s = *self.rng.pick(&SCALARS); self.tok(s.0); (Some(s.1), None) } else { (None, Some(self.type_name().0)) };
            let b = self.tok(">");
            li = self.locc(&p, a, c);
            self.loc(&sub(&p, 6), (a.0, b.1));
            nm = self.ident(); let ns = self.tok(&nm); self.loc(&sub(&p, 1), ns);
            let en = pascal(&nm) + "Entry";
            f.name = Some(nm.clone());
            f.label = Some(Label::Repeated as i32);
            f.r#type = Some(Type::Message as i32);
            f.type_name = Some(en.clone());
            let kv = |n: &str, num, t: Option<Type>, tn: Option<String>| FieldDescriptorProto { name: Some(n.into()), json_name: Some(n.into()), label: Some(Label::Optional as i32), number: Some(num), r#type: t.map(|t| t as i32), type_name: tn, ..Default::default() };
            nested.push(DescriptorProto { name: Some(en), field: vec![kv("key", 1, Some(kty), None), kv("value", 2, vt, vn)], options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }), ..Default::default() });
        } else if group {
            let a = put(self, "group");
            li = self.loc(&p, a);
            self.loc(&sub(&p, 5), a);
            nm = self.uident(); let ns = self.tok(&nm); self.loc(&sub(&p, 1), ns); self.loc(&sub(&p, 6), ns);
            f.name = Some(nm.to_ascii_lowercase());
            f.r#type = Some(Type::Group as i32);
            f.type_name = Some(nm.clone());
            let mut mp = path.to_vec(); mp.extend([mtag, nested.len() as i32]);
            let ml = self.locc(&mp, a, c);
            self.loc(&sub(&mp, 1), ns);
            self.tok("=");
            f.number = Some(self.number(&p));
            if self.rng.chance(20) { f.options = self.option_list(&p, Some(&mut fx)).map(|uninterpreted_option| FieldOptions { uninterpreted_option, ..Default::default() }) } else { fx.want_json = false }
            f.json_name = fx.json;
            self.end(Some(ml), "{");
            let (mut m, e) = self.body(&mp, depth + 1);
            m.name = Some(nm);
            // nested messages of the body never go to `nested`: it is the enclosing scope
            nested.push(m);
            let s0 = start.unwrap();
            for l in [li, ml] { self.locs[l].s = s0; self.locs[l].e = e }
            return f;
        } else {
            if self.rng.chance(70) {
                let s = *self.rng.pick(&SCALARS);
                let t = put(self, s.0);
                self.loc(&sub(&p, 5), t);
                f.r#type = Some(s.1 as i32); fx.ty = Some(s.1);
            } else {
                let first_tok_pos = self.src.len();
                let (n, sp) = if written_label.is_some() { self.type_name() } else {
                    // the first token of the declaration: no separator before it
                    let n = self.type_first(); let s = put(self, &n);
                    let mut name = n; let mut e = s.1;
                    while self.rng.chance(30) { self.tok("."); let x = self.ident(); e = self.tok(&x).1; name.push('.'); name.push_str(&x); }
                    (name, (s.0, e))
                };
                let _ = first_tok_pos;
                if start.is_none() { start = Some(sp.0) }
                self.loc(&sub(&p, 6), sp);
                f.type_name = Some(n);
            }
            li = self.locc(&p, (start.unwrap(), 0), c);
            nm = self.ident(); let ns = self.tok(&nm); self.loc(&sub(&p, 1), ns);
            f.name = Some(nm.clone());
            fx.want_default = !self.proto3 && written_label != Some("repeated") && self.rng.chance(25);
        }
        if self.proto3 && written_label == Some("optional") {
            f.proto3_optional = Some(true);
            if let Some((so, base)) = synth {
                *so = Some(if nm.starts_with('_') { format!("X{nm}") } else { format!("_{nm}") });
                oneof = Some(base as i32);
            }
        }
        self.tok("=");
        f.number = Some(self.number(&p));
        if fx.want_default || fx.want_json || self.rng.chance(20) {
            f.options = self.option_list(&p, Some(&mut fx)).map(|uninterpreted_option| FieldOptions { uninterpreted_option, ..Default::default() });
        }
        f.default_value = fx.default; f.json_name = fx.json;
        f.oneof_index = oneof;
        let e = self.end(Some(li), ";");
        self.locs[li].s = start.unwrap(); self.locs[li].e = e;
        f
    }
    fn number(&mut self, p: &[i32]) -> i32 {
        let v = match self.rng.below(4) { 0 => 1, 1 => 536870911, 2 => self.rng.below(100) + 1, _ => self.rng.below(536870911) + 1 };
        let t = self.int_text(v as u64);
        let s = self.tok(&t);
        let mut q = p.to_vec(); q.push(3); self.loc(&q, s);
        v as i32
    }
    fn extend(&mut self, path: &[i32], etag: i32, mtag: i32, ext: &mut Vec<FieldDescriptorProto>, nested: &mut Vec<DescriptorProto>, depth: usize) -> usize {
        let (s, c) = self.stmt_start("extend");
        let mut p = path.to_vec(); p.push(etag);
        let li = self.locc(&p, s, c);
        let (tn, ts) = self.type_name();
        self.end(Some(li), "{");
        for _ in 0..self.rng.range(0, 3) {
            if self.rng.chance(10) { self.gap(false); self.raw(";"); self.pending = None; }
            let mut q = p.clone(); q.extend([ext.len() as i32, 2]);
            self.loc(&q, ts);
            let i = ext.len();
            let f = self.field(path, etag, i, mtag, nested, Scope::Extend, None, depth + 1);
            ext.push(FieldDescriptorProto { extendee: Some(tn.clone()), ..f });
        }
        self.gap(true); let e = self.raw("}").1; self.pending = None;
        self.locs[li].e = e;
        s.0
    }
    fn enum_(&mut self, path: &[i32]) -> (EnumDescriptorProto, usize) {
        let (s, c) = self.stmt_start("enum");
        let li = self.locc(path, s, c);
        let nm = self.ident(); let ns = self.tok(&nm);
        let mut p = path.to_vec(); p.push(1); self.loc(&p, ns); p.pop();
        self.end(Some(li), "{");
        let mut d = EnumDescriptorProto { name: Some(nm), ..Default::default() };
        let mut opts = vec![];
        for _ in 0..self.rng.below(6) {
            match self.rng.below(8) {
                0 => { self.gap(false); self.raw(";"); self.pending = None; }
                1 => { let mut q = p.clone(); q.push(3); self.option_stmt(&q, &mut opts, None) }
                2 => {
                    let (s, c) = self.stmt_start("reserved");
                    let mut q = p.clone(); q.push(4);
                    let l = self.locc(&q, s, c);
                    for k in 0..self.rng.range(1, 3) {
                        if k > 0 { self.tok(","); }
                        let (a, b, _) = self.range(&p, 4, d.reserved_range.len(), i32::MIN as i64, i32::MAX as i64, i32::MAX as i64);
                        d.reserved_range.push(enum_descriptor_proto::EnumReservedRange { start: Some(a as i32), end: Some(b as i32) });
                    }
                    let e = self.end(Some(l), ";"); self.locs[l].e = e;
                }
                3 => { let mut v = std::mem::take(&mut d.reserved_name); self.reserved_names(&p, 5, &mut v); d.reserved_name = v; }
                _ => {
                    let c = self.gap(false);
                    let mut vn = self.ident(); if vn == "option" || vn == "reserved" { vn.push('1') }
                    let ns = self.raw(&vn);
                    let mut q = p.clone(); q.extend([2, d.value.len() as i32]);
                    let l = self.locc(&q, ns, c);
                    q.push(1); self.loc(&q, ns); q.pop();
                    self.tok("=");
                    let v: i64 = match self.rng.below(5) { 0 => 0, 1 => i32::MIN as i64, 2 => i32::MAX as i64, 3 => -(self.rng.below(1000) as i64), _ => self.rng.next() as u32 as i32 as i64 };
                    let sp = if v < 0 { let a = self.tok("-"); let t = self.int_text(v.unsigned_abs()); let b = self.tok(&t); (a.0, b.1) } else { let t = self.int_text(v as u64); self.tok(&t) };
                    q.push(2); self.loc(&q, sp); q.pop();
                    let o = if self.rng.chance(25) { self.option_list(&q, None) } else { None };
                    let e = self.end(Some(l), ";"); self.locs[l].e = e;
                    d.value.push(EnumValueDescriptorProto { name: Some(vn), number: Some(v as i32), options: o.map(|uninterpreted_option| EnumValueOptions { uninterpreted_option, ..Default::default() }) });
                }
            }
        }
        self.gap(true); let e = self.raw("}").1; self.pending = None;
        self.locs[li].e = e;
        if !opts.is_empty() { d.options = Some(EnumOptions { uninterpreted_option: opts, ..Default::default() }) }
        (d, s.0)
    }
    fn service(&mut self, path: &[i32]) -> (ServiceDescriptorProto, usize) {
        let (s, c) = self.stmt_start("service");
        let li = self.locc(path, s, c);
        let nm = self.ident(); let ns = self.tok(&nm);
        let mut p = path.to_vec(); p.push(1); self.loc(&p, ns); p.pop();
        self.end(Some(li), "{");
        let mut d = ServiceDescriptorProto { name: Some(nm), ..Default::default() };
        let mut opts = vec![];
        for _ in 0..self.rng.below(5) {
            match self.rng.below(6) {
                0 => { self.gap(false); self.raw(";"); self.pending = None; }
                1 => { let mut q = p.clone(); q.push(3); self.option_stmt(&q, &mut opts, None) }
                _ => {
                    let (s, c) = self.stmt_start("rpc");
                    let mut q = p.clone(); q.extend([2, d.method.len() as i32]);
                    let l = self.locc(&q, s, c);
                    let sub = |k: i32| { let mut x = q.clone(); x.push(k); x };
                    let nm = self.ident(); let ns = self.tok(&nm); self.loc(&sub(1), ns);
                    let mut m = MethodDescriptorProto { name: Some(nm), ..Default::default() };
                    self.tok("(");
                    if self.rng.chance(40) { let t = self.tok("stream"); self.loc(&sub(5), t); m.client_streaming = Some(true) }
                    let (tn, ts) = self.type_name(); self.loc(&sub(2), ts); m.input_type = Some(tn);
                    self.tok(")"); self.tok("returns"); self.tok("(");
                    if self.rng.chance(40) { let t = self.tok("stream"); self.loc(&sub(6), t); m.server_streaming = Some(true) }
                    let (tn, ts) = self.type_name(); self.loc(&sub(3), ts); m.output_type = Some(tn);
                    self.tok(")");
                    let mut mo = vec![];
                    let e = if self.rng.chance(50) { self.end(Some(l), ";") } else {
                        self.end(None, "{");
                        for _ in 0..self.rng.below(3) { if self.rng.chance(20) { self.gap(false); self.raw(";"); self.pending = None; } else { self.option_stmt(&sub(4), &mut mo, None) } }
                        self.gap(true); let e = self.raw("}").1; self.pending = Some(l); e
                    };
                    self.locs[l].e = e;
                    if !mo.is_empty() { m.options = Some(MethodOptions { uninterpreted_option: mo, ..Default::default() }) }
                    d.method.push(m);
                }
            }
        }
        self.gap(true); let e = self.raw("}").1; self.pending = None;
        self.locs[li].e = e;
        if !opts.is_empty() { d.options = Some(ServiceOptions { uninterpreted_option: opts, ..Default::default() }) }
        (d, s.0)
    }
}

pub struct Doc { pub src: String, pub fd: FileDescriptorProto, pub locs: Vec<Loc>, pub empty: bool, pub toks: Vec<usize> }

/// exact line/column span of a byte range: counts newlines, independent of the code under test
pub fn span_of(src: &str, s: usize, e: usize) -> Vec<i32> {
    let lc = |o: usize| {
        let b = &src.as_bytes()[..o];
        let line = b.iter().filter(|c| **c == b'\n').count();
        let col = b.iter().rev().take_while(|c| **c != b'\n').count();
        (line as i32, col as i32)
    };
    let (a, b) = (lc(s), lc(e));
    if a.0 == b.0 { vec![a.0, a.1, b.1] } else { vec![a.0, a.1, b.0, b.1] }
}
