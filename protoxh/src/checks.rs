use crate::{Ctx, Rng};
use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver, IncludeFileResolver};
use protox::{Compiler, Error};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::io;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub fn check(c: &mut Ctx) {
    match c.id.as_str() {
        "C22" => c22(c), "C23" => c23(c), "C24" => graphs(c, true), "C25" => graphs(c, false), "C26" => c26(c),
        x => panic!("unknown property {x}"),
    }
}

// ------------------------------------------------------------------ C22

/// components of a path, by its bytes: (absolute, names without '.')
fn comps(p: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if p.first() == Some(&b'/') { out.push(b"/".to_vec()) }
    for s in p.split(|b| *b == b'/') { if !s.is_empty() && s != b"." { out.push(s.to_vec()) } }
    out
}
fn name_of(rest: &[Vec<u8>]) -> Option<String> {
    if rest.is_empty() { return None }
    let mut n = vec![];
    for r in rest {
        if r == b".." || r == b"/" { return None }
        n.push(String::from_utf8(r.clone()).ok()?);
    }
    Some(n.join("/"))
}
fn rand_path(r: &mut Rng, max: usize) -> Vec<u8> {
    let parts: [&[u8]; 12] = [b"a", b"b", b"a", b"foo.proto", b".", b"..", b"", "é".as_bytes(), b"\xff", b"A", b"...", b"a.b"];
    let mut p = vec![];
    if r.chance(1, 4) { p.push(b'/') }
    let n = r.below(max + 1);
    for i in 0..n {
        if i > 0 { p.push(b'/'); if r.chance(1, 10) { p.push(b'/') } }
        let k = if r.chance(1, 2) { 5 } else { 12 };
        p.extend_from_slice(parts[r.below(k)]);
    }
    if r.chance(1, 6) && !p.is_empty() { p.push(b'/') }
    p
}
fn path(b: &[u8]) -> PathBuf { PathBuf::from(OsString::from_vec(b.to_vec())) }
fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }

/// answers for one name, from a file at a chosen path
struct At { name: String, file: PathBuf }
impl FileResolver for At {
    fn resolve_path(&self, _: &Path) -> Option<String> { Some(self.name.clone()) }
    fn open_file(&self, name: &str) -> Result<File, Error> { File::open(name, &self.file) }
}
struct Nothing;
impl FileResolver for Nothing {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        if name.starts_with("known") { File::from_source(name, "") } else { Ok(File::from_source(name, "").unwrap()) }
    }
}

fn c22(c: &mut Ctx) {
    let mut n = 0u64;
    std::fs::create_dir_all(c.dir.join("a/b")).unwrap();
    std::fs::create_dir_all(c.dir.join("b")).unwrap();
    std::fs::write(c.dir.join("a/b/x.proto"), "").unwrap();
    std::fs::write(c.dir.join("a/x.proto"), "").unwrap();
    std::fs::write(c.dir.join("b/x.proto"), "").unwrap();
    let root = c.dir.clone();
    while c.time_left() {
        n += 1;
        // mapping through an include path
        let inc = rand_path(&mut c.rng, 3);
        let mut p = if c.rng.chance(2, 3) { let mut p = inc.clone(); if !p.is_empty() && p.last() != Some(&b'/') && c.rng.chance(9, 10) { p.push(b'/') } p } else { vec![] };
        if c.rng.chance(1, 6) { p.splice(0..0, b"./".iter().copied()); }
        let tail = rand_path(&mut c.rng, 4);
        p.extend(tail);
        let src = format!("include path {:?}, path {:?}", show(&inc), show(&p));
        c.case(&src);
        let (ci, cp) = (comps(&inc), comps(&p));
        let want = if cp.len() >= ci.len() && cp[..ci.len()] == ci[..] { name_of(&cp[ci.len()..]) } else { None };
        let got = IncludeFileResolver::new(path(&inc)).resolve_path(&path(&p));
        c.is(got == want, &src, || format!("mapped to {got:?}, expected {want:?}"));
        // without an include path that matches, the path itself is the name when it is one already
        let mut cmp = Compiler::with_file_resolver(Nothing);
        let got = cmp.open_file(path(&p)).err().map(|e| e.to_string());
        let plain = p.first() != Some(&b'/') && !(p == b"." || p.starts_with(b"./"));
        let want = if plain { name_of(&cp) } else { None };
        c.is(got.is_none() == want.is_some(), &src, || format!("opening the path itself: {got:?}, name {want:?}"));
        if let (None, Some(w)) = (&got, &want) {
            let has = cmp.files().any(|f| f.name() == w);
            c.is(has, &src, || format!("opened, but not under the name {w:?}"));
        }
        // shadowing
        if n % 4 == 0 {
            let files = ["a/b/x.proto", "a/x.proto", "b/x.proto"];
            let dots = |r: &mut Rng, f: &str| -> PathBuf {
                let mut s = root.as_os_str().as_bytes().to_vec();
                for part in f.split('/') {
                    while r.chance(1, 3) { s.extend_from_slice(b"/.") }
                    s.push(b'/');
                    if r.chance(1, 8) { s.push(b'/') }
                    s.extend_from_slice(part.as_bytes());
                }
                path(&s)
            };
            let (i, j) = (c.rng.below(3), c.rng.below(3));
            let actual = dots(&mut c.rng, files[i]);
            let given = if c.rng.chance(1, 8) { path(&rand_path(&mut c.rng, 3)) } else { dots(&mut c.rng, files[j]) };
            let src = format!("found at {actual:?}, asked for {given:?}");
            c.case(&src);
            let same = comps(actual.as_os_str().as_bytes()) == comps(given.as_os_str().as_bytes());
            for second in [false, true] {
                let mut cmp = Compiler::with_file_resolver(At { name: "x.proto".into(), file: actual.clone() });
                if second { cmp.open_file(&actual).unwrap(); }
                let got = cmp.open_file(&given).err().map(|e| e.to_string());
                let shadowed = got.as_ref().is_some_and(|g| g.contains("shadowed"));
                c.is(if same { got.is_none() } else { shadowed }, &src, || format!("same path: {same}, but the result is {got:?} (second open: {second})"));
            }
        }
    }
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ans { Found, NotFound, ImportNotFound, NotIncluded, Io, Parse, Other, IoNotFound }
const ANS: [Ans; 8] = [Ans::Found, Ans::NotFound, Ans::ImportNotFound, Ans::NotIncluded, Ans::Io, Ans::Parse, Ans::Other, Ans::IoNotFound];
fn ans_err(a: Ans, name: &str, i: usize) -> Result<File, Error> {
    match a {
        Ans::Found => File::from_source(name, &format!("package p{i};")),
        Ans::NotFound => Err(Error::file_not_found(name)),
        Ans::ImportNotFound => Err(Compiler::with_file_resolver(Graph::new([("r.proto".to_owned(), "import 'gone.proto';".to_owned())])).open_file("r.proto").unwrap_err()),
        Ans::NotIncluded => Err(Compiler::with_file_resolver(Graph::new([])).open_file("../x").unwrap_err()),
        Ans::Io => Err(Error::from(io::Error::new(io::ErrorKind::Other, format!("io {i}")))),
        Ans::IoNotFound => Err(Error::from(io::Error::new(io::ErrorKind::NotFound, format!("io {i}")))),
        Ans::Parse => File::from_source(name, &format!("message M{i} {{")),
        Ans::Other => Err(Error::new(format!("custom {i}"))),
    }
}
struct Mock { i: usize, ans: Ans, map: Option<String>, log: Arc<Mutex<Vec<(usize, char)>>> }
impl FileResolver for Mock {
    fn resolve_path(&self, _: &Path) -> Option<String> { self.log.lock().unwrap().push((self.i, 'r')); self.map.clone() }
    fn open_file(&self, name: &str) -> Result<File, Error> { self.log.lock().unwrap().push((self.i, 'o')); ans_err(self.ans, name, self.i) }
}
fn outcome(r: &Result<File, Error>) -> String {
    match r { Ok(f) => format!("file {:?}", f.file_descriptor_proto()), Err(e) => format!("error {e} / {:?} nf={} io={} parse={}", e.file(), e.is_file_not_found(), e.is_io(), e.is_parse()) }
}
fn c23(c: &mut Ctx) {
    while c.time_left() {
        let n = c.rng.below(6);
        let log = Arc::new(Mutex::new(vec![]));
        let answers: Vec<Ans> = (0..n).map(|_| if c.rng.chance(1, 2) { Ans::NotFound } else { *c.rng.pick(&ANS) }).collect();
        let maps: Vec<Option<String>> = (0..n).map(|i| if c.rng.chance(1, 2) { None } else { Some(format!("name{i}")) }).collect();
        let src = format!("resolvers answering {answers:?}, mapping {maps:?}");
        c.case(&src);
        let nested = c.rng.chance(1, 4);
        let mut chain = ChainFileResolver::new();
        let split = if n > 0 { c.rng.below(n) } else { 0 };
        let mut inner = ChainFileResolver::new();
        for i in 0..n {
            let m = Mock { i, ans: answers[i], map: maps[i].clone(), log: log.clone() };
            if nested && i >= split { inner.add(m) } else if c.rng.chance(1, 3) { chain.add(Box::new(m)) } else { chain.add(m) }
        }
        if nested { chain.add(inner) }
        let nf = |a: &Ans| matches!(a, Ans::NotFound | Ans::ImportNotFound | Ans::NotIncluded);
        let first = answers.iter().position(|a| !nf(a));
        let got = outcome(&chain.open_file("x.proto"));
        let want = match first { Some(i) => outcome(&ans_err(answers[i], "x.proto", i)), None => outcome(&Err(Error::file_not_found("x.proto"))) };
        c.is(got == want, &src, || format!("open_file gave {got}, expected {want}"));
        let calls: Vec<_> = log.lock().unwrap().drain(..).collect();
        let wantc: Vec<_> = (0..first.map_or(n, |i| i + 1)).map(|i| (i, 'o')).collect();
        c.is(calls == wantc, &src, || format!("open_file consulted {calls:?}, expected {wantc:?}"));
        let got = chain.resolve_path(Path::new("q/x.proto"));
        let fm = maps.iter().position(|m| m.is_some());
        let want = fm.and_then(|i| maps[i].clone());
        c.is(got == want, &src, || format!("resolve_path gave {got:?}, expected {want:?}"));
        let calls: Vec<_> = log.lock().unwrap().drain(..).collect();
        let wantc: Vec<_> = (0..fm.map_or(n, |i| i + 1)).map(|i| (i, 'r')).collect();
        c.is(calls == wantc, &src, || format!("resolve_path consulted {calls:?}, expected {wantc:?}"));
    }
}

// ------------------------------------------------------------------ C24, C25

#[derive(Clone)]
struct Graph { files: Arc<BTreeMap<String, String>>, opened: Arc<Mutex<Vec<String>>> }
impl Graph {
    fn new(f: impl IntoIterator<Item = (String, String)>) -> Graph { Graph { files: Arc::new(f.into_iter().collect()), opened: Default::default() } }
}
impl FileResolver for Graph {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        self.opened.lock().unwrap().push(name.to_owned());
        match self.files.get(name) { Some(s) => File::from_source(name, s), None => Err(Error::file_not_found(name)) }
    }
}
struct Encoded(Graph, bool);
impl FileResolver for Encoded {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let f = self.0.open_file(name)?;
        if self.1 { Ok(File::decode_file_descriptor_proto(f.file_descriptor_proto().encode_to_vec().as_slice()).unwrap()) } else { Ok(f) }
    }
}

/// what opening `name` must do, by the property: (new files in some valid order) or a set of allowed complaints
fn reach(g: &BTreeMap<String, Vec<String>>, from: &str, out: &mut BTreeSet<String>) {
    if out.insert(from.to_owned()) { if let Some(d) = g.get(from) { for x in d { reach(g, x, out) } } }
}
fn has_cycle(g: &BTreeMap<String, Vec<String>>, from: &str) -> bool {
    let mut r = BTreeSet::new();
    reach(g, from, &mut r);
    r.iter().any(|x| { let mut s = BTreeSet::new(); if let Some(d) = g.get(x) { for y in d { reach(g, y, &mut s) } } s.contains(x) })
}

fn graphs(c: &mut Ctx, resolution: bool) {
    while c.time_left() {
        let n = 1 + c.rng.below(6);
        let mut deps: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let cyc = c.rng.chance(1, 4);
        let miss = c.rng.chance(1, 5);
        let dup = c.rng.chance(1, 5);
        let dense = 1 + c.rng.below(4);
        for i in 0..n {
            let mut d = vec![];
            for j in 0..n {
                if (j > i || (cyc && c.rng.chance(1, 3))) && c.rng.chance(dense, 5) { d.push(format!("f{j}.proto")) }
            }
            if miss && c.rng.chance(1, 4) { d.push(format!("gone{}.proto", c.rng.below(2))) }
            if dup && !d.is_empty() && c.rng.chance(1, 3) { let x = c.rng.pick(&d).clone(); d.push(x) }
            for k in (1..d.len()).rev() { let j = c.rng.below(k + 1); d.swap(k, j) }
            deps.insert(format!("f{i}.proto"), d);
        }
        let srcs: BTreeMap<String, String> = deps.iter().map(|(k, d)| {
            let id = k.trim_end_matches(".proto");
            let mut s = String::from("// leading\n");
            for x in d { s += &format!("import \"{x}\"; // {x}\n") }
            s += &format!("// about {id}\nmessage M_{id} {{ optional int32 x = 1 [deprecated = true]; }}\n");
            (k.clone(), s)
        }).collect();
        let opens: Vec<String> = (0..1 + c.rng.below(4)).map(|_| if c.rng.chance(1, 12) { "gone0.proto".to_owned() } else { format!("f{}.proto", c.rng.below(n)) }).collect();
        let encoded = c.rng.chance(1, 4);
        let src = format!("imports {deps:?}; opened in order {opens:?}{}", if encoded { " (encoded descriptors)" } else { "" });
        c.case(&src);
        let g = Graph::new(srcs.clone());
        let mut cmp = Compiler::with_file_resolver(Encoded(g.clone(), encoded));
        let mut explicit: BTreeSet<String> = BTreeSet::new();
        let names = |cmp: &Compiler| -> Vec<String> { cmp.descriptor_pool().files().map(|f| f.name().to_owned()).collect() };
        for o in &opens {
            let before = names(&cmp);
            let r = cmp.open_file(o).map(|_| ());
            let after = names(&cmp);
            let mut rs = BTreeSet::new();
            reach(&deps, o, &mut rs);
            let missing: BTreeSet<_> = rs.iter().filter(|x| !deps.contains_key(*x)).cloned().collect();
            let dups: BTreeSet<_> = rs.iter().filter(|x| deps.get(*x).is_some_and(|d| d.iter().collect::<BTreeSet<_>>().len() != d.len())).cloned().collect();
            let bad = !missing.is_empty() || !dups.is_empty() || has_cycle(&deps, o);
            c.is(r.is_err() == bad, &src, || format!("opening {o}: {:?}, but it is {}", r.as_ref().err().map(|e| e.to_string()), if bad { "faulty" } else { "fine" }));
            c.is(after.len() >= before.len() && after[..before.len()] == before[..], &src, || format!("opening {o} moved earlier files: {before:?} -> {after:?}"));
            let set: BTreeSet<_> = after.iter().cloned().collect();
            c.is(set.len() == after.len(), &src, || format!("a file appears twice: {after:?}"));
            for (i, f) in after.iter().enumerate() {
                for d in &deps[f] { c.is(after[..i].contains(d), &src, || format!("{f} does not come after its import {d}: {after:?}")) }
            }
            match r {
                Ok(()) => {
                    explicit.insert(o.clone());
                    let mut want: BTreeSet<String> = before.iter().cloned().collect();
                    want.extend(rs);
                    c.is(set == want, &src, || format!("after opening {o} the files are {set:?}, expected {want:?}"));
                }
                Err(e) => {
                    let m = e.to_string();
                    if resolution {
                        if let Some(cy) = m.strip_prefix("import cycle detected: ") {
                            let names: Vec<&str> = cy.split(" -> ").collect();
                            let ok = names.len() >= 2 && names[0] == o && names.windows(2).all(|w| deps.get(w[0]).is_some_and(|d| d.iter().any(|x| x == w[1])))
                                && names[..names.len() - 1].contains(names.last().unwrap()) && names[..names.len() - 1].iter().collect::<BTreeSet<_>>().len() == names.len() - 1;
                            c.is(ok, &src, || format!("the cycle named is not one: {m}"));
                        } else if let Some(x) = m.strip_prefix("import '").and_then(|x| x.strip_suffix("' not found")) {
                            let at = e.file().unwrap_or("?").to_owned();
                            c.is(missing.contains(x) && deps.get(&at).is_some_and(|d| d.iter().any(|y| y == x)), &src, || format!("{m} reported at {at}"));
                            c.is(e.is_file_not_found(), &src, || format!("{m} is not classified as file not found"));
                        } else if let Some(x) = m.strip_prefix("import '").and_then(|x| x.strip_suffix("' was listed twice")) {
                            let at = e.file().unwrap_or("?").to_owned();
                            c.is(deps.get(&at).is_some_and(|d| d.iter().filter(|y| *y == x).count() > 1), &src, || format!("{m} reported at {at}"));
                        } else {
                            let root_missing = !deps.contains_key(o);
                            c.is(root_missing && e.is_file_not_found(), &src, || format!("unexpected error {m}"));
                        }
                    }
                }
            }
            if !c.viols.is_empty() { return }
        }
        let loaded = names(&cmp);
        let log = g.opened.lock().unwrap().clone();
        for f in &loaded {
            // a file that was added is read at most once more than the failed attempts before it
            let k = log.iter().filter(|x| *x == f).count();
            let failed = opens.iter().filter(|o| !explicit.contains(*o)).count();
            c.is(k <= 1 + failed, &src, || format!("{f} was read {k} times"));
        }
        if resolution { continue }
        // a file explicitly opened at some point, before or after being imported, is no import
        let meta: BTreeMap<String, bool> = cmp.files().map(|f| (f.name().to_owned(), f.is_import())).collect();
        for f in &loaded {
            c.is(meta.get(f).copied() == Some(!explicit.contains(f)), &src, || format!("{f}: is_import {:?}, opened explicitly: {}", meta.get(f), explicit.contains(f)));
        }
        for k in 0..4 {
            let (imports, info) = (k & 1 == 1, k & 2 == 2);
            cmp.include_imports(imports).include_source_info(info);
            let want = FileDescriptorSet { file: loaded.iter().filter(|f| imports || explicit.contains(*f)).map(|f| {
                let mut d: FileDescriptorProto = protox_parse::parse(f, &srcs[f]).unwrap();
                if !info { d.source_code_info = None }
                d
            }).collect() };
            // options are resolved when a file is added: compare with their interpretation taken out
            let strip = |s: FileDescriptorSet| FileDescriptorSet { file: s.file.into_iter().map(|mut f| { for m in &mut f.message_type { for x in &mut m.field { if let Some(o) = &mut x.options { o.uninterpreted_option.clear(); o.deprecated = None } x.r#type = x.r#type.or(Some(5)); x.json_name = None; } } if let Some(s) = &mut f.source_code_info { s.location.retain(|l| l.path.len() != 7 && !(l.path.len() >= 6 && l.path[4] == 8)) } f }).collect() };
            let got = cmp.file_descriptor_set();
            let gs = strip(got.clone());
            let ws = strip(want);
            c.is(gs == ws, &src, || format!("include_imports {imports}, source info {info}: files {:?} expected {:?}{}", gs.file.iter().map(|f| f.name().to_owned()).collect::<Vec<_>>(), ws.file.iter().map(|f| f.name().to_owned()).collect::<Vec<_>>(), diff(&gs, &ws)));
            let enc = FileDescriptorSet::decode(cmp.encode_file_descriptor_set().as_slice());
            let enc = enc.unwrap_or_default();
            c.is(enc == got, &src, || format!("the encoded set differs (imports {imports}, info {info}){}", diff(&enc, &got)));
        }
    }
}
fn diff(a: &FileDescriptorSet, b: &FileDescriptorSet) -> String {
    for (x, y) in a.file.iter().zip(&b.file) { if x != y { return format!(": got {x:?} expected {y:?}") } }
    String::new()
}

// ------------------------------------------------------------------ C26

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault { Missing, Parse, Parse2, Utf8, TooLarge, Open, Io, IoNotFound, Custom, Check, None }
const FAULTS: [Fault; 11] = [Fault::Missing, Fault::Parse, Fault::Parse2, Fault::Utf8, Fault::TooLarge, Fault::Open, Fault::Io, Fault::IoNotFound, Fault::Custom, Fault::Check, Fault::None];
struct Deep { dir: PathBuf, depth: usize, fault: Fault, real: bool }
impl Deep {
    fn text(&self, i: usize) -> String {
        if i < self.depth { format!("// {i}\nimport \"d/f{}.proto\";\n", i + 1) }
        else { match self.fault { Fault::Parse => "message {".into(), Fault::Parse2 => "message M { int32 x = 0; }".into(), Fault::Check => "message M { optional Nope x = 1; }".into(), _ => String::new() } }
    }
}
impl FileResolver for Deep {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let Some(i) = name.strip_prefix("d/f").and_then(|x| x.strip_suffix(".proto")).and_then(|x| x.parse::<usize>().ok()) else { return Err(Error::file_not_found(name)) };
        if i == self.depth {
            match self.fault {
                Fault::Missing if !self.real => return Err(Error::file_not_found(name)),
                Fault::Io => return Err(io::Error::new(io::ErrorKind::Other, "boom").into()),
                Fault::IoNotFound => return Err(io::Error::new(io::ErrorKind::NotFound, "boom").into()),
                Fault::Custom => return Err(Error::new("boom")),
                _ => (),
            }
        }
        if self.real { File::open(name, &self.dir.join(name)) } else { File::from_source(name, &self.text(i)) }
    }
}
fn c26(c: &mut Ctx) {
    while c.time_left() {
        for fault in FAULTS {
            for depth in 0..5 {
                let real = c.rng.chance(1, 2) || matches!(fault, Fault::Utf8 | Fault::TooLarge | Fault::Open);
                let d = Deep { dir: c.dir.clone(), depth, fault, real };
                let _ = std::fs::remove_dir_all(c.dir.join("d"));
                std::fs::create_dir_all(c.dir.join("d")).unwrap();
                if real {
                    for i in 0..=depth {
                        let p = c.dir.join(format!("d/f{i}.proto"));
                        if i == depth {
                            match fault {
                                Fault::Missing => continue,
                                Fault::Utf8 => { std::fs::write(&p, b"// \xff\xfe\n").unwrap(); continue }
                                Fault::TooLarge => { std::fs::File::create(&p).unwrap().set_len((1 << 31) + c.rng.below(1000) as u64).unwrap(); continue }
                                Fault::Open => { std::fs::create_dir(&p).unwrap(); continue }
                                _ => (),
                            }
                        }
                        std::fs::write(&p, d.text(i)).unwrap();
                    }
                }
                let kind = c.rng.below(if real { 3 } else { 2 });
                let root = c.dir.clone();
                let src = format!("{fault:?} at import depth {depth}, files {}, resolver {}", if real { "on disk" } else { "in memory" }, ["custom", "chained", "include path"][kind]);
                c.case(&src);
                let keeps = !matches!(fault, Fault::Io | Fault::IoNotFound | Fault::Custom);
                let mut cmp = match kind {
                    0 => Compiler::with_file_resolver(d),
                    2 if keeps => Compiler::new([root]).unwrap(),
                    _ => { let mut ch = ChainFileResolver::new(); ch.add(GoogleFileResolver::new()); ch.add(d); ch.add(DescriptorSetFileResolver::new(Default::default())); Compiler::with_file_resolver(ch) }
                };
                let r = cmp.open_file("d/f0.proto").map(|_| ());
                let leaf = format!("d/f{depth}.proto");
                let Err(e) = r else { c.is(fault == Fault::None, &src, || "accepted".into()); continue };
                let got = (e.is_file_not_found(), e.is_parse(), e.is_io(), e.file().map(|s| s.to_owned()));
                let want = match fault {
                    Fault::None => { let m = e.to_string(); c.fail(&src, format!("rejected: {m}")); return }
                    Fault::Missing if depth == 0 => (true, false, false, None),
                    Fault::Missing => (true, false, false, Some(format!("d/f{}.proto", depth - 1))),
                    Fault::Parse | Fault::Parse2 | Fault::Utf8 | Fault::TooLarge => (false, true, false, Some(leaf.clone())),
                    Fault::Open => (false, false, true, Some(leaf.clone())),
                    Fault::Io | Fault::IoNotFound => (false, false, true, None),
                    Fault::Custom => (false, false, false, None),
                    Fault::Check => (false, false, false, Some(leaf.clone())),
                };
                c.is(got == want, &src, || format!("(not found, parse, io, file) = {got:?}, expected {want:?}: {e}"));
                let m = e.to_string();
                let msg = match fault {
                    Fault::Missing if depth == 0 => m.contains("is not in any include path"),
                    Fault::Missing => m == format!("import '{leaf}' not found"),
                    Fault::Utf8 => m.contains("is not valid utf-8"), Fault::TooLarge => m.contains("is too large"), Fault::Open => m.contains("error opening file"),
                    Fault::Io | Fault::IoNotFound | Fault::Custom => m == "boom",
                    _ => true,
                };
                c.is(msg, &src, || format!("message: {m}"));
                let _ = format!("{e:?}");
                if !c.viols.is_empty() { return }
            }
        }
    }
}
