//! Bounded stand-in and replayer: parses texts with the real crate and compares with an independent expectation.
mod gen;
mod checks;
mod proj;

use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use prost_types::FileDescriptorProto;

pub struct ErrInfo { pub file: String, pub display: String, pub count: usize, pub span: Option<std::ops::Range<usize>> }
pub enum Out { Ok(Box<FileDescriptorProto>), Err(ErrInfo), Panic(String) }
impl Out {
    pub fn ok(self) -> Option<FileDescriptorProto> { if let Out::Ok(f) = self { Some(*f) } else { None } }
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok(_)) }
    pub fn is_err(&self) -> bool { matches!(self, Out::Err(_)) }
    pub fn text(&self) -> String {
        match self { Out::Ok(f) => format!("accepted: {:?}", **f), Out::Err(e) => format!("rejected: {}", e.display), Out::Panic(m) => format!("PANIC: {m}") }
    }
}

/// The input being run, for the case that running it ends this process.
fn current(src: &str) {
    use std::os::unix::fs::FileExt;
    static F: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    if let Some(f) = F.get_or_init(|| std::env::var_os("VX_CUR").and_then(|p| std::fs::File::create(p).ok())) {
        let mut b = (src.len() as u64).to_le_bytes().to_vec();
        b.extend_from_slice(src.as_bytes());
        let _ = f.write_all_at(&b, 0);
    }
}

pub fn run(name: &str, src: &str) -> Out {
    current(src);
    let r = catch_unwind(AssertUnwindSafe(|| match protox_parse::parse(name, src) {
        Ok(f) => Out::Ok(Box::new(f)),
        Err(e) => {
            let d: &dyn miette::Diagnostic = &e;
            let count = 1 + d.related().map_or(0, |r| r.map(|x| x.to_string().len().min(1)).sum::<usize>());
            let _ = format!("{e:?}");
            let _ = d.help().map(|h| h.to_string());
            let _ = d.labels().map(|l| l.count());
            Out::Err(ErrInfo { file: e.file().to_owned(), display: e.to_string(), count, span: e.span() })
        }
    }));
    match r {
        Ok(o) => o,
        Err(p) => Out::Panic(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    }
}

pub struct Viol { pub src: String, pub why: String }

pub struct Ctx {
    pub id: String, pub seed: u64, pub start: Instant, pub budget: Duration,
    pub cases: u64, pub distinct: HashSet<u64>, pub samples: Vec<String>, pub viols: Vec<Viol>, pub notes: Vec<String>,
}
impl Ctx {
    pub fn case(&mut self, src: &str) {
        self.cases += 1;
        let mut h = 0xcbf29ce484222325u64;
        for b in src.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
        if self.distinct.insert(h) && (self.samples.len() < 3 || (self.distinct.len().is_power_of_two() && self.samples.len() < 12)) {
            let mut s: String = src.chars().take(600).collect();
            if s.len() < src.len() { s.push_str(" …") }
            self.samples.push(s)
        }
    }
    pub fn fail(&mut self, src: &str, why: impl Into<String>) {
        if self.viols.len() < 3 { self.viols.push(Viol { src: src.to_owned(), why: why.into() }) }
    }
    pub fn time_left(&self) -> bool { self.viols.is_empty() && self.start.elapsed() < self.budget }
    /// parse, counting the case; a panic is always a violation
    pub fn parse(&mut self, src: &str) -> Out {
        self.case(src);
        let o = run("test.proto", src);
        if let Out::Panic(m) = &o { self.fail(src, format!("parsing panicked: {m}")) }
        o
    }
    pub fn expect_ok(&mut self, src: &str, what: &str) -> Option<FileDescriptorProto> {
        match self.parse(src) { Out::Ok(f) => Some(*f), o => { if o.is_err() { self.fail(src, format!("must be accepted ({what}), but is {}", o.text())) } None } }
    }
    pub fn expect_err(&mut self, src: &str, what: &str) {
        let o = self.parse(src);
        if o.is_ok() { self.fail(src, format!("must be rejected ({what}), but is {}", o.text())) }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, src: &str, what: &str, got: &T, want: &T) {
        if got != want { self.fail(src, format!("{what}: got {got:?}, expected {want:?}")) }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a[2].clone();
            let mut seed = 1; let mut ms = 4000; let mut out = None;
            let mut i = 3;
            while i + 1 < a.len() {
                match a[i].as_str() { "--seed" => seed = a[i + 1].parse().unwrap(), "--ms" => ms = a[i + 1].parse().unwrap(), "--out" => out = Some(a[i + 1].clone()), _ => () }
                i += 2;
            }
            std::panic::set_hook(Box::new(|_| ()));
            let mut c = Ctx { id: id.clone(), seed, start: Instant::now(), budget: Duration::from_millis(ms), cases: 0, distinct: HashSet::new(), samples: vec![], viols: vec![], notes: vec![] };
            // the check itself runs with a large stack; the code under test is also run on small ones in C01
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { checks::check(&mut c); c }).unwrap();
            let c = h.join().expect("harness panicked");
            let v: Vec<_> = c.viols.iter().map(|v| serde_json::json!({"input": v.src, "why": v.why})).collect();
            let j = serde_json::json!({"property": c.id, "cases": c.cases, "distinct": c.distinct.len(), "samples": c.samples, "violations": v, "notes": c.notes, "wall_s": c.start.elapsed().as_secs_f64()});
            let t = serde_json::to_string_pretty(&j).unwrap();
            match out { Some(o) => std::fs::write(o, t).unwrap(), None => println!("{t}") }
        }
        Some("parse") => {
            let src = std::fs::read_to_string(&a[2]).unwrap();
            println!("{}", run("test.proto", &src).text());
        }
        // run on a thread with the default 2 MiB stack: used by C01 in a child process
        Some("small") => {
            let src = std::fs::read_to_string(&a[2]).unwrap();
            let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
                let o = run("test.proto", &src);
                match o { Out::Panic(m) => { eprintln!("PANIC: {m}"); 3 } _ => 0 }
            }).unwrap().join().unwrap_or(4);
            std::process::exit(t);
        }
        Some("gen") => { let d = gen::Em::new(a[2].parse().unwrap()).file("test.proto"); std::io::stdout().write_all(d.src.as_bytes()).unwrap() }
        // development only: print the expected descriptor (encoded) of a generated document
        Some("genfd") => {
            use prost::Message;
            let d = gen::Em::new(a[2].parse().unwrap()).file("test.proto");
            std::io::stdout().write_all(&d.fd.encode_to_vec()).unwrap()
        }
        _ => { eprintln!("usage: vreplay check ID [--seed N] [--ms M] [--out FILE] | parse FILE | small FILE | gen SEED"); std::process::exit(2) }
    }
}
