//! Bounded stand-in for the protox crate: generated paths, resolver chains and import graphs run
//! through the real code and compared with independent expectations. All files live in a scratch
//! directory that is removed at the end.
mod checks;

use std::collections::HashSet;
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub struct Viol { pub src: String, pub why: String }
pub struct Ctx {
    pub id: String, pub rng: Rng, pub start: Instant, pub budget: Duration, pub dir: PathBuf,
    pub cases: u64, pub distinct: HashSet<u64>, pub samples: Vec<String>, pub viols: Vec<Viol>, pub notes: Vec<String>,
}
impl Ctx {
    pub fn case(&mut self, src: &str) {
        self.cases += 1;
        let mut h = 0xcbf29ce484222325u64;
        for b in src.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
        if self.distinct.insert(h) && (self.samples.len() < 3 || (self.distinct.len().is_power_of_two() && self.samples.len() < 12)) {
            self.samples.push(src.chars().take(600).collect())
        }
    }
    pub fn fail(&mut self, src: &str, why: impl Into<String>) {
        if self.viols.len() < 3 { self.viols.push(Viol { src: src.to_owned(), why: why.into() }) }
    }
    pub fn time_left(&self) -> bool { self.viols.is_empty() && self.start.elapsed() < self.budget }
    pub fn is(&mut self, ok: bool, src: &str, why: impl FnOnce() -> String) { if !ok { let w = why(); self.fail(src, w) } }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) != Some("check") { eprintln!("usage: protoxh check ID --seed N --ms M --out FILE"); std::process::exit(2) }
    let (mut seed, mut ms, mut out) = (1u64, 4000u64, None);
    let mut i = 3;
    while i + 1 < a.len() {
        match a[i].as_str() { "--seed" => seed = a[i + 1].parse().unwrap(), "--ms" => ms = a[i + 1].parse().unwrap(), "--out" => out = Some(a[i + 1].clone()), _ => () }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| ()));
    let dir = std::env::temp_dir().join(format!("protoxh-{}-{}", std::process::id(), seed));
    std::fs::create_dir_all(&dir).unwrap();
    let mut c = Ctx { id: a[2].clone(), rng: Rng(seed), start: Instant::now(), budget: Duration::from_millis(ms), dir: dir.clone(), cases: 0, distinct: HashSet::new(), samples: vec![], viols: vec![], notes: vec![] };
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| checks::check(&mut c)));
        if let Err(p) = r {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let s = c.samples.last().cloned().unwrap_or_default();
            c.fail(&format!("(last sampled case) {s}"), format!("panic: {m}"));
        }
        c
    }).unwrap();
    let c = h.join().expect("harness panicked");
    std::fs::remove_dir_all(&dir).unwrap();
    let v: Vec<_> = c.viols.iter().map(|v| serde_json::json!({"input": v.src, "why": v.why})).collect();
    let j = serde_json::json!({"property": c.id, "cases": c.cases, "distinct": c.distinct.len(), "samples": c.samples, "violations": v, "notes": c.notes, "wall_s": c.start.elapsed().as_secs_f64()});
    let t = serde_json::to_string_pretty(&j).unwrap();
    match out { Some(o) => std::fs::write(o, t).unwrap(), None => println!("{t}") }
}
