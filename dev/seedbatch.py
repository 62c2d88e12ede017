#!/usr/bin/env python3
"""Plant the bugs listed below: write seeded/<name>/ for each and confirm it in a scratch copy.
usage: seedbatch.py [NAME..]   (dev-time tool; no check reads it)"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
PP = 'protox-parse/src/'
PX = 'protox/src/'
PRE = r'''
#![allow(dead_code, unused)]
use protox_parse::parse;
use prost_types::*;
fn fail(m: String) -> ! { eprintln!("{m}"); std::process::exit(1) }
fn ok(s: &str) -> FileDescriptorProto { match parse("a.proto", s) { Ok(f) => f, Err(e) => fail(format!("rejected: {e:?}")) } }
fn bad(s: &str) { if let Ok(f) = parse("a.proto", s) { fail(format!("accepted: {f:?}")) } }
fn eq<A: PartialEq<B> + std::fmt::Debug, B: std::fmt::Debug>(a: A, b: B) { if !(a == b) { fail(format!("got {a:?}, want {b:?}")) } }
/// the source texts of the locations with this path
fn at(f: &FileDescriptorProto, src: &str, path: &[i32]) -> Vec<String> {
    let l: Vec<&str> = src.split('\n').collect();
    let off = |line: i32, col: i32| l[..line as usize].iter().map(|s| s.len() + 1).sum::<usize>() + col as usize;
    f.source_code_info.as_ref().unwrap().location.iter().filter(|x| x.path == path).map(|x| match x.span[..] {
        [a, b, c] => src[off(a, b)..off(a, c)].to_string(), [a, b, c, d] => src[off(a, b)..off(c, d)].to_string(), _ => "?".into() }).collect()
}
fn loc<'a>(f: &'a FileDescriptorProto, path: &[i32]) -> &'a source_code_info::Location {
    f.source_code_info.as_ref().unwrap().location.iter().find(|x| x.path == path).unwrap_or_else(|| fail(format!("no location {path:?}")))
}
'''
PREX = r'''
#![allow(dead_code, unused)]
use protox::{Compiler, Error, file::*};
use prost_types::*;
use std::path::{Path, PathBuf};
use std::collections::BTreeMap;
fn fail(m: String) -> ! { eprintln!("{m}"); std::process::exit(1) }
fn eq<A: PartialEq<B> + std::fmt::Debug, B: std::fmt::Debug>(a: A, b: B) { if !(a == b) { fail(format!("got {a:?}, want {b:?}")) } }
struct Mem(BTreeMap<&'static str, &'static str>);
impl FileResolver for Mem {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.0.get(name) { Some(s) => File::from_source(name, s), None => Err(Error::file_not_found(name)) }
    }
}
fn mem(fs: &[(&'static str, &'static str)]) -> Compiler { Compiler::with_file_resolver(Mem(fs.iter().copied().collect())) }
fn names(c: &Compiler) -> Vec<String> { c.file_descriptor_set().file.iter().map(|f| f.name().to_string()).collect() }
'''
SEEDS = []
exec(open(os.path.dirname(os.path.abspath(__file__)) + '/seedlist.py').read())


def one(s):
    n = s['name']
    sc = f'/tmp/sb_{n}'
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', sc], check=True)
    try:
        for f, old, new in s['edits']:
            t = open(f'{sc}/{f}').read()
            if t.count(old) != s.get('count', 1):
                return f'{n}: {t.count(old)} matches of {old[:50]!r}'
            open(f'{sc}/{f}', 'w').write(t.replace(old, new))
        px = s['edits'][0][0].startswith('protox/')
        d = {'needs': s['needs'], 'what_it_breaks': s['breaks'], 'demo': (PREX if px else PRE) + 'fn main() {\n' + s['demo'] + '\n}\n', 'sh': 'demo_px.sh' if px else 'demo.sh'}
        subprocess.run(['python3', '/verif/tools/mkseed.py', n, s['prop']], input=json.dumps(d), text=True, check=True, env=dict(os.environ, SCRATCH=sc))
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    p = subprocess.run(['bash', '/verif/tools/seedtest.sh', n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.stdout.strip()[-1500:]


todo = [s for s in SEEDS if not sys.argv[1:] or s['name'] in sys.argv[1:]]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, todo):
        print(r, flush=True)
