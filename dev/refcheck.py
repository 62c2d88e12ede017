#!/usr/bin/env python3
"""Behaviour-preserving edits (dev/reflist.py): which obligations fail, which functions fall back to the bounded check?
usage: refcheck.py [-j N] [NAME..]   (dev-time tool)"""
import os, queue, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
N = 2
if a[:1] == ['-j']: N = int(a[1]); a = a[2:]
REFS = []
PP, PX = 'protox-parse/src/', 'protox/src/'
M, L, G, A, C = PP + 'parse/mod.rs', PP + 'lex/mod.rs', PP + 'generate/mod.rs', PP + 'ast/mod.rs', PX + 'compile/mod.rs'
def R(name, *edits): REFS.append((name, edits))
exec(open(os.path.dirname(os.path.abspath(__file__)) + '/reflist.py').read())
refs = [r for r in REFS if not a or r[0] in a]
q = queue.Queue()
CODE = '''
import sys, json; sys.path.insert(0, 'tools')
import vw
r = vw.run(None)
for k, v in r['opaque'].items():
    if v not in ('no contract',): print('  undecided', k, v[:150].replace(chr(10), ' '))
for k in sorted(r.get('uncontracted') or []):
    if k in sys.argv[1:]: pass
for f, ds in r['fails'].items():
    for d in ds:
        c = d['clause'] or {}
        print('  FAIL', f, d['message'], c.get('tags'), (c.get('text') or '')[:110], 'RLIMIT' if d['rlimit'] else '')
for f in r['front'][:2]: print('  FRONT', f[:300])
print('  verified', r['verified'], 'errors', r['errors'], round(r['wall_s']))
'''


def setup(i):
    w = f'/tmp/rfw{i}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo', f'{w}/repo'], check=True)
    subprocess.run(['cp', '-a', '/verif', f'{w}/verif'], check=True)
    q.put(w)


def run(r):
    n, edits = r
    w = q.get()
    try:
        for f, old, new in edits:
            t = open(f'{w}/repo/{f}').read()
            if t.count(old) < 1: return f'{n}: no match of {old[:60]!r}'
            open(f'{w}/repo/{f}', 'w').write(t.replace(old, new))
        px = edits[0][0].startswith(PX)
        out = ''
        if not px:
            b = subprocess.run(['cargo', 'test', '--offline', '-q', '-p', 'protox-parse', '--lib'], cwd=f'{w}/repo', capture_output=True, text=True)
            if b.returncode: out += '  TESTS FAIL ' + (b.stdout + b.stderr)[-600:] + '\n'
        p = subprocess.run(['python3', '-c', CODE], cwd=f'{w}/verif', env=dict(os.environ, VX_REPO=f'{w}/repo', VXG='px' if px else 'parse'), capture_output=True, text=True)
        out += p.stdout + (p.stderr[-500:] if p.returncode else '')
        return f'{n}:\n{out}'
    finally:
        subprocess.run(['git', '-C', f'{w}/repo', 'checkout', '-q', '--', '.'], check=True)
        q.put(w)


for i in range(N): setup(i)
with ThreadPoolExecutor(N) as ex:
    for r in ex.map(run, refs): print(r, flush=True)
for i in range(N): shutil.rmtree(f'/tmp/rfw{i}', ignore_errors=True)
