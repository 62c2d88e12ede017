#!/usr/bin/env python3
"""Run each planted bug's check against a scratch copy of /repo with the bug applied, N at a time.
usage: seedcheck.py [-j N] [-p PROP] [NAME..]; logs in /tmp/sk.NAME"""
import glob, json, os, queue, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
N, P = 2, None
if a[:1] == ['-j']: N = int(a[1]); a = a[2:]
if a[:1] == ['-p']: P = a[1]; a = a[2:]
names = a or sorted(os.path.basename(d) for d in glob.glob('/verif/seeded/*'))
q = queue.Queue()


def setup(i):
    w = f'/tmp/skw{i}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo', f'{w}/repo'], check=True)
    subprocess.run(['rsync', '-a', '--exclude=.git', '--exclude=seeded', '/verif/', f'{w}/verif/'] if shutil.which('rsync') else ['cp', '-a', '/verif', f'{w}/verif'], check=True)
    for f in ['protoxh/Cargo.toml', 'replay/Cargo.toml']:
        t = open(f'{w}/verif/{f}').read()
        open(f'{w}/verif/{f}', 'w').write(t.replace('"/repo/', f'"{w}/repo/'))
    q.put(w)


def run(n):
    w = q.get()
    try:
        s = f'/verif/seeded/{n}'
        p = P or json.load(open(f'{s}/meta.json'))['property']
        subprocess.run(['git', '-C', f'{w}/repo', 'apply', f'{s}/patch.diff'], check=True)
        env = dict(os.environ, VX_REPO=f'{w}/repo', VERIF_SEED='1', VERIF_TIER='quick')
        try:
            r = subprocess.run(['python3', 'tools/check.py', p], cwd=f'{w}/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
        subprocess.run(['git', '-C', f'{w}/repo', 'checkout', '-q', '--', '.'], check=True)
        open(f'/tmp/sk.{n}', 'w').write(out)
        ls = [l[:200] for l in out.splitlines() if re.match(r'(VIOLATION|FAILED|INPUT|UNDECIDED|note)', l)]
        return f'{n} ({p}): rc {rc}\n   ' + '\n   '.join(ls[:7])
    finally:
        q.put(w)


for i in range(N): setup(i)
with ThreadPoolExecutor(N) as ex:
    for r in ex.map(run, names): print(r, flush=True)
for i in range(N): shutil.rmtree(f'/tmp/skw{i}', ignore_errors=True)
