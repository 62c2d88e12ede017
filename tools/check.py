#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree.

1. extract the code from /repo, weave the contracts in, run the verifier (vw.py);
2. run the bounded stand-in (harness) for the parts no discharged obligation covers, and to
   search a failing input when an obligation fails;
3. write evidence/ID.json; exit 0, or exit 1 with a VIOLATION line.
"""
import hashlib, json, os, re, subprocess, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vw

V = vw.V
ID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--tier' in sys.argv:
    TIER = sys.argv[sys.argv.index('--tier') + 1]
SEED = int(os.environ.get('VERIF_SEED', '1'))
T0 = time.time()
REPLAYS = V + '/build/replays'
LIMIT = 420       # seconds for the verifier: what it has not decided by then is undecided
PANIC = ('possible arithmetic', 'precondition not', 'possible division', 'index out', 'possible bit shift', 'decreases not satisfied')


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo(d):
    p = subprocess.run(['cargo', 'build', '--offline'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-4000:])
        log('build failed in', d)
        sys.exit(2)


PROTOX = vw.PROTOX


def harness_bin():
    if ID in PROTOX:
        import overlay
        return overlay.build()
    cargo(V + '/replay')
    return V + '/replay/target/debug/vreplay'


def harness(bin_, ms, seed, n=1, pid=ID):
    """run n instances in parallel with different seeds -> list of results"""
    os.makedirs(REPLAYS, exist_ok=True)
    ps = []
    for k in range(n):
        out = f'{REPLAYS}/{pid}.{os.getpid()}.{k}.json'
        cur = f'{REPLAYS}/{pid}.{os.getpid()}.{k}.cur'
        ps.append((out, cur, subprocess.Popen([bin_, 'check', pid, '--seed', str(seed + 1000 * k), '--ms', str(ms), '--out', out],
                                              stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=dict(os.environ, VX_CUR=cur))))
    res = []
    end = time.time() + ms / 1000 + 120
    for out, cur, p in ps:
        try:
            err = p.communicate(timeout=max(1, end - time.time()))[1]
            why = f'ended with status {p.returncode}'
        except subprocess.TimeoutExpired:
            p.kill()
            err, why = p.communicate()[1], 'did not end'
        if p.returncode == 0 and os.path.exists(out):
            res.append(json.load(open(out)))
            os.remove(out)
        else:
            log('harness', why, err[-2000:])
            res.append({'cases': 0, 'distinct': 0, 'samples': [], 'violations': ended(bin_, cur), 'notes': ['harness ' + why]})
        if os.path.exists(cur):
            os.remove(cur)
    return res


def ended(bin_, cur):
    """the harness process itself ended or hung: is it the input it was running that does so?"""
    if not os.path.exists(cur):
        return []
    b = open(cur, 'rb').read()
    src = b[8:8 + int.from_bytes(b[:8], 'little')]
    f = cur + '.in'
    open(f, 'wb').write(src)
    why = None
    try:
        p = subprocess.run([bin_, 'small', f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        if p.returncode != 0:
            why = f'running this input ends the process (status {p.returncode})'
    except subprocess.TimeoutExpired:
        why = 'running this input does not end within 60 s'
    os.remove(f)
    return [{'input': src.decode('utf-8', 'replace'), 'why': why}] if why else []


def known():
    """entries of the known-findings file for this property"""
    out = []
    f = V + '/known-findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == ID:
                out.append((m.group(2), m.group(3)))
    return out


def key(v):
    return hashlib.sha256((v['input']).encode()).hexdigest()[:16]


def in_scope(f):
    return vw.in_scope(f, ID)


def main():
    # the verifier and the harness run side by side
    box = {}
    # quick: every obligation of this property and every untagged one of the functions that
    # carry it. Thorough, and C01 (every obligation may stand for a panic): all obligations.
    pid = None if TIER == 'thorough' or ID in ('C01', 'C02') else ID
    w = vw.Weaver(pid=pid, group='px' if ID in PROTOX else 'parse')
    fns = w.allfns()
    scope = {p: f for p, f in fns.items() if in_scope(f)}
    modof = {}
    for m, (u, it, fs) in w.con.items():
        for p in fs:
            modof[p] = m
    mods = sorted({modof[p] for p in scope} | {'vx'})

    def verifier():
        try:
            box['v'] = vw.run(mods, w=w, limit=LIMIT) if scope else None
        except BaseException as e:      # reported by the main thread
            import traceback
            box['verr'] = traceback.format_exc()

    def prober():
        try:
            box['probe'] = vw.probe(mods, None, limit=200, pid=pid) if scope else {}
        except BaseException:
            box['probe'] = {}

    t = threading.Thread(target=verifier)
    t.start()
    t2 = threading.Thread(target=prober)
    t2.start()
    hb = harness_bin()
    ms = int(os.environ.get('VERIF_MS', '5000' if TIER == 'quick' else '120000'))
    hres = harness(hb, ms, SEED, 1 if TIER == 'quick' else 4)
    t.join()
    t2.join()
    if 'verr' in box:
        # extraction itself failed: nothing is decided by proof on this tree
        log(box['verr'])
        v = None
    else:
        v = box['v']

    # ---- what the verifier says
    failed, undecided, other = [], [], []
    if v is not None:
        contracted_bad = set(v['opaque_drift']) | set(v['bare'])
        # a contract for a family of generated functions has become one per pattern
        fns = v['weaver'].allfns()
        gone = [p for p in scope if p not in fns and not any(q.startswith(p + '__k') for q in fns)]
        undecided += [(p, 'pattern not found in the source') for p in gone]
        scope = {p: f for p, f in fns.items() if in_scope(f)}
        for p in sorted(scope):
            if p in v['missing']:
                undecided.append((p, 'function not found in the source'))
            elif p in v['opaque_drift']:
                undecided.append((p, v['opaque_drift'][p]))
        if v['front']:
            undecided.append(('*', 'front end: ' + v['front'][0][:300]))
        if v['timed_out']:
            undecided += [(p, 'verifier time limit') for p in sorted(scope) if p not in v['fails']]
        for fn, l in v['fails'].items():
            f = fns.get(fn)
            for x in l:
                rel = False
                c = x['clause']
                if c and c['tags']:
                    rel = ID in c['tags']
                elif x['message'].startswith(PANIC):
                    rel = ID == 'C01' and f is not None
                elif f is not None:
                    # a failed auxiliary clause belongs to no property: the bounded stand-in decides
                    if in_scope(f):
                        undecided.append((fn, 'auxiliary obligation failed: ' + x['message']))
                    continue
                else:
                    rel = False
                if not rel:
                    other.append((fn, x['message']))
                    continue
                if x['rlimit']:
                    undecided.append((fn, 'resource limit'))
                    continue
                m = v['weaver'].meta['fns'].get(fn)
                calls = set(m['calls']) if m else set()
                weak = calls & {q.split('::')[-1] for q in v['uncontracted']}
                weak |= calls & {q.split('::')[-1] for q in contracted_bad}
                if weak:
                    undecided.append((fn, 'calls code without a usable contract: ' + ', '.join(sorted(weak))))
                    continue
                failed.append((fn, x))
        pr = box.get('probe', {})
        if v['iterations'] > 1 or not pr.get('refuted'):
            pr.pop('vacuous', None)     # the probed text is not the verified one
        for p in pr.get('vacuous', []):
            undecided.append((p, 'vacuous: the code behind its preconditions is unreachable'))
    elif scope:
        undecided.append(('*', 'extraction failed'))

    # ---- bounded search
    kn = known()
    kkeys = {k for k, _ in kn}
    viols = [x for r in hres for x in r['violations']]
    if not [x for x in viols if key(x) not in kkeys] and failed:
        log('obligation failed; searching for a failing input')
        more = harness(hb, 45000 if TIER == 'quick' else 180000, SEED + 17, 6)
        hres += more
        viols = [x for r in hres for x in r['violations']]
        if not [x for x in viols if key(x) not in kkeys]:
            # an obligation may state several properties at once: whose input fails?
            keep = []
            found = {}
            for fn, x in failed:
                others = [t for t in x['clause']['tags'] if t != ID and t not in PROTOX] if x['clause'] else []
                who = None
                for t in others:
                    if t not in found:
                        found[t] = [y for r in harness(hb, 12000, SEED + 29, 4, t) for y in r['violations']]
                    if found[t]:
                        who = t
                        break
                if who and ID not in PROTOX:
                    other.append((fn, x['message'] + f' (breaks {who}: {found[who][0]["input"][:200]!r}; no input breaks {ID})'))
                else:
                    keep.append((fn, x))
            failed = keep
    elif not viols and undecided and TIER == 'quick':
        more = harness(hb, 15000, SEED + 17, 4)
        hres += more
        viols = [x for r in hres for x in r['violations']]
    new = [x for x in viols if key(x) not in kkeys]

    # ---- evidence
    man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']} if os.path.exists(V + '/MANIFEST.json') else {}
    level = man.get(ID, {}).get('level', 'other')
    cov = {}
    assumptions = []
    if v is not None:
        cov.update(vw.coverage(v, scope, ID, failed, undecided, box.get('probe')))
        assumptions = cov.pop('assumptions')
    cov['bounded_stand_in'] = {
        'what': 'enumerated and generated inputs run against the real code and compared with an independent oracle '
                '(bounded, never counted as proved)',
        'tool': os.path.relpath(hb, V), 'runs': len(hres), 'seeds': 'VERIF_SEED-derived',
    }
    cov['evaluations'] = sum(r['cases'] for r in hres)
    cov['distinct_nontrivial'] = max(r['distinct'] for r in hres)
    cov['rule'] = 'a case is one input run through the real code; non-trivial when its (input, outcome) pair is new in this run'
    cov['samples'] = hres[0]['samples'][:5]
    cov['notes'] = hres[0].get('notes', [])
    ev = {'property': ID, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - T0, 2),
          'violations': len(new) + (1 if failed and not new else 0)}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{ID}.json', 'w'), indent=1)

    for k, txt in kn:
        print(f'KNOWN-FINDING: property={ID} {txt}')
    for p, why in undecided:
        log('UNDECIDED by proof (bounded stand-in used):', p, '--', why)
    for fn, msg in other:
        log('note: obligation of another property failed:', fn, msg)
    if not new and not failed:
        log(f'{ID} held: wall {time.time() - T0:.1f}s')
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    path = f'{REPLAYS}/{ID}.txt'
    with open(path, 'w') as f:
        f.write(f'property {ID}\n')
        for fn, x in failed:
            f.write(f'\nfailed obligation: {x["message"]}\nfunction: {fn}\n')
            if x['clause']:
                f.write(f'clause: {x["clause"]["kind"]} of {x["clause"]["fn"]}: {x["clause"]["text"]}\n')
            f.write(x['rendered'] + '\n')
        for x in new[:5]:
            f.write(f'\nfailing input (run on the real code):\n{x["input"]}\nwhy: {x["why"]}\n')
        f.write(f'\nreplay: put the input in a file F and run {hb} parse F\n')
    for fn, x in failed:
        log('FAILED', fn, x['message'], (x['clause'] or {}).get('text', ''))
    for x in new[:3]:
        log('INPUT', repr(x['input'][:400]), '=>', x['why'][:400])
    print(f'VIOLATION property={ID} replay={path}' + ('' if new else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main())
