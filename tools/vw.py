#!/usr/bin/env python3
"""Weave the contracts in /verif/contracts into the code extracted from /repo by vx, run
Verus on the result, and map every diagnostic back to a function and a contract clause.

    vw.py build            write build/verus/main.rs only
    vw.py verify [MOD..]   verify (all modules by default) and print a summary
    vw.py record           rewrite contracts/names.json (binding names, used to follow renames)
"""
import copy, glob, json, os, re, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
BUILD = os.environ.get('VX_BUILD', V + '/build/verus')
VX = V + '/vx/target/debug/vx'
CON = V + '/contracts'
P = REPO + '/protox-parse/src'


def prost_src():
    return sorted(glob.glob('/root/.cargo/registry/src/*/prost-types-0.13.5/src/protobuf.rs') +
                  glob.glob(os.path.expanduser('~/.cargo/registry/src/*/prost-types-0.13.5/src/protobuf.rs')))[0]


MODULES = json.load(open(CON + '/modules.json'))
PROTOX = {'C22', 'C23', 'C24', 'C25', 'C26'}     # decided on the protox crate, the others on protox-parse


def modules_of(group):
    return [m for m in MODULES if group == 'all' or m.get('group', 'parse') in (group, 'both')]


# ------------------------------------------------------------------ sidecars

class Ghost(list):
    tags = ()


class Clause:
    def __init__(self, kind, tags, text):
        self.kind, self.tags, self.text = kind, tags, text


class Fn:
    def __init__(self, path):
        self.path = path
        self.props = []
        self.mode = 'proof'
        self.opts = set()
        self.attrs = []
        self.spec = []        # Clause
        self.loops = {}       # n -> [Clause]
        self.ghost = []       # (where, text)
        self.closures = {}    # n -> text
        self.why = ''


def parse_sidecar(path):
    """-> (uses, items, {fn path: Fn})"""
    uses, items, fns = [], [], {}
    cur = None
    section = None
    target = None      # list to which '- ' clauses go
    mode = None        # 'use' | 'items' | 'clauses' | 'ghost' | 'closure'
    buf = None
    # '@def NAME' … '@end' defines clauses that '@put NAME a b' repeats, with %1 and %2 replaced
    defs, lines, cur_def = {}, [], None
    for ln, line in enumerate(open(path).read().split('\n'), 1):
        w = line.split()
        if w[:1] == ['@def']:
            cur_def = defs.setdefault(w[1], [])
        elif cur_def is not None:
            if w[:1] == ['@end']:
                cur_def = None
            else:
                cur_def.append(line)
        elif w[:1] == ['@put']:
            for x in defs[w[1]]:
                for i, a in enumerate(line.split(None, 2)[2].split(' ; ') if len(w) > 2 else [], 1):
                    x = x.replace(f'%{i}', a.strip())
                lines.append((ln, x))
        else:
            lines.append((ln, line))
    for ln, line in lines:
        s = line.strip()
        if s.startswith('@use'):
            mode = 'use'; continue
        if s.startswith('@items'):
            mode = 'items'; continue
        m = re.match(r'@fn\s+(.+?)\s*(\[[^\]]*\])?$', s)
        if m:
            cur = Fn(m.group(1))
            if m.group(2):
                cur.props = [x for x in re.split(r'[,\s]+', m.group(2)[1:-1]) if x]
            if cur.path in fns:
                raise SystemExit(f'{path}:{ln}: duplicate {cur.path}')
            fns[cur.path] = cur
            mode = 'clauses'; target = cur.spec; section = None
            continue
        if s.startswith('@external'):
            cur.mode = 'external'; cur.why = s[len('@external'):].strip(); continue
        if s.startswith('@opt '):
            cur.opts |= set(s.split()[1:]); continue
        if s.startswith('@attr '):
            cur.attrs.append(s[6:]); continue
        m = re.match(r'@loop\s+(\d+)$', s)
        if m:
            target = cur.loops.setdefault(int(m.group(1)), [])
            mode = 'clauses'; section = None; continue
        m = re.match(r'@ghost\s+(.+?)\s*(\[C[0-9C,\s]*\])?$', s)
        if m:
            buf = Ghost()
            if m.group(2):
                buf.tags = [x for x in re.split(r'[,\s]+', m.group(2)[1:-1]) if x]
            cur.ghost.append((m.group(1).strip(), buf)); mode = 'ghost'
            if m.group(1).strip() == 'end':
                cur.opts.add('tail')
            continue
        m = re.match(r'@closure\s+(\d+)$', s)
        if m:
            buf = []
            cur.closures[int(m.group(1))] = buf; mode = 'closure'; continue
        if mode == 'use':
            uses.append(line)
        elif mode == 'items':
            items.append(line)
        elif mode in ('ghost', 'closure'):
            buf.append(line)
        elif mode == 'clauses':
            if not s or s.startswith('//'):
                continue
            m = re.match(r'(requires|ensures|decreases|invariant_except_break|invariant|recommends)\s*:?\s*(.*)$', s)
            if m:
                section = m.group(1)
                if m.group(2):
                    target.append(Clause(section, [], m.group(2)))
                continue
            m = re.match(r'-\s+(\[[^\]]*\])?\s*(.*)$', s)
            if m and section:
                tags = [x for x in re.split(r'[,\s]+', (m.group(1) or '[]')[1:-1]) if x]
                target.append(Clause(section, tags, m.group(2)))
            elif section and target:
                target[-1].text += '\n        ' + s
            else:
                raise SystemExit(f'{path}:{ln}: cannot parse: {s}')
    return uses, items, fns


def load_contracts():
    out = {}
    for m in MODULES:
        n = m['name']
        f = f'{CON}/{n}.vx'
        out[n] = parse_sidecar(f) if os.path.exists(f) else ([], [], {})
    return out


# ------------------------------------------------------------------ weaving

def match_close(t, i, o, c):
    """index of the closer matching t[i]==o, skipping strings, chars and comments."""
    d = 0
    n = len(t)
    while i < n:
        ch = t[i]
        if ch == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == '\\' else 1
        elif ch == "'" and i + 2 < n and (t[i + 1] == '\\' or t[i + 2] == "'"):
            i += 1
            while t[i] != "'":
                i += 2 if t[i] == '\\' else 1
        elif t.startswith('//', i):
            i = t.index('\n', i)
        elif ch == '-' and t[i + 1] == '>' and c == '>':
            i += 1
        elif ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced')


class Drift(Exception):
    pass


def in_scope(f, pid):
    return pid in f.props or any(pid in c.tags for c in f.spec) or any(pid in c.tags for l in f.loops.values() for c in l)


class Weaver:
    def __init__(self, opaque=(), bare=(), pid=None, group=None):
        self.group = group or ('px' if pid in PROTOX else 'parse' if pid else os.environ.get('VXG', 'all'))
        self.modules = modules_of(self.group)
        self.con = {k: v for k, v in load_contracts().items() if k in {m['name'] for m in self.modules}}
        self.pid = pid               # only this property's obligations (None: all of them)
        self.opaque = dict(opaque)   # path -> reason
        self.bare = dict(bare)
        self.marks = {}              # id -> dict(fn, kind, tags, text)
        self.nmark = 0
        self.probing = False
        self.names = {}
        if os.path.exists(CON + '/names.json'):
            self.names = json.load(open(CON + '/names.json'))

    def allfns(self):
        d = {}
        for uses, items, fns in self.con.values():
            d.update(fns)
        return d

    def config(self):
        fns = {}
        for p, f in self.allfns().items():
            c = {}
            if f.mode == 'external' or p in self.opaque or p in self.bare:
                c['opaque'] = True
            if 'floatneg' in f.opts:
                c['floatneg'] = True
            if 'tail' in f.opts:
                c['tail'] = True
            if c:
                fns[p] = c
        for p in list(self.opaque) + list(self.bare):
            fns.setdefault(p, {})['opaque'] = True
        mods = []
        for m in self.modules:
            m = dict(m)
            m['path'] = prost_src() if m.get('kind') == 'prost' else m['path'].replace('$REPO', REPO)
            mods.append(m)
        return {'modules': mods, 'fns': fns}

    def families(self):
        """Contracts given for a whole family of generated functions: one per pattern of a lexer."""
        for name, (uses, items, fns) in self.con.items():
            fam = {p for p, f in fns.items() if re.search(r'::vxcb_\w+$', p) and '__k' not in p}
            for path, m in self.meta['fns'].items():
                base = re.sub(r'__k\d+$', '', path)
                if base in fam and base != path and path not in fns:
                    f = copy.deepcopy(fns[base])
                    f.path = path
                    lang = path.split('::')[1].replace('vxcb_', 'lang_')
                    f.spec.insert(0, Clause('requires', [], f'{lang}(old(lex).tok())'))
                    g = Ghost([f'proof {{ reveal({lang}); }}'])
                    g.tags = []
                    f.ghost.insert(0, ('start', g))
                    fns[path] = f
                elif m['module'] == name and re.search(r'::vxlang_\w+$', path) and path in fns and not getattr(fns[path], 'fam', False):
                    fns[path].fam = True
                    e = path.split('::vxlang_')[1]
                    x = open(f'{BUILD}{self.sub()}/{name}.extra').read()
                    r = re.search(rf'//@reveal {e} (.*)', x).group(1)
                    g = Ghost([f'{r}'])
                    g.tags = []
                    fns[path].ghost.insert(0, ('start', g))
            for p in fam:
                fns.pop(p, None)

    def sub(self):
        return '/skelp' if self.probing else '/skel'

    def extract(self):
        os.makedirs(BUILD, exist_ok=True)
        json.dump(self.config(), open(BUILD + self.sub() + '.json', 'w'))
        subprocess.run([VX, BUILD + self.sub() + '.json', BUILD + self.sub()], check=True)
        self.meta = json.load(open(BUILD + self.sub() + '/meta.json'))

    def mark(self, **kw):
        self.nmark += 1
        self.marks[self.nmark] = kw
        return f'/*#{self.nmark}*/'

    def probe(self, path):
        if not self.probing:
            return ''
        self.nprobe = getattr(self, 'nprobe', 0) + 1
        f = self.allfns().get(path)
        # where loops share the function's query, a claim that is harmless when assumed afterwards
        open_ = f is not None and any('loop_isolation(false)' in a for a in f.attrs)
        claim = f'crate::vx::vx_probe({self.nprobe})' if open_ else 'false'
        t = self.mark(fn=path, kind='probe', tags=[], text='') + f' assert({claim});'
        return '\n' + (t if re.search(r'::vxlang_\w+$', path) else f'proof {{ {t} }}') + '\n'

    def clauses(self, fn, cl, indent='        '):
        out = []
        last = None
        order = ['requires', 'invariant_except_break', 'invariant', 'recommends', 'ensures', 'decreases']
        for c in sorted(cl, key=lambda c: order.index(c.kind)):
            if c.kind != last:
                out.append(f'{indent[:-4]}{c.kind}')
                last = c.kind
            out.append(f'{indent}{self.mark(fn=fn.path, kind=c.kind, tags=c.tags, text=c.text)}{c.text},')
        return '\n'.join(out)

    def renames(self, path, m):
        old = self.names.get(path)
        if not old or old == m['names'] or len(old) != len(m['names']):
            return {}
        r = {}
        for a, b in zip(old, m['names']):
            if r.get(a, b) != b:
                return {}
            r[a] = b
        return {a: b for a, b in r.items() if a != b}

    def weave_module(self, name):
        uses, items, fns = self.con[name]
        t = open(f'{BUILD}{self.sub()}/{name.replace("::", "__")}.rs').read()
        meta = {m['id']: m for m in self.meta['fns'].values() if m['module'] == name}
        t = t.replace('use __vx_mod_prelude;', 'use super::*;')
        # return types
        while True:
            i = t.find('VxRet<')
            if i < 0:
                break
            j = match_close(t, i + 5, '<', '>')
            t = t[:i] + '(res: ' + t[i + 6:j] + ')' + t[j + 1:]
        # generated Default impls
        while True:
            m = re.search(r'\{\s*__vx_ens\(\s*"([^"]*)",?\s*\);', t)
            if not m:
                break
            ens = ''.join('\n        ' + e.strip() + ',' for e in m.group(1).split(';;') if e.strip())
            t = t[:m.start()] + ('ensures' + ens if ens else '') + ' {' + t[m.end():]
        # functions, from the last to the first so that offsets stay valid
        pos = [(mm.start(), mm.end(), mm.group(1)) for mm in re.finditer(r'__vx_fn_(\w+)\(\);', t)]
        for st, en, fid in reversed(pos):
            m = meta[fid]
            path = m['path']
            ob = t.rfind('{', 0, st)
            cb = match_close(t, ob, '{', '}')
            body = t[en:cb]
            fn = fns.get(path)
            head = self.mark(fn=path, kind='fn', tags=[], text='')
            if fn is None or path in self.bare:
                t = t[:ob] + head + t[ob:st] + body + t[cb:]
                sigstart = t.rfind('fn ', 0, ob)
                continue
            ren = self.renames(path, m)
            def R(x):
                for a, b in ren.items():
                    x = re.sub(r'(?<![\w.])' + re.escape(a) + r'\b(?!\s*:[^:])', b, x)
                return x
            fn2 = Fn(path)
            fn2.spec = [Clause(c.kind, c.tags, R(c.text)) for c in fn.spec]
            spec = self.clauses(fn2, fn2.spec)
            if m['opaque']:
                body = ' unimplemented!() '
                fnspec = '\n' + self.clauses(fn2, [c for c in fn2.spec if c.kind != 'decreases']) + '\n'
                t = t[:ob] + head + fnspec + '{' + body + t[cb:]
                continue
            if self.pid and not in_scope(fn, self.pid):
                # decided by the checks of other properties: callers see the contract only
                t = t[:ob] + head + '\n' + self.clauses(fn2, [c for c in fn2.spec if c.kind != 'decreases']) + '\n{ unimplemented!() ' + t[cb:]
                i = t.rfind('\n', 0, t.rfind('fn ', 0, ob)) + 1
                t = t[:i] + '#[verifier::external_body]\n' + t[i:]
                continue
            body = self.weave_body(fn, m, body, R)
            keep = [c for c in fn2.spec if c.kind != 'ensures' or not c.tags or self.pid in c.tags]
            if self.pid and len(keep) < len(fn2.spec):
                # callers see the whole contract; the body is checked for this property's part of it
                i = t.rfind('\n', 0, t.rfind('fn ', 0, ob)) + 1
                sig = re.sub(r'\bfn (\w+)', r'fn \1__part', t[i:ob], count=1)
                part = '\n'.join(fn.attrs) + '\n' + sig + head + '\n' + self.clauses(fn2, [c for c in keep if c.kind != 'decreases']) + '\n{' + body + '}\n'
                full = '#[verifier::external_body]\n' + t[i:ob] + '\n' + self.clauses(fn2, [c for c in fn2.spec if c.kind != 'decreases']) + '\n{ unimplemented!() }\n'
                t = t[:i] + full + part + t[cb + 1:]
                continue
            t = t[:ob] + head + ('\n' + spec + '\n' if spec else '') + '{' + body + t[cb:]
            if fn.attrs:
                i = t.rfind('\n', 0, t.rfind('fn ', 0, ob)) + 1
                t = t[:i] + '\n'.join(fn.attrs) + '\n' + t[i:]
        return uses, items, t

    def ghost(self, fn, where, R):
        return ''.join(self.ghost1(fn, w, g, R) for w, g in fn.ghost if w == where)

    def ghost1(self, fn, w, g, R):
        return ('\n' + self.mark(fn=fn.path, kind='ghost', tags=list(g.tags), text='proof hint at ' + w) + ' ' +
                R('\n'.join(g)) + '\n' + self.mark(fn=fn.path, kind='fn', tags=[], text='') + '\n')

    def weave_body(self, fn, m, body, R):
        path = fn.path
        if m['unsupported']:
            raise Drift(path, 'unsupported construct: ' + ', '.join(m['unsupported']))
        for n in fn.loops:
            if n >= len(m['loops']):
                raise Drift(path, f'loop {n} not found')
        if fn.closures and max(fn.closures) >= m['closures']:
            raise Drift(path, 'closure not found')
        if fn.opts & {'loops0'} and len(m['loops']) > 0:
            raise Drift(path, 'loops')
        # closures
        while True:
            mm = re.search(r'__vx_closure_(\d+)\(', body)
            if not mm:
                break
            i = mm.end() - 1
            j = match_close(body, i, '(', ')')
            inner = body[i + 1:j].strip().rstrip(',')
            n = int(mm.group(1))
            if n in fn.closures:
                cm = re.match(r'(move\s+)?\|(.*?)\|\s*(?:->[^{]*)?\{', inner, re.S)
                params = [x.strip() for x in cm.group(2).split(',') if x.strip()]
                text = R('\n'.join(fn.closures[n]).strip())
                # leading line of types: `(T1, T2) -> (b: T)`
                tm = re.match(r'\((.*?)\)\s*(->\s*\(.*?\))\s*(.*)$', text, re.S)
                types = split_top(tm.group(1))
                pn = [p.split(':')[0].strip() for p in params]
                if len(types) != len(pn):
                    raise Drift(path, 'closure arity')
                ps = ', '.join(f'{p}: {ty}' for p, ty in zip(pn, types))
                sp = tm.group(3)
                for k, p in enumerate(pn):
                    sp = sp.replace(f'${k + 1}', p)
                mk = self.mark(fn=path, kind='closure', tags=[], text=sp)
                inner = f'|{ps}| {tm.group(2)} {mk}{sp} {{' + inner[cm.end():]
            body = body[:mm.start()] + inner + body[j + 1:]
        # loops
        for n, kind in enumerate(m['loops']):
            mm = re.search(rf'__vx_it_{n}\(', body)
            if mm:
                i = mm.end() - 1
                j = match_close(body, i, '(', ')')
                body = body[:mm.start()] + f'it{n}: ' + body[i + 1:j].strip().rstrip(',') + body[j + 1:]
            mm = re.search(rf'__vx_loop_{n}\(\);', body)
            if not mm:
                continue
            ob = body.rfind('{', 0, mm.start())
            if ob < 0:
                raise Drift(path, 'loop body')
            cl = fn.loops.get(n, [])
            fn2 = Fn(path)
            spec = self.clauses(fn2, [Clause(c.kind, c.tags, R(c.text)) for c in cl])
            start = self.ghost(fn, f'loop {n} start', R)
            end = self.ghost(fn, f'loop {n} end', R)
            after = self.ghost(fn, f'after loop {n}', R)
            cb = match_close(body, ob, '{', '}')
            inner = body[mm.end():cb]
            lead = body[ob + 1:mm.start()]
            tail = body[cb + 1:]
            if end:
                k = inner.rstrip()
                if k and k[-1] not in ';{' :
                    # a trailing expression statement of unit type
                    inner = k + ';\n'
            body = (body[:ob] + '\n' + spec + '\n' + '{' + self.probe(path) + lead + start + inner + end + '}' +
                    after + tail)
            before = self.ghost(fn, f'before loop {n}', R)
            if before:
                # the start of the statement holding the loop keyword
                k = max(body.rfind(x, 0, ob) for x in ('for ', 'while ', 'loop'))
                body = body[:k] + before + body[k:]
        body = self.ghost(fn, 'start', R) + self.probe(path) + body
        body = re.sub(r'__vx_end_\w+\(\);', lambda _: self.ghost(fn, 'end', R), body)
        for w, g in fn.ghost:
            mm = re.match(r'(before|after)\s+"(.*)"(?:\s+#(\d+))?$', w)
            if not mm:
                continue
            txt = self.ghost1(fn, w, g, R)
            lines = body.split('\n')
            pat = R(mm.group(2))
            hit = [i for i, l in enumerate(lines) if pat in l]
            k = int(mm.group(3) or 0)
            if k >= len(hit):
                raise Drift(path, f'anchor not found: {pat}')
            i = hit[k] + (1 if mm.group(1) == 'after' else 0)
            lines.insert(i, txt)
            body = '\n'.join(lines)
        return body

    def build(self):
        while True:
            self.marks, self.nmark = {}, 0
            self.extract()
            self.families()
            known = self.allfns()
            missing = [p for p in known if p not in self.meta['fns']]
            self.missing = missing
            new = [p for p, m in self.meta['fns'].items()
                   if p not in known and p not in self.opaque and not m['opaque']]
            if new:
                for p in new:
                    self.opaque[p] = 'no contract'
                continue
            try:
                parts = [open(CON + '/prelude.rs').read().replace('pub use root::*;', '' if self.group == 'px' else 'pub use root::*;')]
                if self.group != 'parse':
                    parts.append(open(CON + '/px_prelude.rs').read())
                for m in self.modules:
                    if any(f['module'] == m['name'] for f in self.meta['failed']):
                        raise SystemExit('cannot parse ' + m['name'])
                    uses, items, t = self.weave_module(m['name'])
                    extra = f'{BUILD}{self.sub()}/{m["name"]}.extra'
                    if m.get('kind') == 'logos' and os.path.exists(extra):
                        t = open(extra).read() + t.replace('pub fn vxlang_', 'pub proof fn vxlang_')
                    mk = self.mark(fn=None, kind='items', tags=[], text=m['name'])
                    parts.append(f'pub mod {m["name"]} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n'
                                 '#[allow(unused_imports)] use crate::vx::*;\n' + '\n'.join(uses) +
                                 '\nverus! {\nbroadcast use ' + ', '.join(['crate::vx::vx_axioms'] + [l.split()[1] for l in items if l.startswith('//@broadcast ')]) + ';\n' + mk + '\n' + '\n'.join(items) + '\n' + t + '\n}\n}\n')
                parts.append('fn main() {}\n')
                break
            except Drift as d:
                p, why = d.args
                if p in self.opaque:
                    self.bare[p] = why
                else:
                    self.opaque[p] = why
        self.text = '\n'.join(parts)
        os.makedirs(BUILD, exist_ok=True)
        self.main = BUILD + ('/probe.rs' if self.probing else '/main.rs')
        open(self.main, 'w').write(self.text)
        # line -> mark
        self.linemark = []
        self.lineprobe = {}
        for n, line in enumerate(self.text.split('\n'), 1):
            for i in re.findall(r'/\*#(\d+)\*/', line):
                if self.marks[int(i)]['kind'] == 'probe':
                    self.lineprobe.setdefault(n, []).append(int(i))
        cur = None
        curfn = None
        for line in self.text.split('\n'):
            ids = [int(x) for x in re.findall(r'/\*#(\d+)\*/', line)]
            for i in ids:
                cur = i
                if self.marks[i]['kind'] in ('fn', 'items'):
                    curfn = self.marks[i]['fn'] or 'items:' + self.marks[i]['text']
            if not ids and line.strip().startswith(('{', '}')):
                cur = None
            self.linemark.append((cur, curfn))

    # -------------------------------------------------------------- verus

    def at(self, line):
        return self.linemark[line - 1] if 0 < line <= len(self.linemark) else (None, None)

    def verus(self, modules=None, extra=(), limit=3600):
        cmd = ['verus', self.main, '--crate-type', 'bin', '--error-format=json', '--output-json', '--time-expanded',
               '--num-threads', '8', '--no-report-long-running']
        cmd += list(extra) or ['--multiple-errors', '30']
        for m in modules or []:
            cmd += ['--verify-only-module', m]
        t0 = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=BUILD, start_new_session=True)
        self.timed_out = False

        def stop():
            self.timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
        timer = threading.Timer(limit, stop)
        timer.start()
        p.stdout, p.stderr = p.communicate()
        timer.cancel()
        self.wall = time.time() - t0
        diags = []
        for l in p.stderr.split('\n'):
            if l.startswith('{'):
                try:
                    d = json.loads(l)
                    diags.append(d)
                except ValueError:
                    pass
        try:
            res = json.loads(p.stdout)
        except ValueError:
            res = {}
        return res, diags, p


def split_top(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([<':
            d += 1
        if c in ')]>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


PROOF_ERR = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|'
                       r'possible arithmetic|possible division|decreases not satisfied|could not prove termination|'
                       r'unable to prove|possible bit shift|loop ensures not satisfied|requires not satisfied|'
                       r'constructed value may fail|index out of|recommendation not met|value may be out of range|'
                       r'cannot prove|possible ', re.I)
RLIMIT = re.compile(r'Resource limit|rlimit|timed out|took too long|canceled', re.I)


def run(modules=None, quiet=False, w=None, maxiter=8, limit=3600):
    """-> dict(fns={path: dict(status, failures)}, ...)"""
    w = w or Weaver()
    t0 = time.time()
    it = 0
    while True:
        it += 1
        w.build()
        res, diags, p = w.verus(modules, limit=max(30, limit - (time.time() - t0)))
        vr = res.get('verification-results', {})
        errs = [d for d in diags if d.get('level') == 'error' and d.get('spans')]
        front = [d for d in errs if not PROOF_ERR.search(d['message']) and not RLIMIT.search(d['message'])]
        if front and it <= maxiter:
            hit = False
            for d in front:
                for s in d['spans']:
                    mk, fn = w.at(s['line_start'])
                    if fn and not fn.startswith('items:'):
                        why = 'front end: ' + d['message'][:200]
                        inspec = mk is not None and w.marks[mk]['kind'] in ('requires', 'ensures')
                        if fn in w.opaque and fn in w.meta['fns']:
                            if fn not in w.bare:
                                w.bare[fn] = why; hit = True
                        elif w.allfns().get(fn) and w.allfns()[fn].mode == 'external':
                            if fn not in w.bare:
                                w.bare[fn] = why; hit = True
                        else:
                            w.opaque[fn] = why; hit = True
                            if inspec:
                                w.bare[fn] = why
                        break
            if hit:
                continue
        break
    out = {'fns': {}, 'front': [d['rendered'] for d in front], 'wall_s': time.time() - t0, 'iterations': it,
           'verified': vr.get('verified'), 'errors': vr.get('errors'), 'missing': w.missing,
           'opaque': w.opaque, 'bare': w.bare, 'res': res, 'timed_out': w.timed_out}
    fails = {}
    for d in errs:
        if d in front:
            continue
        clause = None
        owner = None
        where = None
        for s in d['spans']:
            # a resource limit is reported on the whole signature, whose mark is on its last line
            mk, fn = w.at(s['line_end' if RLIMIT.search(d['message']) else 'line_start'])
            if s.get('is_primary') and owner is None:
                owner, where = fn, s
        # the clause: prefer a span with a 'failed' label
        for s in sorted(d['spans'], key=lambda s: 0 if 'fail' in (s.get('label') or '') else 1):
            mk, fn = w.at(s['line_start'])
            if mk is not None and w.marks[mk]['kind'] not in ('fn', 'items'):
                clause = w.marks[mk]
                break
        if d['message'].startswith('postcondition') or d['message'].startswith('precondition'):
            # owner of a failed obligation is the function whose body is checked
            for s in d['spans']:
                mk, fn = w.at(s['line_start'])
                lab = s.get('label') or ''
                if 'fail' not in lab:
                    owner = fn
        fails.setdefault(owner or '?', []).append(
            {'message': d['message'], 'rlimit': bool(RLIMIT.search(d['message'])),
             'clause': clause and {'fn': clause['fn'], 'kind': clause['kind'], 'tags': clause['tags'], 'text': clause['text']},
             'rendered': d['rendered']})
    out['fails'] = fails
    out['weaver'] = w
    out['uncontracted'] = {k for k, why in w.opaque.items() if why == 'no contract'}
    out['opaque_drift'] = {k: why for k, why in w.opaque.items() if why != 'no contract'}
    return out


def probe(modules, v, limit=3600, pid=None):
    """Vacuity guard: an unprovable claim at the start of every verified body and loop must fail."""
    g = v['weaver'].group if v else None
    w = Weaver(v['weaver'].opaque, v['weaver'].bare, pid=pid, group=g) if v else Weaver(pid=pid)
    w.probing = True
    w.build()
    res, diags, p = w.verus(modules, ['--multiple-errors', '60'], limit)
    if w.timed_out:
        return {'probes': 0, 'refuted': 0, 'vacuous': [], 'note': 'time limit reached'}
    hit = set()
    for d in diags:
        if d.get('level') == 'error':
            for s in d['spans']:
                for n in w.lineprobe.get(s['line_start'], []):
                    hit.add(n)
    want = {n: m for n, m in w.marks.items() if m['kind'] == 'probe' and (not modules or m['fn'].split('::')[0] in modules)}
    vac = sorted({m['fn'] for n, m in want.items() if n not in hit})
    return {'probes': len(want), 'refuted': len([n for n in want if n in hit]), 'vacuous': vac}


def trusted(group='all'):
    """every axiom, external_body and uninterpreted function of the prelude and the sidecars"""
    out = []
    names = {m['name'] for m in modules_of(group)}
    fs = [CON + '/prelude.rs'] + ([CON + '/px_prelude.rs'] if group != 'parse' else [])
    fs += [f for f in sorted(glob.glob(CON + '/*.vx')) if os.path.basename(f)[:-3] in names]
    for f in fs:
        b = os.path.basename(f)
        lines = open(f).read().split('\n')
        impl = ''
        for i, l in enumerate(lines):
            m = re.match(r'\s*(?:pub )?impl(?:<[^>]*>)?\s+(.*?)\s*\{', l)
            if m:
                impl = m.group(1)
            if l.startswith('}'):
                impl = ''
            m = re.search(r'axiom fn (\w+)', l)
            if m:
                out.append(f'{b}: axiom {m.group(1)}')
            m = re.search(r'uninterp spec fn (\w+)', l)
            if m:
                out.append(f'{b}: uninterpreted {m.group(1)}')
            if 'external_body' in l or 'assume_specification' in l:
                for k in range(i, min(i + 3, len(lines))):
                    m = re.search(r'\bfn (\w+)', lines[k])
                    if m:
                        out.append(f'{b}: assumed {m.group(1)}' + (f' ({impl})' if impl and lines[k].startswith(' ') else ''))
                        break
            if re.search(r'\b(assume|admit)\s*\(', l):
                out.append(f'{b}: assume at line {i + 1}')
    return out


def coverage(v, scope, pid, failed, undecided, pr):
    w = v['weaver']
    con = w.allfns()
    times = {}
    for m in v['res'].get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            times[f['function']] = times.get(f['function'], 0) + f.get('time-micros', f.get('time', 0) * 1000)
    und = {p for p, _ in undecided}
    bad = {fn for fn, _ in failed}
    fl = []
    ob = dis = 0
    for p, f in sorted(scope.items()):
        m = w.meta['fns'].get(p)
        proved = f.mode == 'proof' and m is not None and not m['opaque']
        cl = [c for c in f.spec if c.kind == 'ensures' and pid in c.tags]
        inv = sum(len(x) for x in f.loops.values())
        req = [c for c in f.spec if c.kind == 'requires']
        n = 1 + len(cl) + inv      # body safety (panics, callee preconditions), tagged postconditions, invariants
        if f.mode == 'external':
            fl.append({'fn': p, 'status': 'assumed: ' + f.why})
            continue
        ob += n
        ok = proved and p not in und and p not in bad
        if ok:
            dis += n
        fl.append({'fn': p, 'file': m and os.path.relpath(m['file'], REPO) + f':{m["line"]}-{m["end_line"]}',
                   'status': 'discharged' if ok else ('failed' if p in bad else 'undecided'),
                   'requires': len(req), 'ensures_for_this_property': len(cl), 'loop_invariants': inv})
    tb = trusted(w.group)
    ext = [f'{p}: body not verified ({f.why})' for p, f in sorted(con.items()) if f.mode == 'external']
    vr = v['res'].get('verification-results', {})
    tm = v['res'].get('times-ms', {})
    return {
        'obligations': ob, 'discharged': dis,
        'checker_cmd': 'verus build/verus/main.rs (written by tools/vw.py from /repo on this run)',
        'back_end': 'verus ' + str(v['res'].get('verus', {}).get('version')) + ' with z3',
        'trusted_base': ['verus, z3, rustc', 'vx extractor and its desugarings (vx/src/desugar.rs)'] + tb,
        'functions_under_contract': fl,
        'verifier_units_verified': vr.get('verified'), 'verifier_units_failed': vr.get('errors'),
        'smt_ms': tm.get('smt', {}).get('total'), 'verifier_wall_s': round(v['wall_s'], 2),
        'vacuity_probes': pr, 'undecided_by_proof': [f'{p}: {y}' for p, y in undecided],
        'uncontracted_functions': sorted(v['uncontracted']),
        'extraction_drops': [d['module'] + ': ' + d['item'] for d in w.meta['dropped']],
        'assumptions': ext + ['f64 arithmetic and formatting are uninterpreted', 'strings are sequences of chars; byte lengths via vstd encode_utf8'],
    }


def main():
    cmd = sys.argv[1]
    if cmd == 'build':
        w = Weaver(); w.build()
        print(len(w.text.split('\n')), 'lines;', 'opaque', w.opaque, 'bare', w.bare, 'missing', w.missing)
    elif cmd == 'record':
        w = Weaver(); w.extract()
        known = w.allfns()
        json.dump({p: m['names'] for p, m in sorted(w.meta['fns'].items()) if p in known},
                  open(CON + '/names.json', 'w'), indent=0)
    elif cmd == 'verify':
        r = run(sys.argv[2:])
        for f in r['front']:
            print(f)
        for fn, l in r['fails'].items():
            for x in l:
                print('==', fn, x['clause'] and (x['clause']['kind'], x['clause']['tags']))
                print(x['rendered'])
        con = {p for p, f in r['weaver'].allfns().items() if f.mode == 'external'}
        print('opaque:', {k: v for k, v in r['opaque'].items() if k not in con and v != 'no contract'})
        print('bare:', r['bare'], 'missing:', r['missing'])
        print('verified', r['verified'], 'errors', r['errors'], 'wall %.1f' % r['wall_s'], 'iters', r['iterations'])


if __name__ == '__main__':
    main()
