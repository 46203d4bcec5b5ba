"""Loading of the exported MIR: items, control-flow graphs, loops, liveness."""
import json
import os
import re
import subprocess
import sys
import tempfile
import shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EC_REPO', '/repo')

_EXT = re.compile(r'(?:[A-Za-z_0-9]+::)+(num_bigint|num_traits|num_iter|num_integer|primes)::')


class BuildError(Exception):
    pass


def sysroot_lib():
    env = dict(os.environ)
    env.pop('RUSTUP_TOOLCHAIN', None)
    r = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, env=env)
    if r.returncode:
        raise BuildError('no nightly toolchain: ' + r.stderr)
    return os.path.join(r.stdout.strip(), 'lib')


def build_driver():
    """compile the exporter if it is not there (or older than its source)"""
    src = os.path.join(ROOT, 'driver', 'main.rs')
    out = os.path.join(ROOT, 'build', 'mirdump')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    env = dict(os.environ)
    env.pop('RUSTUP_TOOLCHAIN', None)
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp],
                       capture_output=True, text=True, env=env, cwd=os.path.join(ROOT, 'driver'))
    if r.returncode:
        raise BuildError('driver does not build: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def dump(repo=None):
    """run the exporter over the library crate of the repository; returns the parsed facts"""
    repo = repo or REPO
    drv = build_driver()
    work = tempfile.mkdtemp(prefix='ecmir.')
    try:
        out = os.path.join(work, 'mir.json')
        env = dict(os.environ)
        env.pop('RUSTUP_TOOLCHAIN', None)
        env['LD_LIBRARY_PATH'] = sysroot_lib()
        env['RUSTC_WORKSPACE_WRAPPER'] = drv
        env['EC_CRATE'] = 'ellipticcurve'
        env['EC_OUT'] = out
        env['CARGO_TARGET_DIR'] = os.path.join(work, 'target')
        env['CARGO_NET_OFFLINE'] = 'true'
        r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--locked'],
                           capture_output=True, text=True, env=env, cwd=repo)
        if not os.path.exists(out):
            raise BuildError('the crate does not build:\n' + r.stderr[-3000:])
        with open(out) as f:
            txt = f.read()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return parse(txt)


def parse(txt):
    return Crate(json.loads(_EXT.sub(r'\1::', txt)))


class Body:
    def __init__(self, j):
        self.argc = j['argc']
        self.locals = j['locals']
        self.blocks = j['blocks']
        simplify(self.blocks)
        self.span = j.get('span')
        self._an = None

    def analysis(self):
        if self._an is None:
            self._an = analyse(self)
        return self._an


def simplify(blocks):
    """drop flags: a switch between dropping a value and not dropping it is a goto"""
    def skip(b, n=0):
        bl = blocks[b]
        t = bl['t']
        if n < 30 and not bl['st'] and t['k'] in ('goto', 'drop'):
            return skip(t['t'], n + 1)
        return b
    for bl in blocks:
        t = bl['t']
        if t['k'] == 'switch' and 'const' not in t['d']:
            tg = {skip(b) for b in succs(t)}
            if len(tg) == 1:
                bl['t'] = {'k': 'goto', 't': tg.pop()}


class Item:
    def __init__(self, j):
        self.j = j
        self.key = j['key']
        self.path = j['path']
        self.kind = j['kind']
        self.body = Body(j['body']) if j.get('body') else None
        self.promoted = [Body(b) for b in j.get('promoted') or []]
        self.derived = j.get('derived')

    def __repr__(self):
        return 'Item(%s)' % self.path


def ty_str(t):
    if t is None:
        return '?'
    k = t.get('k')
    if k == 'adt':
        return t['p'] + ('<%s>' % ', '.join(ty_str(x) for x in t['a']) if t.get('a') else '')
    if k == 'ref':
        return '&' + ('mut ' if t.get('m') else '') + ty_str(t['t'])
    if k == 'int':
        return t['n']
    if k == 'tuple':
        return '(%s)' % ', '.join(ty_str(x) for x in t.get('ts', t.get('a', [])))
    return str(t.get('n') or t.get('p') or k)


class Crate:
    def __init__(self, j):
        self.j = j
        self.items = {}
        self.by_path = {}
        for it in j['items']:
            i = Item(it)
            self.items[i.key] = i
            self.by_path.setdefault(i.path, i)
        self.adts = {p: a for p, a in j['adts']}
        self.statics = j.get('statics', [])

    def callee_count(self):
        return sum(n for _, n in self.j['callees'])


def succs(t):
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'switch':
        return [b for _, b in t['v']] + ([t['o']] if t.get('o') is not None else [])
    if k in ('drop', 'assert'):
        return [t['t']]
    if k == 'call':
        return [t['t']] if t.get('t') is not None else []
    return []


class Analysis:
    pass


def place_locals(pl):
    out = [pl['l']]
    for e in pl['p']:
        if e[0] == 'index':
            out.append(e[1])
    return out


def operand_uses(op):
    if op is None:
        return []
    if 'copy' in op:
        return place_locals(op['copy'])
    if 'move' in op:
        return place_locals(op['move'])
    return []


def rv_uses(r):
    out = []
    for f in ('use', 'repeat', 'cast', 'a', 'b'):
        if isinstance(r.get(f), dict):
            out += operand_uses(r[f])
    for f in ('ref', 'rawptr', 'discr'):
        if isinstance(r.get(f), dict):
            out += place_locals(r[f])
    for o in r.get('ops', []) or []:
        out += operand_uses(o)
    return out


def stmt_du(s):
    """uses, defs of a statement"""
    pl = s['p']
    uses = rv_uses(s['r'])
    defs = []
    if pl['p']:
        uses += place_locals(pl)
    else:
        defs.append(pl['l'])
    return uses, defs


def term_du(t):
    k = t['k']
    uses, defs = [], []
    if k == 'switch':
        uses += operand_uses(t['d'])
    elif k == 'assert':
        uses += operand_uses(t['c'])
    elif k == 'call':
        for a in t['args']:
            uses += operand_uses(a)
        if isinstance(t['f'].get('ptr'), dict):
            uses += operand_uses(t['f']['ptr'])
        if t['dst']['p']:
            uses += place_locals(t['dst'])
        else:
            defs.append(t['dst']['l'])
    elif k == 'return':
        uses.append(0)
    return uses, defs


def analyse(body):
    an = Analysis()
    n = len(body.blocks)
    sc = [succs(b['t']) for b in body.blocks]
    # reverse postorder over the normal (non-unwind) edges
    order, seen = [], set()
    stack = [(0, iter(sc[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(sc[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in sc[b]:
            if b not in preds[s]:
                preds[s].append(b)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            nd = ps[0]
            for p in ps[1:]:
                x, y = p, nd
                while x != y:
                    while idx[x] > idx[y]:
                        x = idom[x]
                    while idx[y] > idx[x]:
                        y = idom[y]
                nd = x
            if idom.get(b) != nd:
                idom[b] = nd
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]
    loops = {}
    irreducible = False
    for b in rpo:
        for s in sc[b]:
            if idx[s] <= idx[b]:
                if dom(s, b):
                    lp = loops.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in lp:
                            lp.add(x)
                            todo += preds[x]
                else:
                    irreducible = True
    an.loops = loops
    an.irreducible = irreducible
    an.succ = sc
    an.rpo = rpo
    # liveness
    use = {b: set() for b in rpo}
    dfn = {b: set() for b in rpo}
    for b in rpo:
        u, d = use[b], dfn[b]
        for s in body.blocks[b]['st']:
            us, ds = stmt_du(s)
            u.update(x for x in us if x not in d)
            d.update(ds)
        us, ds = term_du(body.blocks[b]['t'])
        u.update(x for x in us if x not in d)
        d.update(ds)
    live = {b: set() for b in rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            out = set()
            for s in sc[b]:
                out |= live[s]
            ni = use[b] | (out - dfn[b])
            if ni != live[b]:
                live[b] = ni
                ch = True
    an.live = live
    # blocks from which the function can only panic
    ok = {b for b in rpo if body.blocks[b]['t']['k'] in ('return',)}
    ok |= {x for l in loops.values() for x in l}
    todo = list(ok)
    while todo:
        for q in preds[todo.pop()]:
            if q not in ok:
                ok.add(q)
                todo.append(q)
    an.doomed = {b for b in rpo if b not in ok and body.blocks[b]['t']['k'] != 'unreachable'}
    return an
