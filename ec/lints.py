"""Whole-crate MIR lints: effects (C34) and narrowing conversions (C35)."""
import re
from interp import INT_RANGE
from mir import ty_str, succs
import mir


# -- call graph ---------------------------------------------------------------------------

def consts(x):
    """constant operands inside a MIR JSON fragment"""
    if isinstance(x, dict):
        if 'const' in x and isinstance(x['const'], dict):
            yield x['const']
        for v in x.values():
            for c in consts(v):
                yield c
    elif isinstance(x, list):
        for v in x:
            for c in consts(v):
                yield c


def bodies(it):
    return ([it.body] if it.body else []) + it.promoted


def uses(it):
    """(path, key, local, span, what) for every function an item calls or mentions, and every static"""
    out = []
    for b in bodies(it):
        for bl in b.blocks:
            t = bl['t']
            if t['k'] == 'call':
                f = t['f']
                if 'path' in f:
                    out.append((f.get('rpath') or f['path'], f.get('rkey') or f['key'], f.get('rargs') or f.get('args') or [], t.get('s'), 'call'))
                frag = t['args']
            else:
                frag = {k: v for k, v in t.items() if k != 'f'}
            for c in consts(frag):
                out += const_uses(c, t.get('s'))
            for s in bl['st']:
                for c in consts(s):
                    out += const_uses(c, s.get('s'))
                r = s.get('r') or {}
                if 'other' in r and 'ThreadLocalRef' in str(r['other']):
                    out.append(('thread local: ' + r['other'], None, [], s.get('s'), 'tls'))
                a = r.get('agg')
                if a and a.get('k') == 'closure':
                    out.append((a['d'], a['d'], [], s.get('s'), 'closure'))
                if r.get('kind') in ('PointerExposeProvenance', 'PointerExposeAddress'):
                    out.append(('address of an object as a number', None, [], s.get('s'), 'addr'))
    return out


def const_uses(c, sp):
    t = c.get('ty') or {}
    o = []
    if t.get('k') == 'fndef':
        o.append((t['p'], t['d'], t.get('a') or [], sp, 'value'))
    if c.get('static'):
        o.append((c['static'], c['static'], [], sp, 'static'))
    return o


HASH_ORDER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain',
              'extract_if', 'difference', 'union', 'intersection', 'symmetric_difference', 'fmt', 'next', 'hasher', 'build_hasher', 'hash_one'}
BAD = [
    (r'\b(std|core)::time::(?!Duration)', 'reads the clock'),
    (r'\bstd::env::', 'reads the environment'),
    (r'\bstd::fs::', 'touches the file system'),
    (r'\bstd::net::', 'touches the network'),
    (r'\bstd::os::', 'operating system interface'),
    (r'\bstd::thread::(?!local_impl)', 'threads'),
    (r'\bstd::thread::local', 'thread-local state'),
    (r'\bstd::process::', 'process control'),
    (r'\bstd::backtrace::', 'inspects the stack'),
    (r'\b(std|core)::arch::', 'machine intrinsics'),
    (r'\b(std|core)::sync::(atomic|Mutex|RwLock|Once|OnceLock|LazyLock|mpsc|Condvar|Barrier|poison|nonpoison)', 'shared mutable state'),
    (r'\b(std|core)::panic::(set_hook|take_hook)|\bstd::panicking::(set_hook|take_hook)', 'changes the panic hook'),
    (r'\bstd::io::(stdin|stderr|_eprint|Stdin|Stderr|read_to_string)', 'input or output other than standard output'),
    (r'\bstd::(hash|collections::hash_map)::RandomState|\bstd::hash::random::|\bDefaultHasher::new_with', 'random hashing'),
    (r'\brand(_core|_chacha|om)?::|getrandom|fastrand', 'randomness'),
    (r'\b(std|core)::fmt::Pointer|new_pointer\b', 'prints an address'),
    (r'\b(std|core|alloc)::alloc::', 'raw allocation'),
]
# compiler expansion of vec![], format!() and friends
FINE = re.compile(r'^(std::boxed::|std::alloc::Global$|alloc::alloc::exchange_malloc)')


def effect_of(path):
    if FINE.search(path):
        return None
    for rx, why in BAD:
        if re.search(rx, path):
            return why
    if re.search(r'\b(HashMap|HashSet|hash_map|hash_set)\b', path):
        last = re.sub(r'<[^<>]*>', '', path).rsplit('::', 1)[-1]
        if last in HASH_ORDER:
            return 'iterates in hash order'
    return None


def effects(ctx, tier):
    C = ctx.crate
    viol, n, sites = [], 0, 0
    callers = {}
    found = []
    statics = {s['key']: s for s in C.statics}
    ext = set()
    for it in C.items.values():
        n += 1
        for path, key, args, sp, how in uses(it):
            sites += 1
            if key in C.items:
                callers.setdefault(key, set()).add(it.key)
            else:
                ext.add(path)
            why = None
            if how in ('tls', 'addr'):
                why = path
            elif key not in C.items:
                why = effect_of(path)
                if not why and path.rsplit('::', 1)[-1] in ('new_display', 'new_debug'):
                    s = ' '.join(ty_str(a) for a in args)
                    if re.search(r'\bHash(Map|Set)\b', s):
                        why = 'prints in hash order'
            if why:
                found.append((it, sp, path, why))
        if it.j.get('unsafe'):
            found.append((it, it.body.span if it.body else '?', 'unsafe fn', 'unsafe code'))

    def chain(key):
        """shortest caller chain from a public function"""
        seen, todo = {key: None}, [key]
        while todo:
            k = todo.pop(0)
            i = C.items[k]
            if i.j.get('pub') or not callers.get(k):
                out = []
                while k is not None:
                    out.append(C.items[k].path)
                    k = seen[k]
                return ' -> '.join(out)
            for c in sorted(callers.get(k, ())):
                if c not in seen:
                    seen[c] = k
                    todo.append(c)
        return C.items[key].path
    for it, sp, path, why in found:
        viol.append(dict(kind='effect', function=it.path, at=sp, callee=path, why=why,
                         text='%s (%s): %s (%s); reached by %s' % (it.path, sp, why, path, chain(it.key))))
    for s in C.statics:
        if s['mut'] or not s['freeze']:
            viol.append(dict(kind='static', at=s['span'], text='static %s (%s) is mutable global state' % (s['key'], s['span'])))
    for sp in C.j.get('unsafe', ()):
        viol.append(dict(kind='unsafe', at=sp, text='unsafe block at %s' % sp))
    return dict(viol=viol, n=n, cov=dict(
        rule='no call, function value or static reachable from any library body lies in the effect list; no unsafe block; no mutable static; '
             'no iteration in hash order', bodies=n, call_sites=sites, distinct_external_callees=len(ext), statics=len(C.statics),
        unsafe_blocks=len(C.j.get('unsafe', ()))))


# -- narrowing conversions ------------------------------------------------------------------
# For every integer local: O, an interval containing every value it can have, and U, an interval of
# values it certainly takes for some input that reaches the point (values of a parameter, of a public
# field or of a checked conversion of an arbitrary number, restricted by the guards on that value).

ALL = (-2**200, 2**200)


def rng(n):
    return INT_RANGE.get(n, ALL)


def meet(a, b):
    if a is None or b is None:
        return None
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else None


def hull(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]))


def under(a, b):
    """union of two attained intervals, when it is an interval; the larger otherwise"""
    if a is None:
        return b
    if b is None:
        return a
    if max(a[0], b[0]) <= min(a[1], b[1]) + 1:
        return hull(a, b)
    return a if a[1] - a[0] >= b[1] - b[0] else b


class Ab:
    """abstract integer: O over-, U under-approximation, root identity (locals copied from one source share it) + offset"""
    __slots__ = ('o', 'u', 'root', 'off', 'deps')

    def __init__(self, o, u=None, root=None, off=0, deps=frozenset()):
        self.o, self.u, self.root, self.off, self.deps = o, u, root, off, deps

    def t(self):
        return (self.o, self.u, self.root, self.off, self.deps)

    def __eq__(self, b):
        return isinstance(b, Ab) and self.t() == b.t()


class Cmp:
    def __init__(self, op, a, b, la=None, lb=None):
        self.op, self.a, self.b, self.la, self.lb = op, a, b, la, lb

    def __eq__(self, o):
        return isinstance(o, Cmp) and (self.op, self.a, self.b) == (o.op, o.a, o.b)


class Src:
    """a reference to (or a BigInt equal to) an input: parameter, or public field of one"""

    def __init__(self, name, ty=None):
        self.name, self.ty = name, ty

    def __eq__(self, o):
        return isinstance(o, Src) and o.name == self.name


def deps(v):
    """names of the inputs a value was computed from"""
    if isinstance(v, Ab):
        return v.deps | ({v.root} if v.root else frozenset())
    if isinstance(v, Cmp):
        return deps(v.a) | deps(v.b)
    if isinstance(v, Src):
        return frozenset([v.name])
    if isinstance(v, tuple) and v:
        if v[0] in ('test', 'dep'):
            return frozenset(v[1])
        if v[0] == 'tup':
            return frozenset().union(*[deps(x) for x in v[1]])
        if v[0] in ('opt', 'iter'):
            return deps(v[1])
    return frozenset()


def dep(ds):
    return ('dep', frozenset(ds)) if ds else None


def with_deps(v, ds):
    ds = frozenset(ds) - deps(v)
    return Ab(v.o, v.u, v.root, v.off, v.deps | ds) if ds else v


NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}
FLIP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}


def restrict(iv, op, lo, hi):
    """values v of iv with v op w for some w in [lo,hi]"""
    if iv is None:
        return None
    if op == 'Lt':
        return meet(iv, (ALL[0], hi - 1))
    if op == 'Le':
        return meet(iv, (ALL[0], hi))
    if op == 'Gt':
        return meet(iv, (lo + 1, ALL[1]))
    if op == 'Ge':
        return meet(iv, (lo, ALL[1]))
    if op == 'Eq':
        return meet(iv, (lo, hi))
    if op == 'Ne' and lo == hi:
        if iv[0] == lo:
            return meet(iv, (lo + 1, ALL[1]))
        if iv[1] == lo:
            return meet(iv, (ALL[0], lo - 1))
    return iv


def isbig(t):
    while t and t.get('k') == 'ref':
        t = t['t']
    return bool(t) and t.get('k') == 'adt' and t['p'].endswith('BigInt')


class Fn:
    def __init__(self, crate, it, params, inv=None):
        self.C, self.it, self.b = crate, it, it.body
        self.params = params
        self.casts = {}
        self.calls = {}
        self.inv = inv or {}
        self.fields = {}
        self.copies = {}
        self.lent = {}
        self.soft = False
        self.soft_switches = {}

    def lty(self, l):
        return self.b.locals[l]['ty']

    def place_ty(self, pl):
        t = self.lty(pl['l'])
        for e in pl['p']:
            if t is None:
                return None
            if e[0] == 'deref' and t.get('k') in ('ref', 'ptr'):
                t = t['t']
            elif e[0] == 'field':
                if t.get('k') == 'tuple':
                    t = t['a'][e[1]] if e[1] < len(t['a']) else None
                elif t.get('k') == 'adt':
                    a = self.C.adts.get(t['p'])
                    try:
                        t = a['variants'][0]['fields'][e[1]]['ty']
                    except Exception:
                        t = None
                else:
                    t = None
            elif e[0] == 'downcast':
                if t.get('k') == 'adt' and t['p'] in ('std::option::Option', 'std::result::Result') and t['a']:
                    t = {'k': 'tuple', 'a': [t['a'][0]]}
                else:
                    t = None
            else:
                t = None
        return t

    def pub_path(self, pl):
        """name of the input a place denotes, when every step is a dereference or a public field"""
        l = pl['l']
        t = self.lty(l)
        name = '_%d' % l
        for e in pl['p']:
            if t is None:
                return None
            if e[0] == 'deref' and t.get('k') == 'ref':
                t = t['t']
            elif e[0] == 'field' and t.get('k') == 'adt':
                a = self.C.adts.get(t['p'])
                if not a or not a.get('local') or a.get('enum'):
                    return None
                f = a['variants'][0]['fields'][e[1]]
                if not f['pub']:
                    return None
                name += '.' + f['name']
                t = f['ty']
            else:
                return None
        return name

    def unknown_guard(self, st, roots):
        """the inputs of those names have passed a test that is not understood"""
        if self.soft is not False:
            for r in roots:
                st[('S', r, self.soft)] = True
            return
        for r in roots:
            st[('T', r)] = True
            b = st.get(('R', r))
            st[('R', r)] = Ab(b.o if b else ALL, None, r)
        for l, v in list(st.items()):
            if isinstance(v, Ab) and v.root and any(v.root == r or v.root.startswith(r + '.') for r in roots):
                st[l] = Ab(v.o, None, v.root, v.off, v.deps)

    def narrow(self, st, r, iv):
        """only values of the interval of the input r get here"""
        for l, v in list(st.items()):
            if isinstance(v, Ab) and v.root == r:
                w = (iv[0] + v.off, iv[1] + v.off)
                st[l] = Ab(meet(v.o, w) or v.o, meet(v.u, w), r, v.off, v.deps)

    def field_inv(self, pl):
        """what the crate itself stores in the field a place denotes: interval it lies in, attained interval"""
        t = self.lty(pl['l'])
        own = None
        for e in pl['p']:
            own = None
            if t is None:
                return None
            if e[0] == 'deref' and t.get('k') in ('ref', 'ptr'):
                t = t['t']
            elif e[0] == 'field' and t.get('k') == 'adt':
                a = self.C.adts.get(t['p'])
                if not a or not a.get('local') or a.get('enum'):
                    return None
                own = (t['p'], e[1])
                t = a['variants'][0]['fields'][e[1]]['ty']
            else:
                return None
        return self.inv.get(own)

    def root(self, st, name, n, inv=None):
        """the input of that name, as an integer of type n"""
        b = st.get(('R', name))
        if b is None:
            parts = name.split('.')
            t = any(('T', '.'.join(parts[:i])) in st for i in range(1, len(parts)))
            b = Ab(ALL, None if t else ALL, name)
            if inv is not None:
                b = Ab(meet(inv[0], ALL) or ALL, meet(b.u, inv[1]), name)
            st[('R', name)] = b
        return Ab(meet(b.o, rng(n)) or rng(n), meet(b.u, rng(n)), name)

    def read(self, st, pl):
        t = self.place_ty(pl)
        isint = t is not None and t.get('k') == 'int'
        if not pl['p']:
            v = st.get(pl['l'])
            if v is not None:
                return v
            return Ab(rng(t['n'])) if isint else None
        base = st.get(pl['l'])
        if isinstance(base, tuple) and base and base[0] in ('dep', 'test'):
            return Ab(rng(t['n']), deps=deps(base)) if isint else dep(deps(base))
        if isinstance(base, tuple) and base and base[0] == 'tup':
            v = self.part(st, base, [e[1] if e[0] == 'field' else None for e in pl['p'] if e[0] != 'deref'], t)
            if v is not None:
                return v
            return Ab(rng(t['n']), deps=deps(base)) if isint else dep(deps(base))
        if isinstance(base, tuple) and base and base[0] == 'opt' and pl['p'][-1] == ['field', 0]:
            if isinstance(base[1], Ab):
                return base[1]
        if isinstance(base, tuple) and base and base[0] == 'opt' and len(base) > 1 and isinstance(base[1], (tuple, Src)):
            idx = [e[1] for e in pl['p'] if e[0] == 'field']
            if all(e[0] in ('field', 'downcast', 'deref') for e in pl['p']) and idx[:1] == [0]:
                v = self.part(st, base[1], idx[1:], t)
                if v is not None:
                    return v
        if isinstance(base, Src):
            nm = self.pub_path(pl)
            if nm is not None:
                nm = base.name + nm[len('_%d' % pl['l']):]
                if self.stale(st, nm):
                    return Ab(rng(t['n'])) if isint else None
                if isint:
                    return self.root(st, nm, t['n'], self.field_inv(pl))
                return Src(nm, t)
        if isinstance(base, Ab) and all(e[0] == 'deref' for e in pl['p']):
            return base
        if isint:
            i = self.field_inv(pl)
            return Ab(meet(rng(t['n']), i[0]) or rng(t['n'])) if i else Ab(rng(t['n']))
        return None

    def range(self, st, a, b, ty):
        if isinstance(a, Src):
            a = self.root(st, a.name, 'big') if isbig(ty) else None
        if isinstance(b, Src):
            b = self.root(st, b.name, 'big') if isbig(ty) else None
        if not isinstance(a, Ab) or not isinstance(b, Ab) or a.o is None or b.o is None:
            return None
        e = Ab(meet((a.o[0], b.o[1] - 1), rng(ty.get('n'))) or rng(ty.get('n')), deps=deps(a) | deps(b))
        return ('iter', e, b, a)

    def dirty(self, st, b, pl):
        """a field of an input (given by reference) may change: it is not the input's any more, the rest is"""
        t = self.lty(pl['l'])
        nm = b.name
        for e in pl['p']:
            if e[0] == 'deref' and t.get('k') == 'ref':
                t = t['t']
                continue
            a = self.C.adts.get(t['p']) if t.get('k') == 'adt' else None
            if e[0] != 'field' or not a or not a.get('local') or a.get('enum'):
                break
            f = a['variants'][0]['fields'][e[1]]
            nm, t = nm + '.' + f['name'], f['ty']
        if nm == b.name:
            return False
        st[('D', nm)] = True
        return True

    def stale(self, st, nm):
        return any(isinstance(k, tuple) and k[0] == 'D' and (nm == k[1] or nm.startswith(k[1] + '.') or k[1].startswith(nm + '.')) for k in st)

    def elem(self, v):
        """an element of an input collection: anything at all (the collection holds what the caller put there)"""
        t = v.ty
        while t.get('k') == 'ref':
            t = t['t']
        if t.get('k') != 'adt' or not t.get('a'):
            return None
        n = t['p'].rsplit('::', 1)[-1]
        if n == 'BTreeMap':
            return ('tup', [Src(v.name + '.[0]', t['a'][0]), Src(v.name + '.[1]', t['a'][1])])
        if n in ('Vec', 'BTreeSet'):
            return Src(v.name + '.[0]', t['a'][0])
        return None

    def fresh(self, st, e):
        """a new element: nothing is known of it yet"""
        for s in (e[1] if isinstance(e, tuple) else [e]):
            if not isinstance(s, Src):
                continue
            for k, v in list(st.items()):
                if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str) and (k[1] == s.name or k[1].startswith(s.name + '.')):
                    st.pop(k)
                elif isinstance(v, Ab) and v.root and (v.root == s.name or v.root.startswith(s.name + '.')):
                    st[k] = Ab(v.o, None)

    def get(self, st, args, g, dty):
        if g[0] == 'tup':
            return ('tup', [self.get(st, args, x, {}) if x is not None else None for x in g[1]])
        i, idx = g
        if i >= len(args):
            return None
        if isinstance(args[i], Src) and args[i].ty is not None or isinstance(args[i], tuple) and args[i][0] == 'tup':
            return self.part(st, args[i], idx, dty)
        return None

    def part(self, st, v, idx, t):
        """the part of a value at a path of field numbers"""
        idx = list(idx)
        while idx and isinstance(v, tuple) and v and v[0] == 'tup':
            i = idx.pop(0)
            if i is None or i >= len(v[1]):
                return None
            v = v[1][i]
        if not idx:
            return v
        if isinstance(v, Src) and v.ty is not None and None not in idx:
            nm, ty, own = v.name, v.ty, None
            for i in idx:
                while ty.get('k') == 'ref':
                    ty = ty['t']
                if ty.get('k') != 'adt':
                    return None
                a = self.C.adts.get(ty['p'])
                if not a or not a.get('local') or a.get('enum') or i >= len(a['variants'][0]['fields']):
                    return None
                f = a['variants'][0]['fields'][i]
                if not f['pub']:
                    return None
                own = (ty['p'], i)
                nm, ty = nm + '.' + f['name'], f['ty']
            if self.stale(st, nm):
                return None
            if ty.get('k') == 'int':
                return self.root(st, nm, ty['n'], self.inv.get(own))
            return Src(nm, ty)
        return None

    def op(self, st, o):
        if 'const' in o:
            c = o['const']
            t = c.get('ty') or {}
            if 'int' in c and t.get('k') in ('int', 'bool'):
                v = int(c['int'])
                return Ab((v, v), (v, v))
            if t.get('k') == 'int':
                return Ab(rng(t['n']))
            return None
        pl = o.get('copy') or o.get('move')
        return self.read(st, pl) if pl else None

    def arith(self, op, a, b, n):
        return with_deps(self.arith_(op, a, b, n), deps(a) | deps(b))

    def arith_(self, op, a, b, n):
        r = rng(n)
        if not isinstance(a, Ab) or not isinstance(b, Ab):
            return Ab(r)
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if op in ('Add', 'Sub') and a.o and b.o:
            if op == 'Sub':
                o = (a.o[0] - b.o[1], a.o[1] - b.o[0])
            else:
                o = (a.o[0] + b.o[0], a.o[1] + b.o[1])
            o = meet(o, r)
            if b.o[0] == b.o[1] and a.u:
                d = b.o[0] if op == 'Add' else -b.o[0]
                u = meet((a.u[0] + d, a.u[1] + d), r)
                return Ab(o, u, a.root, a.off + d)
            if op == 'Add' and a.o[0] == a.o[1] and b.u:
                d = a.o[0]
                return Ab(o, meet((b.u[0] + d, b.u[1] + d), r), b.root, b.off + d)
            return Ab(o)
        if op == 'Mul' and a.o and b.o:
            ps = [x * y for x in a.o for y in b.o]
            return Ab(meet((min(ps), max(ps)), r))
        if op == 'Rem' and a.o and b.o:
            m = max(abs(b.o[0]), abs(b.o[1]))
            lo = 0 if a.o[0] >= 0 else -(m - 1)
            return Ab(meet((lo, m - 1), r) or r)
        if op == 'Div' and a.o and b.o and b.o[0] == b.o[1] and b.o[0] > 0:
            k = b.o[0]
            return Ab((-(-a.o[0] // k) if a.o[0] < 0 else a.o[0] // k, -(-a.o[1] // k) if a.o[1] < 0 else a.o[1] // k))
        if op == 'BitAnd' and a.o and b.o and b.o[0] == b.o[1] and b.o[0] >= 0:
            return Ab((0, b.o[0]))
        return Ab(r)

    def kill(self, st, l):
        st.pop(l, None)

    def stmt(self, st, s, record):
        if 'p' not in s:
            return
        pl, r = s['p'], s['r']
        v = None
        ty = self.place_ty(pl)
        if 'use' in r:
            v = self.op(st, r['use'])
            l = self.loc(r['use'])
            if isinstance(v, Ab) and v.root is None and l is not None and not pl['p'] and isinstance(st.get(l), Ab):
                # both hold one value from here on: what is learnt of one is learnt of the other
                n = '#%d' % self.copies.setdefault(id(s), len(self.copies))
                for k, w in list(st.items()):
                    if isinstance(w, Ab) and w.root == n:
                        st[k] = Ab(w.o, None, deps=w.deps)
                v = st[l] = Ab(v.o, v.u, n, 0, v.deps)
        elif 'ref' in r:
            w = r['ref']
            v = self.read(st, w) if not r.get('m') else None
            if r.get('m'):
                x = st.get(w['l'])
                if isinstance(x, tuple) and x[0] == 'iter' and all(e[0] == 'deref' for e in w['p']) and not pl['p']:
                    v = x
                    self.lent[pl['l']] = self.lent.get(w['l'], w['l']) if w['p'] else w['l']
                elif isinstance(x, Src) and self.dirty(st, x, w):
                    pass
                else:
                    st[w['l']] = ('dep', deps(x))
                    if not pl['p']:
                        v = ('dep', deps(x))
                        self.lent[pl['l']] = self.lent.get(w['l'], w['l']) if w['p'] and w['p'][0][0] == 'deref' else w['l']
        elif 'cast' in r:
            a = self.op(st, r['cast'])
            f, t = r.get('from') or {}, r['ty']
            if r['kind'] == 'IntToInt' and f.get('k') == 'int' and t.get('k') == 'int':
                ra, rb = rng(f['n']), rng(t['n'])
                if not isinstance(a, Ab):
                    a = Ab(ra)
                lossy = not (rb[0] <= ra[0] and ra[1] <= rb[1]) and not ({f['n'], t['n']} == {'usize', 'u64'})
                if lossy and record:
                    self.cast_at(s, f['n'], t['n'], a, rb)
                v = Ab(meet(a.o, rb) or rb, meet(a.u, rb), a.root, a.off, a.deps)
                if lossy and a.root is not None and not (a.o and rb[0] <= a.o[0] and a.o[1] <= rb[1]):
                    # it may have changed: no longer the input itself
                    v = Ab(v.o, v.u, None, 0, deps(a))
            elif r['kind'] == 'IntToFloat' and f.get('k') == 'int':
                m = 2**53 if t.get('n') == 'f64' else 2**24
                if rng(f['n'])[1] > m and record:
                    self.cast_at(s, f['n'], t['n'], a if isinstance(a, Ab) else Ab(rng(f['n'])), (-m, m))
            elif t.get('k') == 'int':
                v = Ab(rng(t['n']), deps=deps(a))
            else:
                v = dep(deps(a))
        elif 'discr' in r:
            x = self.read(st, r['discr'])
            if isinstance(x, tuple) and x[0] == 'opt' and 'next' in x and len(x) > 3:
                # a range is entered when its end lies beyond its start
                v = Cmp('Gt', x[3], x[4])
                v.some = True
            elif not (isinstance(x, tuple) and x[0] == 'opt' and 'next' in x):
                v = dep(deps(x))
        elif 'bin' in r:
            a, b = self.op(st, r['a']), self.op(st, r['b'])
            op = r['bin']
            t = r.get('ty') or {}
            if op in NEG:
                if isinstance(a, Ab) and isinstance(b, Ab):
                    v = Cmp(op, a, b, self.loc(r['a']), self.loc(r['b']))
                else:
                    v = dep(deps(a) | deps(b))
            elif t.get('k') == 'int':
                x = self.arith(op, a, b, t['n'])
                v = ('tup', [x, None]) if op.endswith('WithOverflow') else x
            else:
                v = dep(deps(a) | deps(b))
        elif 'un' in r:
            a = self.op(st, r['a'])
            if r['un'] == 'Neg' and isinstance(a, Ab) and a.o:
                v = Ab((-a.o[1], -a.o[0]), (-a.u[1], -a.u[0]) if a.u else None, None, 0, deps(a))
            elif r['un'] == 'Not' and isinstance(a, Cmp):
                v = Cmp(NEG[a.op], a.a, a.b, a.la, a.lb)
            else:
                v = dep(deps(a))
        elif 'agg' in r and record and r['agg'].get('k') == 'adt':
            for i, o in enumerate(r['ops']):
                self.stored((r['agg']['p'], i), self.op(st, o))
        if 'agg' in r and r['agg'].get('k') in ('adt', 'tuple') and 'ops' in r and not pl['p']:
            a = self.C.adts.get(r['agg'].get('p')) if r['agg']['k'] == 'adt' else {'local': True}
            if r['agg'].get('k') == 'adt' and r['agg'].get('p', '').endswith('ops::Range') and len(r['ops']) == 2:
                v = self.range(st, self.op(st, r['ops'][0]), self.op(st, r['ops'][1]), (ty or {}).get('a', [{}])[0])
            elif a and a.get('local') and not a.get('enum'):
                v = ('tup', [self.op(st, o) for o in r['ops']])
        if pl['p'] and record:
            self.stores(pl, v)
        if 'ref' in r and r.get('m') and record:
            self.stores(r['ref'], None)
        if pl['p']:
            # a part of an object changes: forget what was known about it
            b = st.get(pl['l'])
            if isinstance(b, Src) and self.dirty(st, b, pl):
                pass
            elif pl['p'][0][0] == 'deref':
                if isinstance(b, (Ab, Src)):
                    st[pl['l']] = ('dep', deps(b) | deps(v))
                if pl['l'] in self.lent:
                    x = self.lent[pl['l']]
                    st[x] = ('dep', deps(st.get(x)) | deps(v))
            else:
                st[pl['l']] = ('dep', deps(b) | deps(v))
            return
        if v is None:
            self.kill(st, pl['l'])
            if ty is not None and ty.get('k') == 'int':
                st[pl['l']] = Ab(rng(ty['n']))
        else:
            st[pl['l']] = v

    def stored(self, own, v):
        a = self.C.adts.get(own[0])
        if not a or not a.get('local') or a.get('enum'):
            return
        t = a['variants'][0]['fields'][own[1]]['ty']
        if t.get('k') != 'int':
            return
        if not isinstance(v, Ab):
            v = Ab(rng(t['n']))
        self.fields.setdefault(own, []).append((v.o, v.u))

    def stores(self, pl, v):
        """a part of an object is assigned or lent for writing"""
        t = self.lty(pl['l'])
        for n, e in enumerate(pl['p']):
            if t is None:
                return
            if e[0] == 'deref' and t.get('k') in ('ref', 'ptr'):
                t = t['t']
            elif e[0] == 'field' and t.get('k') == 'adt':
                a = self.C.adts.get(t['p'])
                if not a or not a.get('local') or a.get('enum'):
                    return
                if n == len(pl['p']) - 1:
                    self.stored((t['p'], e[1]), v)
                t = a['variants'][0]['fields'][e[1]]['ty']
            elif e[0] == 'field' and t.get('k') == 'tuple':
                t = t['a'][e[1]] if e[1] < len(t['a']) else None
            else:
                return

    def loc(self, o):
        pl = o.get('copy') or o.get('move')
        return pl['l'] if pl and not pl['p'] else None

    def cast_at(self, s, f, t, a, rb):
        k = (s.get('s'), f, t, id(s))
        o, u = self.casts.get(k, (None, None))[:2]
        self.casts[k] = (hull(o, a.o), under(u, a.u), rb, a.root)

    TO = re.compile(r'(?:ToPrimitive>?::|::)to_(i8|i16|i32|i64|i128|isize|u8|u16|u32|u64|u128|usize)$')

    def call(self, st, t, record):
        f = t['f']
        path = f.get('rpath') or f.get('path') or ''
        args = [self.op(st, a) for a in t['args']]
        dty = t.get('dty') or {}
        v = None
        m = self.TO.search(path)
        last = path.rsplit('::', 1)[-1]
        if record and f.get('rkey') in self.C.items:
            self.calls.setdefault(f['rkey'], []).append(args)
        if m and args:
            n = m.group(1)
            a = args[0]
            if isinstance(a, Src):
                v = ('opt', self.root(st, a.name, n))
            elif isinstance(a, Ab):
                v = ('opt', Ab(meet(a.o, rng(n)) or rng(n), meet(a.u, rng(n)), a.root, a.off, a.deps))
            else:
                v = ('opt', Ab(rng(n), deps=deps(a)))
            v = v + ('conv',)
        elif re.search(r'TryFrom|TryInto', path) and last in ('try_from', 'try_into'):
            a = args[0] if args else None
            n = None
            if dty.get('k') == 'adt' and dty.get('a'):
                n = dty['a'][0].get('n')
            if n in INT_RANGE:
                if isinstance(a, Ab):
                    v = ('opt', Ab(meet(a.o, rng(n)) or rng(n), meet(a.u, rng(n)), a.root, a.off, a.deps), 'conv')
                elif isinstance(a, Src):
                    v = ('opt', self.root(st, a.name, n), 'conv')
        elif re.search(r'(Option|Result)(::<.*>)?::', path) and args and isinstance(args[0], tuple) and args[0][0] == 'opt':
            if last in ('unwrap', 'expect'):
                v = args[0][1]
                if isinstance(v, Ab) and v.root and 'conv' in args[0] and v.o:
                    full = rng(dty.get('n'))
                    self.narrow(st, v.root, (full[0] - v.off, full[1] - v.off))
                    self.unknown_guard(st, v.deps)
                elif 'next' not in args[0]:
                    self.unknown_guard(st, deps(v))
            elif last in ('unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map_or', 'unwrap_unchecked'):
                if record and len(args[0]) > 2:
                    x = args[0][1]
                    if x.u is not None and x.root is not None:
                        self.casts[(t.get('s'), 'number', 'fallback of ' + last, id(t))] = (ALL, ALL, (1, 0), x.root)
            elif last in ('ok', 'as_ref', 'copied', 'cloned', 'ok_or', 'ok_or_else'):
                v = args[0]
        elif last in ('iter', 'into_iter', 'keys', 'values') and args and isinstance(args[0], Src) and args[0].ty is not None and isinstance(self.elem(args[0]), (tuple, Src)):
            e = self.elem(args[0])
            if last in ('keys', 'values'):
                e = e[1][last == 'values'] if isinstance(e, tuple) else None
            v = ('iter', e) if e is not None else None
        elif last in ('into_iter', 'rev', 'skip', 'take', 'cloned', 'copied') and args and isinstance(args[0], tuple) and args[0][0] == 'iter':
            v = args[0]
        elif last == 'next' and args and isinstance(args[0], tuple) and args[0][0] == 'iter':
            self.fresh(st, args[0][1])
            v = ('opt', args[0][1], 'next') + args[0][2:]
        elif last == 'range' and len(args) == 2 and all(isinstance(a, (Ab, Src)) for a in args):
            v = self.range(st, args[0], args[1], (t.get('argtys') or [{}])[0])
        elif last in ('clone', 'borrow', 'as_ref', 'deref', 'to_owned') and args and isinstance(args[0], (Src, Ab)):
            v = args[0]
        elif last in ('clone', 'to_owned') and args and isinstance(args[0], tuple) and args[0][0] == 'tup':
            v = args[0]
        elif f.get('rkey') in self.C.items and args and getter(self.C, f['rkey']) is not None:
            v = self.get(st, args, getter(self.C, f['rkey']), dty)
        elif last in ('from', 'into') and args and isinstance(args[0], Ab) and dty.get('k') == 'int':
            v = Ab(meet(args[0].o, rng(dty['n'])) or rng(dty['n']), meet(args[0].u, rng(dty['n'])), args[0].root, args[0].off, args[0].deps)
        elif last in ('from', 'into') and args and isbig(dty):
            v = args[0] if isinstance(args[0], (Src, Ab)) else None
        elif last in ('zero', 'one') and isbig(dty):
            v = Ab((int(last == 'one'),) * 2, (int(last == 'one'),) * 2)
        elif last in ('abs', 'unsigned_abs') and args and isinstance(args[0], Ab) and args[0].o:
            o = args[0].o
            m_ = max(abs(o[0]), abs(o[1]))
            lo = 0 if o[0] <= 0 <= o[1] else min(abs(o[0]), abs(o[1]))
            v = Ab((lo, m_))
        elif last == 'len':
            v = Ab((0, 2**63 - 1))
        elif last in ('zero', 'one') and dty.get('k') == 'int':
            c = 0 if last == 'zero' else 1
            v = Ab((c, c), (c, c))
        elif last in ('is_zero', 'is_one', 'is_positive', 'is_negative') and args and (
                isinstance(args[0], Ab) or isinstance(args[0], Src) and isbig(t['argtys'][0])):
            if isinstance(args[0], Src):
                args[0] = self.root(st, args[0].name, 'big')
            c = {'is_zero': ('Eq', 0), 'is_one': ('Eq', 1), 'is_positive': ('Gt', 0), 'is_negative': ('Lt', 0)}[last]
            v = Cmp(c[0], args[0], Ab((c[1], c[1]), (c[1], c[1])), None, None)
        elif last in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(args) == 2:
            for i in (0, 1):
                if isinstance(args[i], Src) and isinstance(args[1 - i], Ab) and isbig(t['argtys'][i]):
                    args[i] = self.root(st, args[i].name, 'big')
            if isinstance(args[0], Ab) and isinstance(args[1], Ab):
                v = Cmp(last.capitalize(), args[0], args[1])
        elif last == 'lt' and len(args) == 2 and isinstance(args[0], tuple) and args[0][0] == 'dep' and len(args[0]) > 3 and isinstance(args[1], Src) and args[1].name == args[0][3]:
            # x mod p < p for every p > 0
            v = Cmp('Gt', self.root(st, args[1].name, 'big'), Ab((0, 0), (0, 0)))
        elif last in ('mod_floor', 'rem_euclid') and len(args) == 2 and isinstance(args[1], Src) and args[1].ty is not None and isbig(args[1].ty):
            v = ('dep', deps(args[0]) | deps(args[1]), 'mod', args[1].name)
        elif last in ('min', 'max') and len(args) == 2 and isinstance(args[0], Ab) and isinstance(args[1], Ab) and args[0].o and args[1].o:
            g = min if last == 'min' else max
            v = Ab((g(args[0].o[0], args[1].o[0]), g(args[0].o[1], args[1].o[1])))
        elif last == 'is_prime' and args and isinstance(args[0], Ab):
            v = Cmp('Ge', args[0], Ab((2, 2), (2, 2)))
            v.sparse = True
        ads = frozenset().union(*[deps(a) for a in args])
        if last in ('unwrap', 'expect') and args and isinstance(args[0], tuple) and args[0][0] == 'dep':
            self.unknown_guard(st, args[0][1])
        if isinstance(v, Ab) and v.root is None:
            v = with_deps(v, ads)
        # an argument passed by mutable reference may change
        for a, ty in zip(t['args'], t.get('argtys') or []):
            pl = a.get('copy') or a.get('move')
            if pl and ty.get('k') == 'ref' and ty.get('m') and not pl['p']:
                if isinstance(st.get(pl['l']), (Ab, Src)):
                    st[pl['l']] = ('dep', deps(st[pl['l']]) | ads)
                if pl['l'] in self.lent:
                    x = self.lent[pl['l']]
                    if not isinstance(st.get(x), tuple) or st[x][0] == 'dep':
                        st[x] = ('dep', deps(st.get(x)) | ads)
        if last == 'next' and isinstance(v, tuple) and t['args']:
            # what is lent for this call is the iterator itself
            pl = t['args'][0].get('copy') or t['args'][0].get('move')
            if pl and not pl['p'] and pl['l'] in self.lent:
                st[self.lent[pl['l']]] = args[0]
        d = t['dst']
        if not d['p']:
            if v is None:
                self.kill(st, d['l'])
                if dty.get('k') == 'int':
                    st[d['l']] = Ab(rng(dty['n']), deps=ads)
                elif ads:
                    # an opaque function of inputs: which of them pass a test of it is not known
                    st[d['l']] = ('dep', ads)
            else:
                st[d['l']] = v
        else:
            st[d['l']] = ('dep', deps(st.get(d['l'])) | ads)
        if f.get('rkey') in self.C.items:
            # it returns only for arguments that pass its own checks
            ex = exits(self.C, f['rkey'])
            for i, a in enumerate(args):
                if isinstance(a, Ab) and a.root and a.off == 0:
                    nm = a.root
                elif isinstance(a, Src):
                    nm = a.name
                elif isinstance(a, Ab) and a.root:
                    self.unknown_guard(st, [a.root])
                    continue
                else:
                    continue
                if ex is None:
                    self.unknown_guard(st, [nm])
                    continue
                pre = '_%d' % (i + 1)
                for r, u in ex.items():
                    if r != pre and not r.startswith(pre + '.'):
                        continue
                    full = nm + r[len(pre):]
                    if u is None:
                        self.unknown_guard(st, [full])
                    elif u != ALL:
                        b = self.root(st, full, 'big')
                        w = meet(b.u, u)
                        st[('R', full)] = Ab(b.o, w, full)
                        for l, v in list(st.items()):
                            if isinstance(v, Ab) and v.root == full and v.u is not None:
                                x = meet((v.u[0] - v.off, v.u[1] - v.off), w)
                                st[l] = Ab(v.o, (x[0] + v.off, x[1] + v.off) if x else None, v.root, v.off, v.deps)

    def assume(self, st, c, truth):
        """refine by a comparison; False when it cannot hold"""
        if not isinstance(c, Cmp):
            self.unknown_guard(st, deps(c))
            return True
        self.unknown_guard(st, [r for x in (c.a, c.b) for r in x.deps])
        op = c.op if truth else NEG[c.op]
        if getattr(c, 'sparse', False) and not truth:
            return True
        for x, y, o in ((c.a, c.b, op), (c.b, c.a, FLIP[op])):
            if x.o is None or y.o is None:
                continue
            no = restrict(x.o, o, y.o[0], y.o[1])
            if no is None:
                return False
            if x.root is None and not (c.la is not None or c.lb is not None):
                continue
            known = y.o[0] == y.o[1]
            lx = c.la if x is c.a else c.lb
            for l, v in list(st.items()):
                if not isinstance(v, Ab):
                    continue
                if x.root is not None and v.root == x.root:
                    d = v.off - x.off
                elif lx == l and v.o == x.o:
                    d = 0
                else:
                    continue
                if v.o is None:
                    continue
                w = restrict((v.o[0] - d, v.o[1] - d), o, y.o[0], y.o[1])
                u = None
                if v.u is not None:
                    if known:
                        u = restrict((v.u[0] - d, v.u[1] - d), o, y.o[0], y.o[1])
                    elif o in ('Ne',):
                        u = (v.u[0] - d, v.u[1] - d)
                    u = (u[0] + d, u[1] + d) if u else None
                if w is None:
                    return False
                st[l] = Ab((w[0] + d, w[1] + d), u, v.root, v.off, v.deps)
        return True

    def join(self, a, b):
        out = {}
        # inputs of which different things are known on the two ways in: values that differ depend on them
        ds = set()
        diff = []
        for l, x in a.items():
            y = b.get(l)
            if x is y:
                out[l] = x
                continue
            diff.append(l)
            if isinstance(l, tuple):
                if l[0] in ('R', 'T') and x != y:
                    ds.add(l[1])
            elif isinstance(x, Ab) and isinstance(y, Ab) and x.root and x.root == y.root and (x.o, x.u) != (y.o, y.u):
                ds.add(x.root)
        one = [l for l in b if l not in a] + [l for l in diff if l not in b]
        for l in one:
            if isinstance(l, tuple) and l[0] in ('R', 'T'):
                ds.add(l[1])
        ds = frozenset(r for r in ds if r[0] != '#')
        for l in one:
            if isinstance(l, int):
                d = ds | deps(a.get(l)) | deps(b.get(l))
                if d:
                    out[l] = ('dep', d)
        for l in diff:
            if l not in b:
                continue
            x, y = a[l], b[l]
            if isinstance(x, Ab) and isinstance(y, Ab):
                root = x.root if (x.root, x.off) == (y.root, y.off) else None
                # a value is attained at the join when it is attained on one way in
                u = under(x.u, y.u)
                out[l] = Ab(hull(x.o, y.o), u, root, x.off, x.deps | y.deps | (ds | deps(x) | deps(y) if root is None and (x.o != y.o or x.root or y.root) else frozenset()))
            elif type(x) is type(y) and x == y:
                out[l] = x
            elif isinstance(l, int):
                out[l] = ('dep', ds | deps(x) | deps(y))
            elif x is True or y is True:
                out[l] = True
        for l in one:
            if isinstance(l, tuple) and (l[0] in 'DS' or l[0] == 'T' and any(
                    isinstance(k, tuple) and k[0] == 'S' and (k[1] == l[1] or k[1].startswith(l[1] + '.') or l[1].startswith(k[1] + '.'))
                    for k in list(a) + list(b))):
                out[l] = True
            # ('T', ..): untested on one way in: the input is unrestricted there
        return out

    def run(self):
        b = self.b
        an = b.analysis()
        heads = set(an.loops)
        st0 = {}
        for i in range(1, b.argc + 1):
            t = self.lty(i)
            v = self.params.get(i) if self.params is not None else None
            core = t
            while core.get('k') == 'ref':
                core = core['t']
            if self.params is None:
                if core.get('k') == 'int':
                    st0[i] = Ab(rng(core['n']), rng(core['n']), '_%d' % i)
                else:
                    st0[i] = Src('_%d' % i, t)
            elif isinstance(v, Ab):
                st0[i] = Ab(v.o, v.u, '_%d' % i)
            elif isinstance(v, Src):
                st0[i] = Src('_%d' % i, t)
            elif core.get('k') == 'int':
                st0[i] = Ab(rng(core['n']))
        ins = {an.rpo[0]: st0}
        cnt = {}
        pos = {n: i for i, n in enumerate(an.rpo)}
        todo = {an.rpo[0]}
        steps = 0
        while todo:
            n = min(todo, key=lambda x: pos.get(x, 10**9))
            todo.discard(n)
            steps += 1
            if steps > 200 * len(self.b.blocks) + 1000:
                raise RuntimeError('no fixpoint')
            for s_, st in self.step(n, dict(ins[n]), False):
                if s_ not in ins:
                    ins[s_] = st
                else:
                    j = self.join(ins[s_], st)
                    if j == ins[s_]:
                        continue
                    cnt[s_] = cnt.get(s_, 0) + 1
                    if cnt[s_] > 4:
                        # widen
                        for l, v in list(j.items()):
                            w = ins[s_].get(l)
                            if isinstance(v, Ab) and isinstance(w, Ab) and v.o != w.o:
                                t = self.lty(l) if isinstance(l, int) else {}
                                r = rng(t.get('n')) if t.get('k') == 'int' else ALL
                                lo = w.o[0] if v.o[0] >= w.o[0] else r[0]
                                hi = w.o[1] if v.o[1] <= w.o[1] else r[1]
                                j[l] = Ab((lo, hi), w.u, None, 0, deps(v) | deps(w))
                            elif isinstance(v, Ab) and isinstance(w, Ab) and cnt[s_] > 8:
                                j[l] = Ab(v.o, w.u, v.root, v.off, v.deps)
                        if j == ins[s_]:
                            continue
                    ins[s_] = j
                    if cnt[s_] > 40:
                        continue
                todo.add(s_)
        self.ins = ins
        for n in list(ins):
            self.step(n, dict(ins[n]), True)
        return self

    def step(self, n, st, record):
        bl = self.b.blocks[n]
        if self.soft_switches:
            for k in [k for k in st if isinstance(k, tuple) and k[0] == 'S' and k[2] == n]:
                st.pop(k)
        for s in bl['st']:
            self.stmt(st, s, record)
        t = bl['t']
        k = t['k']
        out = []
        if k == 'call':
            self.call(st, t, record)
            if t.get('t') is not None:
                out.append((t['t'], st))
        elif k == 'switch':
            self.soft = self.soft_switches[n] if n in self.soft_switches else False
            d = t['d']
            c = self.op(st, d)
            ty = t.get('ty') or {}
            for v, bb in t['v']:
                s2 = dict(st)
                v = int(v)
                ok = True
                if isinstance(c, Cmp) and getattr(c, 'some', False):
                    ok = self.assume(s2, c, True) if v else True
                elif ty.get('k') == 'bool' and isinstance(c, Ab):
                    self.unknown_guard(s2, deps(c))
                elif isinstance(c, Ab):
                    ok = self.assume(s2, Cmp('Eq', c, Ab((v, v), (v, v)), self.loc(d)), True)
                else:
                    ok = self.assume(s2, c, v != 0) if ty.get('k') == 'bool' else self.assume(s2, dep(deps(c)), True)
                if ok:
                    out.append((bb, s2))
            if t.get('o') is not None:
                s2 = dict(st)
                ok = True
                if isinstance(c, Cmp) and getattr(c, 'some', False):
                    pass
                elif ty.get('k') == 'bool' and isinstance(c, Ab):
                    self.unknown_guard(s2, deps(c))
                elif ty.get('k') == 'bool' and len(t['v']) == 1:
                    ok = self.assume(s2, c, int(t['v'][0][0]) == 0)
                elif isinstance(c, Ab):
                    for v, bb in t['v']:
                        v = int(v)
                        ok = ok and self.assume(s2, Cmp('Ne', c, Ab((v, v), (v, v)), self.loc(d)), True)
                else:
                    self.unknown_guard(s2, deps(c))
                if ok:
                    out.append((t['o'], s2))
            self.soft = False
        elif k == 'assert':
            s2 = dict(st)
            if self.assume(s2, self.op(st, t['c']), bool(t['e'])):
                out.append((t['t'], s2))
        else:
            for s_ in succs(t):
                out.append((s_, dict(st)))
        return [(b, s) for b, s in out if self.b.blocks[b]['t']['k'] != 'unreachable']


def harmless(b):
    """switches whose ways out all come together again before the function ends or panics: what passes is everything"""
    n = len(b.blocks)
    su = []
    for bl in b.blocks:
        x = [y for y in succs(bl['t']) if b.blocks[y]['t']['k'] != 'unreachable']
        su.append(x or [n])
    full = (1 << (n + 1)) - 1
    pd = [full] * n + [1 << n]
    an = b.analysis()
    order = [x for x in reversed(an.rpo) if x < n]
    ch = True
    while ch:
        ch = False
        for x in order:
            m = full
            for y in su[x]:
                m &= pd[y]
            m |= 1 << x
            if m != pd[x]:
                pd[x], ch = m, True
    out = {}
    for x in order:
        c = pd[x] & ~(1 << x) & ~(1 << n)
        if b.blocks[x]['t']['k'] == 'switch' and c:
            out[x] = max((y for y in range(n) if c >> y & 1), key=lambda y: bin(pd[y]).count('1'))
    return out


def exits(C, key):
    """what is known of the inputs when a function returns: {input name: attained interval or None}; None: nothing"""
    m = C.__dict__.setdefault('_exits', {})
    if key in m:
        return m[key]
    m[key] = None
    it = C.items[key]
    if it.body is None:
        return None
    try:
        f = Fn(C, it, None)
        f.soft_switches = harmless(it.body)
        f.run()
    except Exception:
        return None
    acc = None
    for n, st in f.ins.items():
        if it.body.blocks[n]['t']['k'] != 'return':
            continue
        d = {k[1]: v.u for k, v in st.items() if isinstance(k, tuple) and k[0] == 'R'}
        d.update({k[1]: None for k in st if isinstance(k, tuple) and k[0] == 'T' and k[1] not in d})
        if acc is None:
            acc = d
        else:
            acc = {k: under(acc[k], d[k]) for k in set(acc) & set(d)}
    m[key] = acc
    return acc


def getter(C, key):
    """(argument, field numbers) of the part a function returns unchanged; None when it does more than that"""
    m = C.__dict__.setdefault('_getters', {})
    if key in m:
        return m[key]
    m[key] = None
    it = C.items[key]
    if it.body is None or len(it.body.blocks) > 12:
        return None
    n, l = None, it.body.blocks
    try:
        f = Fn(C, it, None).run()
    except Exception:
        return None
    for b, st in f.ins.items():
        if l[b]['t']['k'] not in ('return',):
            continue
        s2 = dict(st)
        for s in l[b]['st']:
            f.stmt(s2, s, False)
        g = tree(C, it, s2.get(0))
        if g is None or n not in (None, g):
            return None
        n = g
    if n is None or f.ins and any(isinstance(k, tuple) and k[0] in 'TD' for st in f.ins.values() for k in st):
        return None
    m[key] = n
    return n


def tree(C, it, v):
    if isinstance(v, tuple) and v and v[0] == 'tup':
        return ('tup', [tree(C, it, x) for x in v[1]])
    nm = v.name if isinstance(v, Src) else v.root if isinstance(v, Ab) and v.off == 0 and v.u is not None else None
    if nm is None or '[' in nm or nm[0] == '#':
        return None
    ps = nm.split('.')
    i = int(ps[0][1:]) - 1
    t = it.body.locals[i + 1]['ty']
    idx = []
    for p in ps[1:]:
        while t.get('k') == 'ref':
            t = t['t']
        fs = C.adts[t['p']]['variants'][0]['fields']
        j = [x['name'] for x in fs].index(p)
        idx.append(j)
        t = fs[j]['ty']
    return (i, idx)


def reachable_pub(C, it):
    return bool(it.j.get('pub')) or bool(it.j.get('trait'))


def casts(ctx, tier):
    C = ctx.crate
    items = [i for i in C.items.values() if i.body and i.kind.split('(')[0] in ('Fn', 'AssocFn', 'Closure')]
    params = {}
    pub = {i.key for i in items if reachable_pub(C, i)}
    res = {}
    inv = {}
    # private functions: parameters as the callers give them (a few rounds down the call graph);
    # fields: what the constructors and assignments of the crate store in them
    for rnd in range(5):
        calls = {}
        fields = {}
        for it in items:
            p = None if it.key in pub else params.get(it.key, {})
            try:
                f = Fn(C, it, p, inv).run()
            except Exception as e:   # not analysed: nothing claimed
                res[it.key] = e
                continue
            res[it.key] = f
            for k, vs in f.fields.items():
                fields.setdefault(k, []).extend(vs)
            for k, cs in f.calls.items():
                calls.setdefault(k, []).extend(cs)
        np = {}
        for it in items:
            if it.key in pub or it.kind.startswith('Closure'):
                continue
            cs = calls.get(it.key)
            if not cs:
                continue
            d = {}
            for i in range(1, it.body.argc + 1):
                vs = [c[i - 1] if i - 1 < len(c) else None for c in cs]
                if all(isinstance(v, Ab) for v in vs):
                    o, u = None, None
                    for v in vs:
                        o, u = hull(o, v.o), under(u, v.u)
                    d[i] = Ab(o, u)
                elif any(isinstance(v, Src) for v in vs):
                    d[i] = Src('_%d' % i)
            np[it.key] = d
        ninv = {}
        for k, vs in fields.items():
            o, u = None, None
            for v in vs:
                o, u = hull(o, v[0]), under(u, v[1])
            t = C.adts[k[0]]['variants'][0]['fields'][k[1]]['ty']
            if o is not None and o != rng(t['n']) and not any(isinstance(r, Exception) for r in res.values()):
                ninv[k] = (o, u)
        if np == params and (ninv == inv or rnd >= 3):
            break
        params, inv = np, ninv
    viol, rows = [], []
    n_all = 0
    for it in items:
        f = res[it.key]
        for b in [it.body]:
            for bl in b.blocks:
                for s in bl['st']:
                    if (s.get('r') or {}).get('kind') in ('IntToInt', 'IntToFloat', 'FloatToInt'):
                        n_all += 1
        if isinstance(f, Exception):
            rows.append(dict(function=it.path, status='not analysed', why=repr(f)[:200]))
            continue
        for (sp, a, t, _), (o, u, rb, root) in f.casts.items():
            if o is None or (rb[0] <= o[0] and o[1] <= rb[1]):
                stt = 'proved'
            elif u is not None and (u[0] < rb[0] or u[1] > rb[1]):
                stt = 'violated'
                bad = u[1] if u[1] > rb[1] else u[0]
                viol.append(dict(kind='cast', function=it.path, at=sp, text='%s (%s): %s -> %s can change the value: %s (e.g. %d) reaches it unchecked'
                                 % (it.path, sp, a, t, root if root and root[0] != '#' else 'an arbitrary argument', bad)))
            else:
                stt = 'undecided'
            rows.append(dict(function=it.path, at=sp, cast='%s -> %s' % (a, t), status=stt, over=str(o), attained=str(u)))
    return dict(viol=viol, n=len(items), cov=dict(
        rule='every integer conversion is widening by type, or the interval of the operand at the site (guards, callers of private '
             'functions) lies in the target type; a checked conversion is not replaced by a default', bodies=len(items),
        conversions=n_all, lossy_by_type=len(rows), sites=rows))
