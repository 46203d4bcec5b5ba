"""Abstract values."""
from nf import *
import nf
from facts import *
import facts as fx
import ring


class V0:
    __slots__ = ()

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%s%r' % (type(self).__name__, self.key())


class Rec(V0):
    """struct / tuple / array"""
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = tuple(f)

    def key(self):
        return (self.ty, self.f)


class En(V0):
    __slots__ = ('ty', 'v', 'f')

    def __init__(self, ty, v, f=()):
        self.ty, self.v, self.f = ty, v, tuple(f)

    def key(self):
        return (self.ty, self.v, self.f)


class Ref(V0):
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def key(self):
        return (self.cell, self.path)


class MapV(V0):
    """BTreeMap<Monomial, BigInt> as a ring element.
    zf: True when every stored coefficient outside `dirty` is non-zero;
        False / ('zeros', coll, uid, guard): keys that may hold zero
    dirty: ((Key, value), ..) keys that are present whatever their value
    pend: (uid, P) pending pointwise update of the element of loop uid"""
    __slots__ = ('r', 'zf', 'dirty', 'pend', 'rem')

    def __init__(self, r, zf=True, dirty=(), pend=None, rem=None):
        self.r, self.zf, self.dirty, self.pend, self.rem = r, zf, tuple(dirty), pend, rem

    def key(self):
        return (self.r, self.zf, self.dirty, self.pend, self.rem)


class Written:
    """zf of a map that may hold zeros at the keys written, and nowhere else: ((((coll, uid, guard), ..), Key), ..);
    base False: on top of unknown ones"""
    __slots__ = ('base', 'parts')

    def __init__(self, base, parts):
        self.base, self.parts = base, tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Written) and self.base == o.base and self.parts == o.parts

    def __hash__(self):
        return hash((self.base, self.parts))

    def under(self, *b):
        return Written(self.base, [((b,) + bs, k) for bs, k in self.parts])

    def with_(self, parts, base=None):
        return Written(self.base if base is None else base, self.parts + tuple(p for p in parts if p not in self.parts))


class SetV(V0):
    """a set (or list) of monomials: ((coll, uid, guard, Key), ..) comprehension parts"""
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def key(self):
        return self.parts


class VecV(V0):
    """segments: ('it', value) | ('comp', coll, uid, ((guard, (values..)),..)) |
    ('rep', value, n) | ('base', coll) | ('mu', uid, slot)"""
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def key(self):
        return self.segs


class ArrV(V0):
    """rectangular array of numbers: term (see arr.py) and extents"""
    __slots__ = ('a', 'dims')

    def __init__(self, a, dims):
        self.a, self.dims = a, tuple(dims)

    def key(self):
        return (self.a, self.dims)


class StrV(V0):
    """parts: ('s', text) | ('d', value-key...) | ('comp', ..) | ('mu', uid, slot) | ('trim', parts)"""
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        out = []
        for p in parts:
            if p[0] == 's':
                if not p[1]:
                    continue
                if out and out[-1][0] == 's':
                    out[-1] = ('s', out[-1][1] + p[1])
                    continue
            out.append(p)
        self.parts = tuple(out)

    def key(self):
        return self.parts


class IterV(V0):
    """base: ('coll', coll) | ('items', values); elem: how an element is presented"""
    __slots__ = ('base', 'elem', 'rev', 'pos', 'stages', 'src', 'end')

    def __init__(self, base, elem, rev=False, pos=0, stages=(), src=None, end=0):
        self.base, self.elem, self.rev, self.pos = base, elem, rev, pos
        self.stages, self.src, self.end = tuple(stages), src, end

    def key(self):
        return (self.base, self.elem, self.rev, self.pos, self.stages, self.src, self.end)

    def with_(self, **kw):
        d = dict(base=self.base, elem=self.elem, rev=self.rev, pos=self.pos, stages=self.stages, src=self.src, end=self.end)
        d.update(kw)
        return IterV(**d)


class Clos(V0):
    __slots__ = ('d', 'f')

    def __init__(self, d, f=()):
        self.d, self.f = d, tuple(f)

    def key(self):
        return (self.d, self.f)


class FnV(V0):
    """a function item used as a value"""
    __slots__ = ('rpath', 'rkey', 'info')

    def __init__(self, info):
        self.info = info
        self.rpath, self.rkey = info.get('rpath') or info.get('path'), info.get('rkey')

    def key(self):
        return (self.rpath, self.rkey)


class Text(V0):
    """a formatted value: &dyn Display argument, Arguments, ..."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def key(self):
        return self.parts


class Bool(V0):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def key(self):
        return self.f


class Opaque(V0):
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def key(self):
        return self.why


UNIT = Rec('()', ())
TRUE, FALSE = Bool(True), Bool(False)
OPT = 'std::option::Option'
RES = 'std::result::Result'
ORD = 'std::cmp::Ordering'
MONO = 'term::Monomial'
TERM = 'term::Term'
POLY = 'polynomial::Polynomial'
SV = 'subscripted_variable::SubscriptedVariable'
ECP = 'elliptic_curve::ECPoint'
EC = 'elliptic_curve::EllipticCurve'
NONE = En(OPT, 0)


def some(v):
    return En(OPT, 1, (v,))


def ok(v):
    return En(RES, 0, (v,))


def bval(b):
    return TRUE if b is True else FALSE if b is False else Bool(b)


def ordv(v):
    return En(ORD, v)     # variant 0 Less, 1 Equal, 2 Greater


class NeedFork(Exception):
    def __init__(self, f):
        self.f = f


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class Panic(Exception):
    pass


class Budget(Exception):
    pass


class St:
    """abstract state: cells and facts"""
    __slots__ = ('c', 'facts')

    def __init__(self, c=None, facts=None):
        self.c = c if c is not None else {}
        self.facts = facts if facts is not None else Facts()

    def copy(self):
        return St(dict(self.c), self.facts)

    def dec(self, f):
        """truth of f in this state; forks when it is not determined"""
        if f is True or f is False:
            return f
        r = self.facts.decide(f)
        if r is None:
            raise NeedFork(f)
        return r

    def know(self, f):
        return self.facts.decide(f)

    def assume(self, f):
        r = self.facts.add(f)
        if not r:
            raise Infeasible()
        if len(r) > 1:
            raise NeedFork(first_undecided(self.facts, f))
        self.facts = r[0]

    def norm(self, p):
        return self.facts.norm(p)


def first_undecided(facts, f):
    if f[0] == 'lit':
        return f
    for x in f[1]:
        if facts.decide(x) is None:
            return first_undecided(facts, x)
    return f[1][0]


# ---- generic traversal -------------------------------------------------------------

class Mapper:
    """transforms the normal forms / formulas / markers inside a value"""

    def __init__(self, p=None, f=None, seg=None, tup=None):
        self.p = p or (lambda x: x)
        self.f = f or (lambda x: x)
        self.seg = seg
        self.tup = tup

    def formula(self, g):
        return g if isinstance(g, bool) else self.f(g)

    def keyk(self, k):
        return ring.Key(self.p(k.x), self.p(k.y), self.p(k.q), self.p(k.i), self.p(k.j), self.formula(k.e))

    def coll(self, c):
        if c[0] == 'map':
            return ('map', self.p(c[1]))
        if c[0] == 'range':
            return ('range', self.p(c[1]), self.p(c[2]))
        return tuple(self.p(x) if isinstance(x, P) else
                     (self.formula(x) if isinstance(x, tuple) and x and x[0] in ('lit', 'and', 'or') else
                      (self.coll(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('map', 'range') else x))
                     for x in c)

    def v(self, x):
        if isinstance(x, P):
            return self.p(x)
        if isinstance(x, Rec):
            return Rec(x.ty, [self.v(y) for y in x.f])
        if isinstance(x, En):
            return En(x.ty, x.v, [self.v(y) for y in x.f]) if x.f else x
        if isinstance(x, Bool):
            if isinstance(x.f, bool):
                return x
            return bval(self.f(x.f))
        if isinstance(x, Ref):
            return Ref(x.cell, [self.pathel(e) for e in x.path])
        if isinstance(x, MapV):
            zf = x.zf
            if isinstance(zf, tuple):
                zf = ('zeros', self.coll(zf[1]), zf[2], self.formula(zf[3]), self.p(zf[4]) if zf[4] is not None else None)
            elif isinstance(zf, Written):
                zf = Written(zf.base, [(tuple((self.coll(c), u, self.formula(g)) for c, u, g in bs), self.keyk(k))
                                       for bs, k in zf.parts])
            return MapV(self.p(x.r), zf, [(self.keyk(k), self.p(v)) for k, v in x.dirty],
                        (x.pend[0], self.p(x.pend[1])) if x.pend else None, x.rem)
        if isinstance(x, SetV):
            out = []
            for c, u, g, k in x.parts:
                if c == 'mu':
                    r = self.seg(('mu', u, g)) if self.seg else None
                    out.extend(r if r is not None else [(c, u, g, k)])
                else:
                    out.append((self.coll(c) if c else c, u, self.formula(g), self.keyk(k)))
            return SetV(out)
        if isinstance(x, VecV):
            out = []
            for s in x.segs:
                if s[0] == 'it':
                    out.append(('it', self.v(s[1])))
                elif s[0] == 'rep':
                    out.append(('rep', self.v(s[1]), self.p(s[2])))
                elif s[0] == 'comp':
                    out.append(('comp', self.coll(s[1]), s[2],
                                tuple((self.formula(g), tuple(self.v(y) for y in vs)) for g, vs in s[3]), s[4]))
                elif s[0] == 'mu' and self.seg:
                    r = self.seg(s)
                    out.extend(r if r is not None else [s])
                else:
                    out.append(s)
            return VecV(out)
        if isinstance(x, (StrV, Text)):
            return type(x)(self.parts(x.parts))
        if isinstance(x, IterV):
            b = x.base
            if b[0] == 'coll':
                b = ('coll', self.coll(b[1]))
            elif b[0] == 'items':
                b = ('items', tuple(self.v(y) for y in b[1]))
            pos = self.p(x.pos) if isinstance(x.pos, P) else x.pos
            return x.with_(base=b, pos=pos, stages=[tuple(self.v(y) if isinstance(y, (V0, P)) else y for y in s) for s in x.stages],
                           src=self.v(x.src) if x.src is not None else None)
        if isinstance(x, Clos):
            return Clos(x.d, [self.v(y) for y in x.f])
        if isinstance(x, ArrV):
            return ArrV(self.p(x.a), [self.p(d) for d in x.dims])
        return x

    def parts(self, ps):
        out = []
        for s in ps:
            if s[0] == 'd':
                out.append(('d',) + tuple(self.p(y) if isinstance(y, P) else (self.v(y) if isinstance(y, V0) else y) for y in s[1:]))
            elif s[0] == 'comp':
                out.append(('comp', self.coll(s[1]), s[2],
                            tuple((self.formula(g), tuple(self.parts(vs))) for g, vs in s[3]), s[4]))
            elif s[0] == 'trim':
                out.append(('trim', tuple(self.parts(s[1]))))
            elif s[0] == 'mu' and self.seg:
                r = self.seg(s)
                out.extend(r if r is not None else [s])
            else:
                out.append(s)
        return out

    def pathel(self, e):
        if isinstance(e, tuple):
            if e[0] == 'key':
                return ('key', self.keyk(e[1]))
            if e[0] == 'idx':
                return ('idx', self.p(e[1]))
        return e


def subst_mapper(mp, fmp=None, seg=None):
    """substitution of atoms (ids) and of boolean literals (keys)"""
    memo = {}

    def f(g):
        if isinstance(g, bool):
            return g
        if g[0] == 'lit':
            if fmp and g[1] in fmp:
                r = fmp[g[1]]
                return r if g[2] else f_not(r)
            return fx.subst_lit(g[1], g[2], mp) if mp else g
        xs = [f(x) for x in g[1]]
        return f_and(*xs) if g[0] == 'and' else f_or(*xs)
    return Mapper(lambda p: nf.subst(p, mp, memo) if mp else p, f, seg)


def value_mentions(x, test):
    """any normal form / formula inside x for which test(obj) holds"""
    hit = []

    def p(y):
        if test(y):
            hit.append(1)
        return y

    def seg(s):
        if test(s):
            hit.append(1)
        return None
    Mapper(p, p, seg).v(x)
    return bool(hit)
