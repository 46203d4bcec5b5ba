"""Evaluation of derived normal forms at a valuation of the symbolic inputs.

Used to compare a derived summary with a specified one by identity testing: the
objects evaluated here are the closed forms produced by the analysis, never the
analysed program."""
from fractions import Fraction
from math import gcd
import nf
from nf import P
import facts as fx
import ring
from values import *
import arr
import interp as _in


NAT = 200
SHOW = {}        # text of a value by kind: contracts of the Display implementations


class EvalUnknown(Exception):
    """the form contains something without a value (unresolved atom, division by zero..)"""


class EvalOutside(EvalUnknown):
    """a helper with a contract is called outside the domain on which it is specified"""


class Undef(EvalUnknown):
    pass


def fr(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class CP:
    """concrete polynomial: {(x,y,q,vars): coef}; vars = sorted ((i,j),exp)"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = {k: fr(c) for k, c in d.items() if c != 0}

    def __eq__(self, o):
        return isinstance(o, CP) and self.d == o.d

    def __add__(self, o):
        d = dict(self.d)
        for k, c in o.d.items():
            d[k] = d.get(k, 0) + c
        return CP(d)

    def __mul__(self, o):
        if len(self.d) * len(o.d) > 400000:
            raise EvalUnknown('size')
        d = {}
        for k1, c1 in self.d.items():
            for k2, c2 in o.d.items():
                k = (k1[0] + k2[0], k1[1] + k2[1], k1[2] + k2[2], vmul(k1[3], k2[3]))
                d[k] = d.get(k, 0) + c1 * c2
        return CP(d)

    def scal(self):
        """the scalar if constant"""
        if not self.d:
            return 0
        if len(self.d) == 1 and K1 in self.d:
            return self.d[K1]
        return None

    def __repr__(self):
        return 'CP%r' % (self.d,)


K1 = (0, 0, 0, ())


def vmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted((v, e) for v, e in d.items() if e))


def cpow(b, e):
    if e < 0:
        if isinstance(b, CP):
            if len(b.d) != 1:
                s = b.scal()
                if s is None or s == 0:
                    raise EvalUnknown('negative power')
            (k, c), = b.d.items()
            return cpow(CP({(-k[0], -k[1], -k[2], tuple((v, -x) for v, x in k[3])): Fraction(1, 1) / c}), -e)
        if b == 0:
            raise Undef('0^-1')
        return fr(Fraction(1) / (Fraction(b) ** -e))
    if isinstance(b, CP):
        if e > 400 and len(b.d) > 1:
            raise EvalUnknown('size')
        if len(b.d) == 1:
            (k, c), = b.d.items()
            return CP({(k[0] * e, k[1] * e, k[2] * e, tuple((v, x * e) for v, x in k[3] if x * e)): c ** e})
        r = CP({K1: 1})
        while e:
            if e & 1:
                r = r * b
            e >>= 1
            if e:
                b = b * b
        return r
    if e > 5000 and b not in (0, 1, -1):
        raise EvalUnknown('size')
    return fr(b ** e)


def lifted(x):
    return x if isinstance(x, CP) else CP({K1: x})


def cadd(a, b):
    if isinstance(a, CP) or isinstance(b, CP):
        return lifted(a) + lifted(b)
    return a + b


def cmul(a, b):
    if isinstance(a, CP) or isinstance(b, CP):
        return lifted(a) * lifted(b)
    return a * b


def cmap(x, f):
    if isinstance(x, CP):
        return CP({k: f(c) for k, c in x.d.items()})
    return f(x)


def as_int(x):
    if isinstance(x, CP):
        x = x.scal()
        if x is None:
            raise EvalUnknown('polynomial where a number is expected')
    x = fr(x)
    if isinstance(x, Fraction):
        raise EvalUnknown('fraction')
    return x


def imod(a, p):
    a = fr(a)
    if p == 0:
        raise Undef('mod 0')
    if isinstance(a, Fraction):
        if gcd(a.denominator, p) != 1:
            raise EvalUnknown('fraction mod')
        return a.numerator * pow(a.denominator, -1, p) % p
    return a - p * (a // p)


def tdiv(a, b):
    if b == 0:
        raise Undef('/0')
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


class Env:
    """ints: {name: int}, pols: {name: {(x,y,q,var): c}}, vars: {root: None | (i,j)},
    bools: {}; apps: interpretation of application atoms"""

    def __init__(self, ints=None, pols=None, vars=None, bools=None, apps=None, colls=None):
        self.ints, self.pols, self.vars = ints or {}, pols or {}, vars or {}
        self.bools = bools or {}
        self.apps = apps or {}
        self.colls = colls or {}
        self.bound = {}
        self.mus = {}
        self.memo = {}
        self.frame = None    # the bound elements read so far
        self.unb = 4000
        self.loops = {}      # loops without closed form
        self.ended = {}
        self.fixed = set()
        self.ucache = None
        self.nest = 0

    # -- atoms -----------------------------------------------------------------
    def p(self, p):
        acc = 0
        d = None
        for m, c in p.t.items():
            t = c
            for a, e in m:
                if isinstance(e, P):
                    e = as_int(self.p(e))
                b = self.atom(a)
                t = cmul(t, cpow(b, e))
            if isinstance(t, CP):
                d = t if d is None else d + t
            else:
                acc = acc + t
        if d is not None:
            return d + lifted(acc)
        return fr(acc)

    def n(self, p):
        return as_int(self.p(p))

    def closed(self, a):
        k = nf.atom_key(a)
        return not has_binder(a)

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        return self.remember(a, a, self.atomk)

    def remember(self, key, a, f):
        """f(atom), remembered together with the bound elements it was read at"""
        if not has_binder(a):
            v = self.memo[key] = f(nf.atom_key(a))
            return v
        if has_bv(a):
            return f(nf.atom_key(a))
        ents = self.memo.get(('at', key), ())
        frame = self.frame
        for deps, v in ents:
            if all(same_element(self.bound.get(k), o) for k, o in deps):
                if frame is not None:
                    for k, o in deps:
                        o = self.bound[k]
                        frame[k, id(o)] = o
                return v
        mine = self.frame = {}
        try:
            v = f(nf.atom_key(a))
        finally:
            self.frame = frame
            deps = [(k, o) for (k, i), o in mine.items() if self.bound.get(k) is o]
            if frame is not None:
                for k, o in deps:
                    frame[k, id(o)] = o
        self.memo['at', key] = ((deps, v),) + tuple(ents[:7])
        return v

    def read(self, k):
        el = self.bound.get(k)
        if el is not None and self.frame is not None:
            self.frame[k, id(el)] = el
        return el

    def element(self, h, u):
        el = self.read((h, u))
        if el is None and isinstance(u, tuple):
            if u[0] == 'at':
                i = self.n(u[2])
                ls = list(self.elems(('vec', u[1])))
                if not 0 <= i < len(ls):
                    raise EvalUnknown('index')
                el = ls[i]
            elif u[0] == 'ext':
                ls = list(self.elems(('map', u[2])))
                if not ls:
                    raise EvalUnknown('end of an empty map')
                el = ls[0 if u[1] == 'first' else -1]
        return el

    def var_of(self, kv):
        """the unknown (None | (i,j)) of a symbolic key"""
        if kv[0] == 'n':
            if kv[1] in self.vars:
                return self.vars[kv[1]]
        elif kv[0] in ('bv', 'bb'):
            el = self.element(kv[0], kv[1])
            if el is not None:
                return el['kv']
        elif kv[0] == 'K':
            return self.var_of(kv[1])
        raise EvalUnknown('unknown of %r' % (kv,))

    def atomk(self, k):
        h = k[0]
        if h == 'v':
            n = '.'.join(str(x) for x in k[1:])
            if n in self.ints:
                return self.ints[n]
            raise EvalUnknown('input ' + n)
        if h == 'nat' and k[1][0] == 'mu' and k[1][1:] in self.mus:
            return len(self.mus[k[1][1:]])
        if h == 'mu':
            if k[1:] in self.mus:
                return self.mus[k[1:]]
            raise EvalUnknown('carried value')
        if h == 'X':
            return CP({(1, 0, 0, ()): 1})
        if h == 'Y':
            return CP({(0, 1, 0, ()): 1})
        if h == 'Q':
            return CP({(0, 0, 1, ()): 1})
        if h == 'V':
            return CP({(0, 0, 0, (((self.n(k[1]), self.n(k[2])), 1),)): 1})
        if h == 'Vs':
            v = self.var_of(k[1])
            return CP({(0, 0, 0, () if v is None else ((v, 1),)): 1})
        if h == 'vi' or h == 'vj':
            v = self.var_of(k[1])
            if v is None:
                return 0
            return v[0] if h == 'vi' else v[1]
        if h == 'pol':
            return self.pol(k[1])
        if h in ('bv', 'bb'):
            el = self.element(h, k[1])
            if el is None or k[2] not in el:
                raise EvalUnknown('unbound %r' % (k,))
            return el[k[2]]
        if h == 'base':
            return self.p(k[1])
        if h == 'mod':
            p = self.n(k[2])
            return cmap(self.p(k[1]), lambda c: imod(c, p))
        if h == 'inv':
            p = self.n(k[2])
            a = self.n(k[1])
            if p == 0 or gcd(a, p) != 1:
                raise Undef('inverse')
            return pow(a, -1, abs(p)) if abs(p) != 1 else 0
        if h == 'fdiv':
            a, b = self.n(k[1]), self.n(k[2])
            if b == 0:
                raise Undef('/0')
            return a // b
        if h == 'cast':
            v = self.n(k[1])
            lo, hi = cast_range(k[2])
            return (v - lo) % (hi - lo + 1) + lo
        if h == 'tdiv':
            return tdiv(self.n(k[1]), self.n(k[2]))
        if h == 'gcdn':
            return gcd(self.n(k[1]), self.n(k[2]))
        if h == 'bits':
            return abs(self.n(k[1])).bit_length()
        if h == 'lcmn':
            a, b = self.n(k[1]), self.n(k[2])
            return abs(a * b) // gcd(a, b) if a and b else 0
        if h == 'len':
            return sum(1 for _ in self.elems(k[1]))
        if h == 'coef':
            r = lifted(self.p(k[1]))
            x, y, q = self.n(k[2]), self.n(k[3]), self.n(k[4])
            vk = k[5]
            if vk[0] == 'e':
                v = ()
            elif vk[0] == 'ij':
                v = (((self.n(vk[1]), self.n(vk[2])), 1),)
            else:
                u = self.var_of(vk[1])
                v = () if u is None else ((u, 1),)
            return r.d.get((x, y, q, v), 0)
        if h in ('Sum', 'Prod'):
            acc = 0 if h == 'Sum' else 1
            sv = self.bound.get(('bb', k[4]))
            for el in self.elems(k[1]):
                self.bound[('bb', k[4])] = el
                if self.f(k[2]):
                    t = self.p(k[3])
                    acc = cadd(acc, t) if h == 'Sum' else cmul(acc, t)
            self.restore('bb', k[4], sv)
            return acc
        if h == 'aget':
            return arr.ev_get(self, k)
        if h in self.apps:
            return self.apps[h](self, k)
        raise EvalUnknown('atom ' + str(h))

    def restore(self, h, n, sv):
        if sv is None:
            self.bound.pop((h, n), None)
        else:
            self.bound[(h, n)] = sv

    def pol(self, name):
        if name not in self.pols:
            raise EvalUnknown('polynomial ' + str(name))
        d = {}
        for (x, y, q, v), c in self.pols[name].items():
            d[(x, y, q, () if v is None else ((v, 1),))] = c
        return CP(d)

    def elems(self, coll):
        if coll[0] == 'map':
            r = lifted(self.p(coll[1]))
            for i, ((x, y, q, v), c) in enumerate(sorted(r.d.items(), key=mono_order)):
                if len(v) > 1 or (v and v[0][1] != 1):
                    raise EvalUnknown('product of unknowns')
                yield {'kx': x, 'ky': y, 'kq': q, 'val': c, 'kv': v[0][0] if v else None, 'pos': i}
        elif coll[0] == 'range':
            lo, hi = self.n(coll[1]), self.n(coll[2])
            if hi - lo > self.unb:
                raise EvalUnknown('range size')
            for i in range(lo, hi):
                yield {'e': i, 'pos': i - lo}
        elif coll[0] == 'nat':
            for i in range(NAT):
                yield {'e': i, 'pos': i}
        elif coll[0] == 'facs':
            n = self.n(coll[1])
            if n > 10 ** 9:
                raise EvalUnknown('factors')
            i = 0
            p = 2
            while n > 1:
                if p * p > n:
                    p = n
                new = True
                while n % p == 0:
                    n //= p
                    if new or not coll[2]:
                        yield {'self': p, 'pos': i, 'e': p}
                        i += 1
                    new = False
                p += 1
        elif coll[0] == 'mu' and coll[1:3] in self.mus:
            for i, v in enumerate(self.mus[coll[1:3]]):
                d = {'self': v, 'pos': i}
                if coll[3] == 'pt':
                    d['x'], d['y'], d['z'] = v
                else:
                    d['e'] = v
                yield d
        elif coll[0] in self.colls:
            yield from self.colls[coll[0]](self, coll)
        else:
            raise EvalUnknown('collection ' + str(coll[0]))

    # -- formulas -----------------------------------------------------------------
    def f(self, f):
        if f is True or f is False:
            return f
        if f[0] == 'lit':
            v = self.lit(f[1])
            return v if f[2] else not v
        unk = None
        if f[0] == 'and':
            for x in f[1]:
                try:
                    if not self.f(x):
                        return False
                except EvalUnknown as e:
                    unk = e
            if unk:
                raise unk
            return True
        for x in f[1]:
            try:
                if self.f(x):
                    return True
            except EvalUnknown as e:
                unk = e
        if unk:
            raise unk
        return False

    def lit(self, k):
        h = k[0]
        if h == 'eq0':
            v = self.p(k[1])
            return not v.d if isinstance(v, CP) else v == 0
        if h == 'lt0':
            v = self.p(k[1])
            if isinstance(v, CP):
                v = v.scal()
                if v is None:
                    raise EvalUnknown('order of polynomials')
            return v < 0
        if h == 'dvd':
            p, a = self.n(k[1]), self.n(k[2])
            return a == 0 if p == 0 else a % p == 0
        if h == 'rz':
            v = self.p(k[1])
            return not v.d if isinstance(v, CP) else v == 0
        if h == 'ex':
            sv = self.bound.get(('bb', k[3]))
            r = False
            for el in self.elems(k[1]):
                self.bound[('bb', k[3])] = el
                if self.f(k[2]):
                    r = True
                    break
            self.restore('bb', k[3], sv)
            return r
        if h == 'b':
            if k[1] == 'empty':
                return self.var_of(k[2]) is None
            if k[1] == 'mu' and k[2:] in self.mus:
                return self.mus[k[2:]]
            if k[1] == 'uph':
                if k[2] not in self.ended:
                    raise EvalUnknown('loop not unfolded yet')
                return self.ended[k[2]] == k[3]
            if k[1] == 'phase':
                return getattr(self, 'phase', None) == (k[2], k[3])
            if k[1] == 'alts':
                key = ('alts', id(k[2]))
                if key not in self.memo:
                    self.memo[key] = any(outcome_values(self, _Lits(lits, None), lambda o: []) for lits, vs in k[2].alts)
                return self.memo[key]
            if k[1] == 'in':
                return self.bools[k[2]]
            if k[1] == 'first':
                el = self.element('bv', k[2])
                if el is None or 'pos' not in el:
                    raise EvalUnknown('first element')
                return el['pos'] == 0
            if k[1] == 'prime':
                n = self.n(k[2])
                return is_prime(n)
            if ('b', k[1]) in self.apps:
                return self.apps[('b', k[1])](self, k)
        if h in self.apps:
            return self.apps[h](self, k)
        raise EvalUnknown('literal %s' % (k[:2],))

    # -- values ---------------------------------------------------------------------
    def v(self, x, st=None):
        """concretise an abstract value"""
        if isinstance(x, P):
            r = self.p(x)
            if isinstance(r, CP):
                s = r.scal()
                if s is None:
                    raise EvalUnknown('ring value where a number is expected')
                r = s
            return r
        if isinstance(x, Bool):
            return self.f(x.f)
        if isinstance(x, Ref):
            if st is None:
                raise EvalUnknown('reference')
            v = st.c.get(x.cell)
            for e in x.path:
                if isinstance(e, int) and isinstance(v, (Rec, En)):
                    v = v.f[e]
                else:
                    raise EvalUnknown('reference path')
            return self.v(v, st)
        if isinstance(x, Rec):
            if x.ty == SV:
                if self.f(x.f[2].f):
                    return None
                return (self.v(x.f[0]), self.v(x.f[1]))
            return tuple(self.v(y, st) for y in x.f)
        if isinstance(x, En):
            if x.ty == OPT:
                return ('Some', self.v(x.f[0], st)) if x.v == 1 else None
            if x.ty == ORD:
                return x.v - 1
            return (x.v,) + tuple(self.v(y, st) for y in x.f)
        if isinstance(x, MapV):
            return self.mapv(x)
        if isinstance(x, VecV):
            out = []
            for s in x.segs:
                out.extend(self.seg(s, st, lambda y: self.v(y, st)))
            return out
        if isinstance(x, ArrV):
            return arr.ev(self, x.a)
        if isinstance(x, SetV):
            out = []
            for c, u, g, k in x.parts:
                for _ in self.under(c, u, g):
                    out.append(self.keyv(k))
            return out
        if isinstance(x, (StrV, Text)):
            return self.text(x.parts, st)
        raise EvalUnknown('value ' + type(x).__name__)

    def keyv(self, k):
        emp = self.f(k.e)
        return (self.n(k.x), self.n(k.y), self.n(k.q), None if emp else (self.n(k.i), self.n(k.j)))

    def under(self, c, u, g, rev=False):
        if c is None:
            if self.f(g):
                yield None
            return
        sv = self.bound.get(('bv', u))
        els = list(self.elems(c))
        if rev:
            els = rev_elems(els)
        for el in els:
            self.bound[('bv', u)] = el
            if self.f(g):
                yield el
        self.restore('bv', u, sv)

    def pick(self, s, fv):
        """values of the case of a comprehension that applies to the bound element"""
        for g, vs in s[3]:
            ws = [u for u in case_uids(g, vs, s[2]) if ('bv', u) not in self.bound]
            if not ws:
                if self.f(g):
                    return [fv(y) for y in vs]
                continue
            found = []

            def rec(rest):
                if not rest:
                    if self.f(g):
                        found.append([fv(y) for y in vs])
                    return
                u = min(rest)
                coll = _in.ELEMS.get(u)
                if coll is None:
                    raise EvalUnknown('element of an unknown collection')
                for el in list(self.elems(coll)):
                    self.bound[('bv', u)] = el
                    try:
                        rec([w for w in rest if w != u])
                    except EvalUnknown:
                        if self.fsoft(g) is not False:
                            raise
                self.bound.pop(('bv', u), None)
            rec(ws)
            if any(x != found[0] for x in found):
                raise EvalUnknown('several witnesses')
            if found:
                return found[0]
        return []

    def fsoft(self, g):
        try:
            return self.f(g)
        except EvalUnknown:
            return None

    def seg(self, s, st, fv):
        if s[0] == 'alt':
            res = []
            for lits, vs in s[1]:
                res += outcome_values(self, _Lits(lits, st), lambda o: list(vs))
            if not res or any(r != res[0] for r in res):
                raise EvalUnknown('%d alternatives apply' % len(res))
            return res[0]
        if s[0] == 'mu' and s[1:] in self.mus:
            return list(self.mus[s[1:]])
        if s[0] == 'it':
            return [fv(s[1])]
        if s[0] == 'rep':
            return [fv(s[1])] * self.n(s[2])
        if s[0] == 'comp':
            out = []
            sv = self.bound.get(('bv', s[2]))
            els = list(self.elems(s[1]))
            if s[4]:
                els = rev_elems(els)
            for el in els:
                self.bound[('bv', s[2])] = el
                out.extend(self.pick(s, fv))
            self.restore('bv', s[2], sv)
            return out
        if s[0] == 'base' and s[1][0] == 'vec':
            return [e['self'] for e in self.elems(s[1])]
        if s[0] == 'base' and s[1][0] in self.colls:
            return [e.get('self') for e in self.colls[s[1][0]](self, s[1])]
        raise EvalUnknown('segment ' + str(s[0]))

    def mapv(self, m):
        if m.pend or m.rem:
            raise EvalUnknown('map under update')
        r = lifted(self.p(m.r))
        d = {}
        for (x, y, q, v), c in r.d.items():
            if len(v) > 1 or (v and v[0][1] != 1):
                raise EvalUnknown('product of unknowns')
            if isinstance(c, Fraction):
                raise EvalUnknown('fraction coefficient')
            d[(x, y, q, v[0][0] if v else None)] = c
        for k, _ in m.dirty:
            d.setdefault(self.keyv(k), 0)
        if isinstance(m.zf, tuple):
            _, zc, zu, zg, _nv = m.zf
            for el in self.under(zc, zu, zg):
                d.setdefault((el['kx'], el['ky'], el['kq'], el['kv']), 0)
        elif isinstance(m.zf, Written) and m.zf.base:
            for bs, k in m.zf.parts:
                self.written(bs, k, d)
        elif m.zf is not True:
            d['?'] = 0
        return d

    def written(self, bs, k, d):
        if not bs:
            d.setdefault(self.keyv(k), 0)
            return
        for el in self.under(*bs[0]):
            self.memo.clear()
            self.written(bs[1:], k, d)
        self.memo.clear()

    def text(self, parts, st):
        out = ''
        for s in parts:
            if s[0] == 's':
                out += s[1]
            elif s[0] == 'd':
                out += self.disp(s, st)
            elif s[0] == 'trim':
                out += self.text(s[1], st).rstrip()
            elif s[0] == 'comp':
                sv = self.bound.get(('bv', s[2]))
                els = list(self.elems(s[1]))
                if s[4]:
                    els = rev_elems(els)
                for el in els:
                    self.bound[('bv', s[2])] = el
                    out += ''.join(self.pick(s, lambda y: self.text((y,), st)))
                self.restore('bv', s[2], sv)
            else:
                raise EvalUnknown('text ' + str(s[0]))
        return out

    def disp(self, s, st):
        if s[1] == 'int':
            return str(self.n(s[2]))
        if s[1] in SHOW:
            return SHOW[s[1]](self.v(s[2], st))
        raise EvalUnknown('display')


def rev_elems(els):
    """the elements in the opposite order; positions count in iteration order"""
    return [dict(el, pos=i) if 'pos' in el else el for i, el in enumerate(reversed(els))]


def poly_of(x):
    """concrete polynomial dict of a value"""
    d = {}
    for (x_, y, q, v), c in lifted(x).d.items():
        if len(v) > 1 or (v and v[0][1] != 1):
            raise EvalUnknown('product of unknowns')
        if isinstance(c, Fraction):
            raise EvalUnknown('fraction coefficient')
        d[(x_, y, q, v[0][0] if v else None)] = c
    return d


def cp_of(d):
    return CP({(x, y, q, () if v is None else ((v, 1),)): c for (x, y, q, v), c in d.items()})


def mono_order(kc):
    k = kc[0]
    return (k[0], k[1], k[2], k[3])


def cast_range(t):
    b = 64 if t[1:] == 'size' else int(t[1:])
    return (0, 2 ** b - 1) if t[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)


def is_prime(n):
    return n >= 2 and all(n % d for d in range(2, int(n ** 0.5) + 1))


_hb = {}


def has_binder(a):
    r = _hb.get(a)
    if r is None:
        r = _hbk(nf.atom_key(a))
        _hb[a] = r
    return r


def same_element(x, y):
    return x is y or isinstance(x, dict) and isinstance(y, dict) and x == y


_bv = {}


def has_bv(a):
    r = _bv.get(a)
    if r is None:
        r = _bv[a] = _hbv(nf.atom_key(a))
    return r


def _hbv(k):
    if isinstance(k, P):
        return any(has_bv(a) or (isinstance(e, P) and _hbv(e)) for m in k.t for a, e in m)
    if isinstance(k, (tuple, frozenset)):
        if isinstance(k, tuple) and len(k) == 3 and k[0] == 'bv':
            return True
        return any(_hbv(x) for x in k)
    return False


def _hbk(k):
    if isinstance(k, P):
        return any(has_binder(a) or (isinstance(e, P) and _hbk(e)) for m in k.t for a, e in m)
    if isinstance(k, (tuple, frozenset)):
        if isinstance(k, tuple) and (len(k) == 3 and k[0] in ('bb', 'bv') or len(k) == 2 and k[0] == 'hole'):
            return True
        return any(_hbk(x) for x in k)
    return False


def free_uids(objs):
    """uids of the ('bv', uid, ..) atoms occurring"""
    acc = set()

    def go(k):
        if isinstance(k, P):
            for m in k.t:
                for a, e in m:
                    if has_binder(a):
                        go(nf.atom_key(a))
                    if isinstance(e, P):
                        go(e)
        elif isinstance(k, (tuple, frozenset)):
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'bv':
                if isinstance(k[1], tuple):
                    go(k[1])
                else:
                    acc.add(k[1])
                return
            for x in k:
                go(x)
    for o in objs:
        go(o)
    return acc


def case_uids(g, vs, u0):
    acc = free_uids([g]) if not isinstance(g, bool) else set()
    for v in vs:
        if isinstance(v, tuple):
            acc |= free_uids([v])
        else:
            acc |= value_uids(v, ())
    return sorted(u for u in acc if isinstance(u, int) and u > u0)


def value_uids(v, facts):
    acc = set()
    own = set()

    def p(y):
        if isinstance(y, P):
            acc.update(free_uids([y]))
        elif isinstance(y, tuple):
            acc.update(free_uids([y]))
        return y
    Mapper(p, p).v(v)

    def segs(x):
        if isinstance(x, (Rec, En)):
            for y in x.f:
                segs(y)
        if isinstance(x, VecV):
            for s in x.segs:
                if s[0] == 'comp':
                    own.add(s[2])
                    for g, vs in s[3]:
                        own.update(case_uids(g, vs, s[2]))
        if isinstance(x, StrV) or isinstance(x, Text):
            for s in x.parts:
                if s[0] == 'comp':
                    own.add(s[2])
                    for g, vs in s[3]:
                        own.update(case_uids(g, vs, s[2]))
        if isinstance(x, SetV):
            for c, u, g, k in x.parts:
                own.add(u)
        if isinstance(x, MapV) and isinstance(x.zf, tuple):
            own.add(x.zf[2])
        if isinstance(x, MapV) and isinstance(x.zf, Written):
            own.update(u for bs, k in x.zf.parts for c, u, g in bs)
    segs(v)
    acc -= own
    acc |= free_uids([k for k, _ in facts])
    return acc


def holds(env, facts):
    """do the literals hold?  True / False / raises EvalUnknown"""
    unk = None
    for k, v in facts:
        try:
            if env.lit(k) != v:
                return False
        except EvalUnknown as e:
            unk = e
    if unk:
        raise unk
    return True


class _Lits:
    """an outcome consisting of conditions only"""
    def __init__(self, lits, st):
        self.lits, self.st, self.facts = lits, self, self
        self.c = getattr(st, 'c', {})


def outcome_values(env, out, want):
    """values of `want(out)` for every witness assignment satisfying the facts"""
    lits = out.st.facts.lits
    if any(k[:2] == ('b', 'uph') for k, v in lits):
        import unfold
        if not unfold.settle(env, lits, env.loops):
            return []
    vals = want(out)
    uids = set()
    for v in vals:
        uids |= value_uids(v, ())
    uids |= free_uids([k for k, _ in lits])
    uids = [u for u in uids if ('bv', u) not in env.bound]
    res = []
    # order: collections that do not depend on other bound elements first
    order = sorted(uids)

    def rec(rest):
        if not rest:
            if holds(env, lits):
                res.append([env.v(v, out.st) for v in vals])
            return
        for i, u in enumerate(rest):
            coll = _in.ELEMS.get(u)
            if coll is None:
                raise EvalUnknown('element of an unknown collection')
            if free_uids([coll]) & set(rest):
                continue
            k = len(res)
            for el in list(env.elems(coll)):
                env.bound[('bv', u)] = el
                rec(rest[:i] + rest[i + 1:])
                if coll[0] == 'nat' and len(res) > k:
                    break
            env.bound.pop(('bv', u), None)
            return
        raise EvalUnknown('cyclic collections')
    # cheap rejection by the ground literals first
    ground = [(k, v) for k, v in lits if not _hbk_free(k)]
    if not holds_soft(env, ground):
        return []
    rec(order)
    return res


def _hbk_free(k):
    return bool(free_uids([k]))


def holds_soft(env, facts):
    """False only if some literal is certainly violated"""
    for k, v in facts:
        try:
            if env.lit(k) != v:
                return False
        except EvalUnknown:
            pass
    return True
