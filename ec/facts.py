"""Literals, boolean formulas and the fact domain (linear facts over ring
monomials, decided by Fourier-Motzkin projection, plus uninterpreted literals)."""
from fractions import Fraction
from math import gcd
from nf import *
import nf

# ---- boolean formulas: True | False | ('lit', key, pos) | ('and', (..)) | ('or', (..))


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'lit':
        return ('lit', f[1], not f[2])
    if f[0] == 'and':
        return f_or(*[f_not(x) for x in f[1]])
    return f_and(*[f_not(x) for x in f[1]])


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def f_xor(a, b):
    return f_or(f_and(a, f_not(b)), f_and(f_not(a), b))


def lit(key, pos=True):
    return ('lit', key, pos)


def _int_coefs(p):
    """scale by a positive rational so that coefficients are coprime integers"""
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        p = p.scale(den)
    return p


def _content(p, with_const=True):
    g = 0
    for m, c in p.t.items():
        if m == () and not with_const:
            continue
        g = gcd(g, int(c))
    return g or 1


def _lead(p):
    """sign of the leading (non-constant) coefficient"""
    best = None
    for m in p.t:
        if m == ():
            continue
        k = tuple((a, str(e)) for a, e in m)
        if best is None or k > best[0]:
            best = (k, p.t[m])
    return best[1]


def eq0(p):
    """formula p = 0"""
    c = p.const()
    if c is not None:
        return c == 0
    p = _int_coefs(p)
    g = _content(p, True)
    # integers: non-constant part divisible by g2 but constant not -> never zero
    if g > 1:
        p = p.scale(Fraction(1, g))
    g2 = _content(p, False)
    c0 = p.t.get((), 0)
    if g2 > 1 and c0 % g2 != 0 and not _has_frac_exp(p):
        return False
    if _lead(p) < 0:
        p = -p
    d = _as_dvd(p)
    if d is not None:
        return lit(('dvd', d[0], d[1]))
    s = p.single()
    if s is not None and s[0] == 1:
        # product of atoms: zero iff one factor is zero (positive int exponents)
        m = s[1]
        if all(isinstance(e, int) and e > 0 for _, e in m):
            if len(m) == 1 and m[0][1] == 1:
                if nf.atom_key(m[0][0])[0] == 'base':
                    return eq0(nf.atom_key(m[0][0])[1])
                return lit(('eq0', p))
            return f_or(*[eq0(P({((a, 1),): 1})) for a, _ in m])
    return lit(('eq0', p))


def _has_frac_exp(p):
    return False


def _as_dvd(p):
    """p == +-(a - q*tdiv(a,q)) or +-mod(a,q): divisibility of a by q"""
    a = p.as_atom()
    if a is not None:
        k = nf.atom_key(a)
        if k[0] == 'mod':
            return k[2], _dvd_arg(k[1])
        return None
    if len(p.t) > 40:
        return None
    for a in p.atoms(deep=False):
        k = nf.atom_key(a)
        if k[0] in ('tdiv', 'fdiv'):
            rest = p - (k[1] - k[2] * atom(k))
            if rest.is_zero():
                return k[2], _dvd_arg(k[1])
            rest = p + (k[1] - k[2] * atom(k))
            if rest.is_zero():
                return k[2], _dvd_arg(k[1])
    return None


def _dvd_arg(a):
    if a.t and a.const() is None and _lead(a) < 0:
        return -a
    return a


def lt0(p):
    """formula p < 0 (integers)"""
    c = p.const()
    if c is not None:
        return c < 0
    p = _int_coefs(p)
    g = _content(p, False)
    c0 = int(p.t.get((), 0))
    if g > 1:
        q = (p - c0).scale(Fraction(1, g))
        k = (-1 - c0) // g
        p = q - k - 1
    if _lead(p) < 0:
        return lit(('lt0', -p - 1), False)
    return lit(('lt0', p))


def ge0(p):
    return f_not(lt0(p))


def eq(a, b):
    return eq0(lift(a) - lift(b))


def lt(a, b):
    return lt0(lift(a) - lift(b))


def le(a, b):
    return f_not(lt0(lift(b) - lift(a)))


def boolvar(*key):
    return lit(('b',) + key)


def lit_atoms(key, acc):
    nf._key_atoms(key, acc)
    return acc


def subst_formula(f, mp):
    if f is True or f is False:
        return f
    if f[0] == 'lit':
        return subst_lit(f[1], f[2], mp)
    g = [subst_formula(x, mp) for x in f[1]]
    return f_and(*g) if f[0] == 'and' else f_or(*g)


lit_rebuild = {}
app_axioms = {}      # operations known by name: what is never negative about them


def subst_lit(key, pos, mp):
    nk, ch = nf.subst_key(key, mp, {})
    if not ch:
        return ('lit', key, pos)
    r = relit(nk)
    return r if pos else f_not(r)


def relit(key):
    if key[0] == 'eq0':
        return eq0(key[1])
    if key[0] == 'lt0':
        return lt0(key[1])
    if key[0] == 'dvd':
        return mk_dvd(key[1], key[2])
    if key[0] in lit_rebuild:
        return lit_rebuild[key[0]](*key[1:])
    return ('lit', key, True)


def mk_dvd(p, a):
    ca, cp = a.const(), p.const()
    if cp is not None and cp in (1, -1):
        return True
    if ca is not None:
        if ca == 0:
            return True
        if cp is not None and cp != 0:
            return ca % cp == 0
    return ('lit', ('dvd', p, _dvd_arg(a)), True)


# ---- linear feasibility -------------------------------------------------------
_fm_cache = {}


def fm_feasible(cons):
    """cons: iterable of P meaning P >= 0.  False only if rationally infeasible."""
    key = frozenset(cons)
    if key in _fm_cache:
        return _fm_cache[key]
    rows = []
    for p in key:
        c = p.const()
        if c is not None:
            if c < 0:
                _fm_cache[key] = False
                return False
            continue
        rows.append(dict(p.t))
    r = _fm(rows)
    _fm_cache[key] = r
    return r


def _fm(rows):
    while True:
        vs = {}
        for r in rows:
            for m, c in r.items():
                if m != ():
                    v = vs.setdefault(m, [0, 0])
                    v[0 if c > 0 else 1] += 1
        if not vs:
            return all(r.get((), 0) >= 0 for r in rows)
        m = min(vs, key=lambda v: vs[v][0] * vs[v][1])
        pos, neg, rest = [], [], []
        for r in rows:
            c = r.get(m, 0)
            (pos if c > 0 else neg if c < 0 else rest).append(r)
        if len(pos) * len(neg) + len(rest) > 600:
            return True
        new = rest
        seen = set()
        for p in pos:
            for n in neg:
                cp, cn = p[m], -n[m]
                d = {}
                for k, c in p.items():
                    d[k] = d.get(k, 0) + Fraction(c) * cn
                for k, c in n.items():
                    d[k] = d.get(k, 0) + Fraction(c) * cp
                d = {k: c for k, c in d.items() if c != 0 or k == ()}
                d.pop(m, None)
                nonc = [k for k in d if k != ()]
                if not nonc:
                    if d.get((), 0) < 0:
                        return False
                    continue
                # integer normalisation: divide by content, floor the constant
                den = 1
                for k, c in d.items():
                    if k != ():
                        den = den * Fraction(c).denominator // gcd(den, Fraction(c).denominator)
                g = 0
                for k in nonc:
                    g = gcd(g, int(d[k] * den))
                e = {k: int(d[k] * den) // g for k in nonc}
                cc = Fraction(d.get((), 0)) * den / g
                e[()] = cc.numerator // cc.denominator
                fk = frozenset(e.items())
                if fk not in seen:
                    seen.add(fk)
                    new.append(e)
        rows = new


class Facts:
    """an immutable conjunction of literals"""
    __slots__ = ('lits', 'ors', '_d')

    def __init__(self, lits=(), ors=()):
        self.lits = lits      # tuple of (key, bool)
        self.ors = ors        # tuple of pending disjunctions
        self._d = None

    def __repr__(self):
        return ' & '.join(show_lit(k, v) for k, v in self.lits) or 'true'

    # derived data: rewriting map, inequalities, disequalities, booleans
    def d(self):
        if self._d is None:
            self._d = _derive(self.lits)
        return self._d

    def norm(self, p):
        """normal form under the facts"""
        d = self.d()
        if d is None:
            return p
        return d.norm(p)

    def norm_formula(self, f):
        if f is True or f is False:
            return f
        if f[0] == 'lit':
            r = self.decide(f)
            if r is None:
                return f
            return r
        g = [self.norm_formula(x) for x in f[1]]
        return f_and(*g) if f[0] == 'and' else f_or(*g)

    def feasible(self):
        return self.d() is not None

    def add(self, f):
        """conjunction with formula f: list of Facts (disjunctive)"""
        if f is True:
            return [self]
        if f is False:
            return []
        if f[0] == 'lit':
            r = self.decide(f)
            if r is True:
                return [self]
            if r is False:
                return []
            n = Facts(self.lits + ((f[1], f[2]),))
            return [n] if n.feasible() else []
        if f[0] == 'and':
            cur = [self]
            for x in f[1]:
                cur = [y for c in cur for y in c.add(x)]
            return cur
        out = []
        cur = [self]
        for x in f[1]:
            for c in cur:
                out.extend(c.add(x))
            cur = [y for c in cur for y in c.add(f_not(x))]
            if not cur:
                break
        return out

    def add1(self, f):
        r = self.add(f)
        return r[0] if r else None

    def decide(self, f):
        if f is True or f is False:
            return f
        if f[0] == 'lit':
            d = self.d()
            if d is None:
                return None
            r = d.decide(f[1])
            if r is None:
                return None
            return r if f[2] else not r
        rs = [self.decide(x) for x in f[1]]
        if f[0] == 'and':
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            # conjunction infeasible?
            if not self.add(f):
                return False
            return None
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        if not self.add(f_not(f)):
            return True
        return None

    def entails(self, f):
        return self.decide(f) is True

    def conj(self, other):
        cur = [self]
        for k, v in other.lits:
            cur = [y for c in cur for y in c.add(('lit', k, v))]
        return cur

    def subst(self, mp):
        cur = [Facts()]
        for k, v in self.lits:
            cur = [y for c in cur for y in c.add(subst_lit(k, v, mp))]
        return cur


def show_lit(k, v):
    if k[0] == 'eq0':
        return '%s %s 0' % (show(k[1]), '=' if v else '!=')
    if k[0] == 'lt0':
        return '%s %s 0' % (show(k[1]), '<' if v else '>=')
    if k[0] == 'dvd':
        return '%s %s %s' % (show(k[1]), '|' if v else '!|', show(k[2]))
    return ('' if v else '!') + nf.show_key(k)


def show_formula(f):
    if f is True or f is False:
        return str(f)
    if f[0] == 'lit':
        return show_lit(f[1], f[2])
    return '(' + (' & ' if f[0] == 'and' else ' | ').join(show_formula(x) for x in f[1]) + ')'


class Derived:
    def __init__(self):
        self.rw = {}
        self.ineqs = []     # P >= 0
        self.neqs = []
        self.bools = {}
        self.zeros = []     # unoriented equalities
        self.memo = {}
        self.cache = {}

    def norm(self, p):
        if p in self.memo:
            return self.memo[p]
        q = p
        for _ in range(8):
            n = self._step(q)
            if n == q:
                break
            q = n
        self.memo[p] = q
        return q

    def _step(self, p):
        mp = dict(self.rw)
        for a in p.atoms():
            k = nf.atom_key(a)
            if k[0] == 'Vs':
                e = self.bools.get(('b', 'empty', k[1]))
                if e is True:
                    mp[a] = ONE
                elif e is False:
                    vi, vj = atom(('vi', k[1])), atom(('vj', k[1]))
                    if vi.as_atom() in self.rw or vj.as_atom() in self.rw:
                        mp[a] = atom(('V', self.rw.get(vi.as_atom(), vi), self.rw.get(vj.as_atom(), vj)))
        if not mp:
            return self._mods(p)
        return self._mods(nf.subst(p, mp))

    def _mods(self, p):
        # mod(a, p) with 0 <= a < p entailed
        mp = {}
        for a in p.atoms():
            k = nf.atom_key(a)
            if k[0] == 'mod' and a not in self.rw:
                x, m = k[1], k[2]
                if self.decide(('dvd', m, _dvd_arg(x))) is True:
                    mp[a] = ZERO
                elif len(x.t) <= 3 and self.dec(lt0(x)) is False and self.dec(lt0(x - m)) is True:
                    mp[a] = x
        return nf.subst(p, mp) if mp else p

    def dec(self, f):
        if f is True or f is False:
            return f
        r = self.decide(f[1])
        if r is None:
            return None
        return r if f[2] else not r

    def axioms(self, ps):
        out = []
        seen = set()
        todo = list(ps)
        while todo:
            p = todo.pop()
            for m in p.t:
                for a, e in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    k = nf.atom_key(a)
                    x = P({((a, 1),): 1})
                    new = []
                    if k[0] == 'fdiv':
                        c = k[2].const()
                        if c is not None and c > 0:
                            new = [self.lin(k[1]) - x.scale(c), x.scale(c) + (c - 1) - self.lin(k[1])]
                    elif k[0] == 'tdiv':
                        c = k[2].const()
                        if c is not None and c > 0:
                            n1 = self.lin(k[1])
                            if self._quick_nonneg(n1):
                                new = [n1 - x.scale(c), x.scale(c) + (c - 1) - n1, x]
                    elif k[0] == 'mod':
                        c = self.lin(k[2])
                        if self._quick_pos(c):
                            new = [x, c - 1 - x]
                    elif k[0] in ('pos', 'len', 'nat', 'countof', 'inv', 'gcdn', 'lcmn', 'count', 'bits'):
                        new = [x]
                    elif k[0] == 'bv' and k[2] == 'pos':
                        new = [x]
                    elif k[0] == 'napp' and k[1] in app_axioms:
                        new = app_axioms[k[1]](k, x)
                    for n in new:
                        out.append(n)
                        todo.append(n)
        return out

    def lin(self, p):
        return nf.subst(p, self.rw) if self.rw else p

    def _quick_pos(self, c):
        v = c.const()
        if v is not None:
            return v > 0
        # c >= 1 among the known inequalities (directly or with slack)
        for q in self.ineqs:
            d = (c - 1) - q
            dv = d.const()
            if dv is not None and dv >= 0:
                return True
        return False

    def _quick_nonneg(self, c):
        v = c.const()
        if v is not None:
            return v >= 0
        for q in self.ineqs:
            dv = (c - q).const()
            if dv is not None and dv >= 0:
                return True
        return False

    def _cons(self, extra=()):
        # restrict to the connected component of the extra constraints
        base = self.ineqs
        ps = list(extra)
        if ps:
            vs = set()
            for p in ps:
                vs.update(m for m in p.t if m != ())
            ax = self.axioms(ps)
            ps += ax
            for p in ax:
                vs.update(m for m in p.t if m != ())
            rest = list(base)
            changed = True
            while changed and rest:
                changed = False
                keep = []
                for q in rest:
                    if any(m in vs for m in q.t if m != ()):
                        ps.append(q)
                        vs.update(m for m in q.t if m != ())
                        for n in self.axioms([q]):
                            ps.append(n)
                            vs.update(m for m in n.t if m != ())
                        changed = True
                    else:
                        keep.append(q)
                rest = keep
            return ps
        return list(base) + self.axioms(base)

    def infeasible_with(self, *ps):
        for p in ps:
            c = p.const()
            if c is not None and c < 0:
                return True
        return not fm_feasible(self._cons(ps))

    def decide(self, key):
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = None     # cut recursion
        r = self._decide(key)
        self.cache[key] = r
        return r

    def _decide(self, key):
        b = self.bools.get(key)
        if b is not None:
            return b
        if key[0] in ('eq0', 'lt0', 'dvd') or self.rw:
            nk, ch = nf.subst_key(key, self.rw, {}) if self.rw else (key, False)
            if key[0] in ('eq0', 'lt0'):
                n = self.norm(key[1])
                if n != key[1]:
                    f = eq0(n) if key[0] == 'eq0' else lt0(n)
                    return self._dec_f(f)
            elif ch:
                return self._dec_f(relit(nk))
        if key[0] == 'eq0':
            p = key[1]
            if self.infeasible_with(p, -p):
                return False
            for q in self.neqs:
                if q == p or q == -p:
                    return False
            if self.infeasible_with(p - 1) and self.infeasible_with(-p - 1):
                return True
            return None
        if key[0] == 'lt0':
            p = key[1]
            if self.infeasible_with(-p - 1):
                return False
            if self.infeasible_with(p):
                return True
            return None
        if key[0] == 'dvd':
            return self._dvd(key[1], key[2])
        return None

    def _dvd(self, p, a):
        # a is a sum of multiples of p and known multiples
        known = [k[2] for k, v in self.bools.items() if k[0] == 'dvd' and v and k[1] == p]
        notk = [k[2] for k, v in self.bools.items() if k[0] == 'dvd' and not v and k[1] == p]
        x = strip_multiples(a, p)
        if x.is_zero():
            return True
        for q in known:
            q = strip_multiples(q, p)
            if x == q or x == -q:
                return True
        for q in notk:
            q = strip_multiples(q, p)
            if x == q or x == -q:
                return False
            # x = q + known
            for r in known:
                r = strip_multiples(r, p)
                if x - r in (q, -q) or x + r in (q, -q):
                    return False
        for i, q in enumerate(known):
            for r in known[:i]:
                for s in (1, -1):
                    y = q + r.scale(s)
                    if x == y or x == -y:
                        return True
        # 0 < x < p
        if self.dec(lt0(x)) is False:
            if self.dec(lt0(x - p)) is True:
                e = self.dec(eq0(x)) if not _as_dvd(x) else None
                if e is not None:
                    return e
        elif self.dec(lt0(x)) is True and self.dec(lt0(-x - p)) is True:
            return False
        return None

    def _dec_f(self, f):
        if f is True or f is False:
            return f
        if f[0] == 'lit':
            r = self.decide(f[1])
            if r is None:
                return None
            return r if f[2] else not r
        rs = [self._dec_f(x) for x in f[1]]
        if f[0] == 'and':
            if False in [r for r in rs if r is not None]:
                return False
            return True if all(r is True for r in rs) else None
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None


def strip_multiples(a, p):
    """drop monomials of a that are multiples of p; remove inner mods by p"""
    a = strip_mod(a, p)
    pa = p.as_atom()
    cp = p.const()
    if pa is not None:
        t = {m: c for m, c in a.t.items()
             if not any(x == pa and isinstance(e, int) and e >= 1 for x, e in m) or c != int(c)}
        if len(t) != len(a.t):
            return P(t)
    elif cp is not None and cp:
        t = {}
        for m, c in a.t.items():
            if isinstance(c, int):
                c2 = c % abs(cp)
                if c2:
                    t[m] = c2
            else:
                t[m] = c
        return P(t)
    elif p.t:
        # composite modulus: subtract a multiple when the leading monomial matches
        q = a
        s = sorted(p.t.items(), key=lambda x: (len(x[0]), str(x[0])))
        m0, c0 = s[-1]
        if m0 in q.t and abs(c0) == 1:
            return q - p.scale(q.t[m0] * c0)
    return a


def strip_mod(a, p):
    """replace top-level mod(x, p) by x (valid modulo p)"""
    for _ in range(6):
        mp = {}
        for at in a.atoms(deep=False):
            k = nf.atom_key(at)
            if k[0] == 'mod' and k[2] == p:
                mp[at] = k[1]
        if not mp:
            return a
        t = ZERO
        for m, c in a.t.items():
            x = lift(c)
            for at, e in m:
                if at in mp:
                    x = x * power(mp[at], e)
                else:
                    x = x * P({((at, e),): 1})
            t = t + x
        a = t
    return a


_derive_cache = {}


def _derive(lits):
    k = tuple(lits)
    if k in _derive_cache:
        return _derive_cache[k]
    r = _derive0(lits)
    if len(_derive_cache) > 200000:
        _derive_cache.clear()
    _derive_cache[k] = r
    return r


def _derive0(lits):
    d = Derived()
    eqs, ineqs, neqs, dv = [], [], [], []
    for key, v in lits:
        if key[0] == 'eq0':
            (eqs if v else neqs).append(key[1])
        elif key[0] == 'lt0':
            ineqs.append(-key[1] - 1 if v else key[1])
        elif key[0] == 'dvd':
            dv.append((key, v))
        if key in d.bools and d.bools[key] != v:
            return None
        d.bools[key] = v
    # disequality of a product: every factor is non-zero
    extra = []
    for p in neqs:
        s = p.single()
        if s and len(s[1]) > 1:
            for a, e in s[1]:
                if isinstance(e, int) and e > 0:
                    extra.append(P({((a, 1),): 1}))
    neqs += extra
    for rnd in range(12):
        # orient equalities
        pend = list(eqs)
        d.rw = {}
        d.zeros = []
        for p in pend:
            p = nf.subst(p, d.rw) if d.rw else p
            c = p.const()
            if c is not None:
                if c != 0:
                    return None
                continue
            o = _orient(p)
            if o is None:
                d.zeros.append(p)
                continue
            a, val = o
            d.rw = {x: nf.subst(y, {a: val}) for x, y in d.rw.items()}
            d.rw[a] = val
        # full closure
        for _ in range(4):
            n = {x: nf.subst(y, d.rw) for x, y in d.rw.items()}
            if n == d.rw:
                break
            d.rw = n
        d.memo = {}
        d.cache = {}
        d.ineqs = []
        d.neqs = []
        for p in ineqs:
            q = nf.subst(p, d.rw) if d.rw else p
            c = q.const()
            if c is not None:
                if c < 0:
                    return None
                continue
            d.ineqs.append(q)
        for p in d.zeros:
            d.ineqs += [p, -p]
        for p in neqs:
            q = nf.subst(p, d.rw) if d.rw else p
            c = q.const()
            if c is not None:
                if c == 0:
                    return None
                continue
            d.neqs.append(q)
        # tighten disequalities against bounds
        changed = False
        for q in list(d.neqs):
            if d.infeasible_with(-q - 1):          # q >= 0
                if d.infeasible_with(q):
                    return None
                if q - 1 not in d.ineqs:
                    d.ineqs.append(q - 1)
                    ineqs.append(q - 1)
                    changed = True
            elif d.infeasible_with(q - 1):         # q <= 0
                if -q - 1 not in d.ineqs:
                    d.ineqs.append(-q - 1)
                    ineqs.append(-q - 1)
                    changed = True
        cons = d._cons()
        if not fm_feasible(cons):
            return None
        # equalities implied by the bounds
        for q in list(dict.fromkeys(d.ineqs)):
            if q.const() is None and q not in d.zeros and -q not in d.zeros:
                if d.infeasible_with(q - 1):
                    if all((nf.subst(e, d.rw) if d.rw else e) != q for e in eqs):
                        o = _orient(q)
                        if o is not None:
                            eqs.append(q)
                            changed = True
        if not changed:
            break
    # divisibility literals
    for key, v in dv:
        if d.rw:
            nk, ch = nf.subst_key(key, d.rw, {})
            if ch:
                f = relit(nk)
                if f is True or f is False:
                    if f != v:
                        return None
                    continue
                if f[0] == 'lit':
                    w = v if f[2] else not v
                    if f[1] in d.bools and d.bools[f[1]] != w:
                        return None
                    d.bools[f[1]] = w
    for key, v in list(d.bools.items()):
        if key[0] == 'dvd':
            sv = d.bools.pop(key)
            d.cache = {}
            r = d._dvd(key[1], key[2])
            d.bools[key] = sv
            if r is not None and r != v:
                return None
    if d.rw:
        for key, v in list(d.bools.items()):
            if key[0] not in ('eq0', 'lt0', 'dvd'):
                nk, ch = nf.subst_key(key, d.rw, {})
                if ch:
                    f = relit(nk)
                    if f is True or f is False:
                        if f != v:
                            return None
                    elif f[0] == 'lit':
                        w = v if f[2] else not v
                        if f[1] in d.bools and d.bools[f[1]] != w:
                            return None
                        d.bools[f[1]] = w
    d.cache = {}
    d.memo = {}
    return d


PRI = {'coef': 9, 'mod': 8, 'fdiv': 8, 'tdiv': 8, 'bv': 6, 'mu': 5, 'vi': 4, 'vj': 4, 'v': 3}


def _orient(p):
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            k = nf.atom_key(a)
            if k[0] in ('X', 'Y', 'Q', 'V', 'Vs', 'pol'):
                continue
            rest = P({mm: cc for mm, cc in p.t.items() if mm != m})
            if a in rest.atoms():
                continue
            # prefer unit coefficients, then newest
            pri = (abs(c) == 1, PRI.get(k[0], 7), a)
            if best is None or pri > best[0]:
                best = (pri, a, (-rest).scale(Fraction(1) / Fraction(c)))
    if best is None:
        return None
    return best[1], best[2]
