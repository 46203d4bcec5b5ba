"""Ring normal forms.

A value of the abstract domain is a polynomial with rational coefficients over
interned atoms.  A monomial maps atoms to exponents; an exponent is an int or
itself a normal form (symbolic exponent).  Atoms are immutable tuples:
  ('v', name)            unknown integer
  ('X',) ('Y',) ('Q',)   the polynomial variables, ('V', i, j) an unknown c_i_j
  ('Vs', key)            the (possibly empty) unknown of a symbolic monomial
  ('pol', name)          an unknown polynomial
  (fn, args...)          an application; args are P / literals / tuples
"""
from fractions import Fraction

_atoms = []
_ids = {}


def atom_id(key):
    i = _ids.get(key)
    if i is None:
        i = len(_atoms)
        _atoms.append(key)
        _ids[key] = i
    return i


def atom_key(i):
    return _atoms[i]


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class P:
    __slots__ = ('t', '_h', '_s')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._s = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            d = t.get(m, 0) + c
            if d == 0:
                t.pop(m, None)
            else:
                t[m] = _norm(d)
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        if not self.t or not o.t:
            return ZERO
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                d = t.get(m, 0) + c1 * c2
                if d == 0:
                    t.pop(m, None)
                else:
                    t[m] = _norm(d)
        return P(t)

    __rmul__ = __mul__

    def scale(self, k):
        if k == 0:
            return ZERO
        return P({m: _norm(c * k) for m, c in self.t.items()})

    def is_zero(self):
        return not self.t

    def const(self):
        """the constant value, or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def single(self):
        """(coef, mono) if a single monomial"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None

    def as_atom(self):
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return s[1][0][0]
        return None

    def atoms(self, deep=True, acc=None):
        """ids of atoms; deep: also inside exponents and arguments"""
        if acc is None:
            acc = set()
        for m in self.t:
            for a, e in m:
                if a not in acc:
                    acc.add(a)
                    if deep:
                        _key_atoms(_atoms[a], acc)
                if deep and isinstance(e, P):
                    e.atoms(True, acc)
        return acc

    def __repr__(self):
        return show(self)


def _key_atoms(k, acc):
    for x in k:
        if isinstance(x, P):
            x.atoms(True, acc)
        elif isinstance(x, (tuple, frozenset)):
            _key_atoms(x, acc)


def lift(x):
    if isinstance(x, P):
        return x
    if x == 0:
        return ZERO
    return P({(): _norm(x)})


ZERO = P({})
ONE = P({(): 1})


def const(c):
    return lift(c)


def atom(key):
    return P({((atom_id(key), 1),): 1})


def var(name):
    return atom(('v', name))


def exp_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return exp_norm(lift(a) + lift(b))


def exp_norm(e):
    if isinstance(e, P):
        c = e.const()
        if c is not None and isinstance(c, int):
            return c
    return e


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            ne = exp_add(d[a], e)
            if ne == 0 and isinstance(ne, int):
                del d[a]
            else:
                d[a] = ne
        else:
            d[a] = e
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def mono_p(m, c=1):
    return P({m: c})


MAX_EXPAND = 12


def power(b, e):
    """b^e, e an int or P"""
    b = lift(b)
    e = exp_norm(lift(e) if not isinstance(e, int) else e)
    if isinstance(e, int):
        if e == 0:
            return ONE
        c = b.const()
        if c is not None:
            if e > 0:
                return lift(_norm(Fraction(c) ** e))
            if c == 1:
                return ONE
            if c == -1:
                return lift(-1 if e % 2 else 1)
            return atom_pow(b, e)
        s = b.single()
        if s is not None:
            cc, m = s
            nm = mono_pow(m, e)
            if e > 0:
                return P({nm: _norm(Fraction(cc) ** e)})
            if cc == 1:
                return P({nm: 1})
            if cc == -1:
                return P({nm: -1 if e % 2 else 1})
            return P({nm: 1}) * atom_pow(lift(cc), e)
        if e > 0 and (e <= 4 or (e <= MAX_EXPAND and len(b.t) <= 2)):
            r = ONE
            for _ in range(e):
                r = r * b
            return r
        return atom_pow(b, e)
    c = b.const()
    if c is not None:
        if c == 1:
            return ONE
        if c == 0:
            return atom_pow(b, e)
        return atom_pow(b, e)
    s = b.single()
    if s is not None:
        cc, m = s
        r = P({mono_pow(m, e): 1})
        if cc == 1:
            return r
        return r * atom_pow(lift(cc), e)
    return atom_pow(b, e)


def mono_pow(m, e):
    out = []
    for a, x in m:
        ne = exp_norm(lift(x) * lift(e))
        if ne != 0 or not isinstance(ne, int):
            out.append((a, ne))
    return tuple(out)


def atom_pow(b, e):
    # composite base kept as one atom with exponent e
    a = atom_id(('base', b))
    return P({((a, e),): 1})


# substitution ---------------------------------------------------------------
rebuild = {}   # fn name -> constructor(args) -> P


def subst(p, mp, memo=None):
    """replace atoms (by id) with normal forms, everywhere"""
    if not mp:
        return p
    if memo is None:
        memo = {}
    key = ('p', p)
    if key in memo:
        return memo[key]
    res = ZERO
    changed = False
    for m, c in p.t.items():
        term = lift(c)
        for a, e in m:
            ne = subst_exp(e, mp, memo)
            na = subst_atom(a, mp, memo)
            if na is None and ne is e:
                term = term * P({((a, e),): 1})
            else:
                changed = True
                base = na if na is not None else P({((a, 1),): 1})
                term = term * power(base, ne)
        res = res + term
    if not changed:
        res = p
    memo[key] = res
    return res


def subst_exp(e, mp, memo):
    if isinstance(e, P):
        n = subst(e, mp, memo)
        if n is e or n == e:
            return e
        return exp_norm(n)
    return e


def subst_atom(a, mp, memo):
    """new P for atom a, or None if unchanged"""
    if a in mp:
        return mp[a]
    k = ('a', a)
    if k in memo:
        return memo[k]
    key = _atoms[a]
    nk, ch = subst_key(key, mp, memo)
    if not ch:
        memo[k] = None
        return None
    f = rebuild.get(key[0])
    r = f(*nk[1:]) if f else atom(nk)
    memo[k] = r
    return r


def subst_key(key, mp, memo):
    out = []
    ch = False
    for x in key:
        if isinstance(x, P):
            n = subst(x, mp, memo)
            if n is not x:
                ch = ch or n != x
            out.append(n)
        elif isinstance(x, tuple):
            n, c = subst_key(x, mp, memo)
            ch = ch or c
            out.append(n)
        elif isinstance(x, frozenset):
            ns = []
            c2 = False
            for y in x:
                n, c = subst_key(y, mp, memo) if isinstance(y, tuple) else (y, False)
                c2 = c2 or c
                ns.append(n)
            ch = ch or c2
            out.append(frozenset(ns))
        else:
            out.append(x)
    return tuple(out), ch


rebuild['base'] = lambda b: b


def map_atoms(p, f):
    """substitute via function id -> P or None for all deep atoms"""
    mp = {}
    for a in p.atoms():
        r = f(a)
        if r is not None:
            mp[a] = r
    return subst(p, mp)


# display ----------------------------------------------------------------------

def show_atom(a):
    return show_key(_atoms[a])


def show_key(k):
    if not isinstance(k, tuple):
        return str(k)
    if not k:
        return '()'
    if k[0] in ('v', 'pol'):
        return '.'.join(str(x) for x in k[1:])
    if k[0] == 'bv':
        return 'el%s.%s' % (k[1], k[2])
    if k[0] == 'mu':
        return 'mu%s[%s]' % (k[1], show_key(k[2]) if isinstance(k[2], tuple) else k[2])
    if k[0] in ('X', 'Y', 'Q') and len(k) == 1:
        return k[0]
    if k[0] == 'base':
        return '(%s)' % show(k[1])
    return '%s(%s)' % (k[0], ', '.join(show_key(x) if isinstance(x, tuple) else
                                       ('{' + ';'.join(show_key(y) for y in x) + '}' if isinstance(x, frozenset) else str(x))
                                       for x in k[1:]))


def show(p):
    if p._s is None:
        if not p.t:
            p._s = '0'
        else:
            parts = []
            for m, c in sorted(p.t.items(), key=lambda x: [(a, str(e)) for a, e in x[0]], reverse=True):
                f = []
                for a, e in m:
                    s = show_atom(a)
                    if e != 1:
                        s += '^%s' % (e if isinstance(e, int) and e >= 0 else '(%s)' % (e,))
                    f.append(s)
                if c != 1 or not f:
                    if c == -1 and f:
                        f[0] = '-' + f[0]
                    else:
                        f.insert(0, str(c))
                parts.append('*'.join(f))
            p._s = ' + '.join(parts)
    return p._s
