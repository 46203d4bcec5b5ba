"""Interpreted constructors over normal forms: polynomial-ring atoms, coefficient
extraction, modular reduction, division, sums over collections, existentials."""
from nf import *
import nf
from facts import *
import facts as fx

X = atom(('X',))
Y = atom(('Y',))
Q = atom(('Q',))
RING_HEADS = {'X', 'Y', 'Q', 'V', 'Vs', 'pol'}
# heads whose value is a polynomial when the (first) argument is
PROP_HEADS = {'mod', 'base', 'trunc', 'fdivc', 'red', 'pmodular', 'pgcd', 'monic'}
_ring_memo = {}


def atom_is_ring(a):
    r = _ring_memo.get(a)
    if r is None:
        k = nf.atom_key(a)
        h = k[0]
        if h in RING_HEADS:
            r = True
        elif h == 'mu':
            r = k[-1][-1] == 'r'
        elif h == 'bv':
            r = k[-1][-1] == 'r'
        elif h in PROP_HEADS:
            r = is_ring(k[1])
        elif h == 'Sum':
            r = is_ring(k[3])
        elif h == 'Prod':
            r = is_ring(k[3])
        elif h == 'rapp':
            r = True
        else:
            r = False
        _ring_memo[a] = r
    return r


def is_ring(p):
    return any(atom_is_ring(a) for m in p.t for a, _ in m)


def split_mono(m):
    """scalar part, ring part of a monomial"""
    s, r = [], []
    for a, e in m:
        (r if atom_is_ring(a) else s).append((a, e))
    return tuple(s), tuple(r)


def vij(i, j):
    """the unknown with subscripts i, j"""
    a, b = i.as_atom(), j.as_atom()
    if a is not None and b is not None:
        ka, kb = nf.atom_key(a), nf.atom_key(b)
        if ka[0] == 'vi' and kb[0] == 'vj' and ka[1] == kb[1]:
            return atom(('Vs', ka[1]))
    return atom(('V', i, j))


nf.rebuild['V'] = vij


class Key:
    """a monomial key: exponents and unknown (i, j, empty-formula)"""
    __slots__ = ('x', 'y', 'q', 'i', 'j', 'e')

    def __init__(self, x, y, q, i, j, e):
        self.x, self.y, self.q, self.i, self.j, self.e = lift(x), lift(y), lift(q), lift(i), lift(j), e

    def tup(self):
        return (self.x, self.y, self.q, self.i, self.j, self.e)

    def __eq__(self, o):
        return isinstance(o, Key) and self.tup() == o.tup()

    def __hash__(self):
        return hash(self.tup())

    def __repr__(self):
        return 'Key%r' % (self.tup(),)


ID = {}


def explicit_key(rm):
    """exponents of a ring monomial over X,Y,Q,V,Vs; None if another ring atom occurs.
    returns (x,y,q,vars) with vars = list of (atom,exp)"""
    x = y = q = 0
    vs = []
    for a, e in rm:
        h = nf.atom_key(a)[0]
        if h == 'X':
            x = e
        elif h == 'Y':
            y = e
        elif h == 'Q':
            q = e
        elif h in ('V', 'Vs'):
            vs.append((a, e))
        else:
            return None
    return lift(x), lift(y), lift(q), vs


# ---- modular reduction -----------------------------------------------------------

def mk_mod(a, p):
    """representative in [0,p) (floor semantics); coefficientwise on polynomials"""
    ca, cp = a.const(), p.const()
    if cp is not None and cp != 0 and ca is not None and isinstance(ca, int):
        return lift(ca - cp * (ca // cp))
    if a.is_zero():
        return ZERO
    if cp == 1 or cp == -1:
        return ZERO
    a = mod_canon(a, p)
    ca = a.const()
    if ca is not None and cp is not None and cp != 0 and isinstance(ca, int):
        return lift(ca - cp * (ca // cp))
    if a.is_zero():
        return ZERO
    return atom(('mod', a, p))


def mod_canon(a, p):
    a = strip_deep(a, p)
    a = fx.strip_multiples(a, p)
    return a


def strip_deep(a, p):
    """valid rewriting modulo p: drop mod(.,p) at top level and inside bases, sums"""
    for _ in range(8):
        ch = False
        t = ZERO
        for m, c in a.t.items():
            x = lift(c)
            for at, e in m:
                k = nf.atom_key(at)
                if k[0] == 'mod' and k[2] == p and isinstance(e, (int, P)) and not (isinstance(e, int) and e < 0):
                    x = x * power(k[1], e)
                    ch = True
                elif k[0] == 'Sum':
                    b = k[3]
                    nb = strip_deep(b, p)
                    if nb != b and e == 1:
                        x = x * mk_sum0(k[1], k[2], nb)
                        ch = True
                    else:
                        x = x * P({((at, e),): 1})
                elif k[0] == 'base':
                    nb = strip_deep(k[1], p)
                    if nb != k[1]:
                        x = x * power(nb, e)
                        ch = True
                    else:
                        x = x * P({((at, e),): 1})
                elif k[0] == 'inv' and k[2] == p:
                    nb = mk_inv(strip_deep(k[1], p), p)
                    if nb != P({((at, 1),): 1}):
                        x = x * power(nb, e)
                        ch = True
                    else:
                        x = x * P({((at, e),): 1})
                else:
                    x = x * P({((at, e),): 1})
            t = t + x
        a = t
        if not ch:
            break
    return a


def mk_inv(a, p):
    """inverse modulo p; sign and monomial canonical"""
    a = mod_canon(a, p)
    c = a.const()
    if c == 1:
        return ONE
    if a.is_zero():
        return atom(('inv', a, p))
    if fx._lead(a) < 0 if a.const() is None else a.const() < 0:
        r = mk_inv(-a, p)
        return -r
    s = a.single()
    if s is not None and (len(s[1]) > 1 or (len(s[1]) == 1 and (s[0] != 1 or s[1][0][1] != 1))):
        r = ONE
        if s[0] != 1:
            r = r * atom(('inv', lift(s[0]), p))
        for at, e in s[1]:
            if nf.atom_key(at)[0] == 'inv' and nf.atom_key(at)[2] == p:
                r = r * power(nf.atom_key(at)[1], e)
            else:
                r = r * power(atom(('inv', P({((at, 1),): 1}), p)), e)
        return r
    at = a.as_atom()
    if at is not None and nf.atom_key(at)[0] == 'inv' and nf.atom_key(at)[2] == p:
        return nf.atom_key(at)[1]
    return atom(('inv', a, p))


nf.rebuild['mod'] = mk_mod
nf.rebuild['inv'] = mk_inv


def mk_fdiv(a, b):
    ca, cb = a.const(), b.const()
    if cb is not None and cb != 0:
        if cb == 1:
            return a
        if ca is not None and isinstance(ca, int):
            return lift(ca // cb)
        if all(isinstance(c, int) and c % cb == 0 for c in a.t.values()):
            return P({m: c // cb for m, c in a.t.items()})
        # pull out exact multiples
        ex = {m: c for m, c in a.t.items() if isinstance(c, int) and c % cb == 0}
        if ex and isinstance(cb, int):
            r = P({m: c for m, c in a.t.items() if m not in ex})
            return P({m: c // cb for m, c in ex.items()}) + mk_fdiv(r, b)
        if isinstance(cb, int) and cb > 0 and abs(cb) > 1:
            c0 = a.t.get((), 0)
            if isinstance(c0, int) and c0 // cb:
                return lift(c0 // cb) + mk_fdiv(a - (c0 // cb) * cb, b)
    if a.is_zero():
        return ZERO
    return atom(('fdiv', a, b))


def mk_tdiv(a, b):
    ca, cb = a.const(), b.const()
    if cb is not None and cb != 0:
        if cb == 1:
            return a
        if ca is not None and isinstance(ca, int):
            q = abs(ca) // abs(cb)
            return lift(q if (ca >= 0) == (cb > 0) else -q)
        if all(isinstance(c, int) and c % cb == 0 for c in a.t.values()):
            return P({m: c // cb for m, c in a.t.items()})
    if a.is_zero():
        return ZERO
    return atom(('tdiv', a, b))


nf.rebuild['fdiv'] = mk_fdiv
nf.rebuild['tdiv'] = mk_tdiv


# ---- sums over collections ----------------------------------------------------------
# ('Sum', coll, guard, body) -- bound atoms ('bb', d, comp)

def bb_level(*objs):
    """highest level of a binder occurring inside"""
    best = 0
    seen = set()
    for o in objs:
        best = max(best, _lvl(o, seen))
    return best


def _lvl(o, seen):
    best = 0
    if isinstance(o, P):
        for m in o.t:
            for a, e in m:
                if a not in seen:
                    seen.add(a)
                    k = nf.atom_key(a)
                    if k[0] == 'bb':
                        best = max(best, k[1])
                    best = max(best, _lvl(k, seen))
                if isinstance(e, P):
                    best = max(best, _lvl(e, seen))
    elif isinstance(o, (tuple, frozenset)):
        if len(o) == 3 and isinstance(o, tuple) and o[0] == 'bb':
            best = max(best, o[1])
        for x in o:
            if isinstance(x, (P, tuple, frozenset)):
                best = max(best, _lvl(x, seen))
    return best


def coll_comps(coll):
    """the atoms by which an element of the collection is known: component -> ring?"""
    if coll[0] in ('map', 'keys'):
        return ['kx', 'ky', 'kq', 'val', 'kv']
    if coll[0] == 'range':
        return ['e']
    if coll[0] == 'nat':
        return ['e']
    return list(coll[2])


def bv(uid, comp):
    return atom(('bv', uid, comp))


def elem_key(uid):
    """Key of the element of a map collection"""
    kv = ('bv', uid, 'kv')
    return sym_key(bv(uid, 'kx'), bv(uid, 'ky'), bv(uid, 'kq'), kv)


def sym_key(x, y, q, kv):
    return Key(x, y, q, atom(('vi', kv)), atom(('vj', kv)), ('lit', ('b', 'empty', kv), True))


_fresh = [0]


def fresh():
    _fresh[0] += 1
    return _fresh[0]


def _replace_keys(obj, f):
    """structural replacement of raw tuple keys ('bv',uid,..) etc. inside P / formulas"""
    if isinstance(obj, P):
        out = ZERO
        for m, c in obj.t.items():
            x = lift(c)
            for a, e in m:
                k = nf.atom_key(a)
                nk = _replace_tuple(k, f)
                if isinstance(e, P):
                    e = exp_norm(_replace_keys(e, f))
                if nk == k:
                    x = x * P({((a, e),): 1})
                else:
                    if isinstance(nk, P):
                        x = x * power(nk, e)
                    else:
                        rb = nf.rebuild.get(nk[0])
                        b = rb(*nk[1:]) if rb else atom(nk)
                        x = x * power(b, e)
            out = out + x
        return out
    if isinstance(obj, tuple):
        return _replace_tuple(obj, f)
    if isinstance(obj, frozenset):
        return frozenset(_replace_keys(x, f) for x in obj)
    return obj


def _replace_tuple(k, f):
    r = f(k)
    if r is not None:
        return r
    return tuple(_replace_keys(x, f) if isinstance(x, (P, tuple, frozenset)) else x for x in k)


_rk_memo = {}


def rename_bound(obj, old, new):
    """old/new: (head, id); renames atoms (head,id,comp) in any object"""
    mk = (obj if not isinstance(obj, P) else obj, old, new)
    try:
        r = _rk_memo.get(mk)
    except TypeError:
        r = None
    if r is not None:
        return r

    def f(k):
        if len(k) == 3 and k[0] == old[0] and k[1] == old[1]:
            return (new[0], new[1], k[2])
        return None
    if obj is True or obj is False:
        return obj
    if isinstance(obj, tuple) and obj and obj[0] in ('lit', 'and', 'or'):
        r = _rename_formula(obj, f)
    else:
        r = _replace_keys(obj, f)
    try:
        _rk_memo[mk] = r
    except TypeError:
        pass
    return r


def _rename_formula(fm, f):
    if fm is True or fm is False:
        return fm
    if fm[0] == 'lit':
        nk = _replace_tuple(fm[1], f)
        if nk == fm[1]:
            return fm
        r = fx.relit(nk)
        return r if fm[2] else f_not(r)
    g = [_rename_formula(x, f) for x in fm[1]]
    return f_and(*g) if fm[0] == 'and' else f_or(*g)


def mentions(obj, head, uid):
    """does the object mention a bound atom (head, uid, ...)?"""
    if isinstance(obj, P):
        return any(_ment_atom(a, head, uid) or (isinstance(e, P) and mentions(e, head, uid))
                   for m in obj.t for a, e in m)
    if isinstance(obj, tuple):
        if len(obj) == 3 and obj[0] == head and obj[1] == uid:
            return True
        return any(mentions(x, head, uid) for x in obj if isinstance(x, (P, tuple, frozenset)))
    if isinstance(obj, frozenset):
        return any(mentions(x, head, uid) for x in obj)
    return False


_ment_memo = {}


def _ment_atom(a, head, uid):
    k = (a, head, uid)
    r = _ment_memo.get(k)
    if r is None:
        r = mentions(nf.atom_key(a), head, uid)
        _ment_memo[k] = r
    return r


def canon_guard(g):
    if g is True or g is False:
        return g
    if g[0] == 'lit':
        return g
    items = []
    for x in g[1]:
        x = canon_guard(x)
        if x not in items:
            items.append(x)
    items.sort(key=lambda x: repr_formula(x))
    return f_and(*items) if g[0] == 'and' else f_or(*items)


def repr_formula(f):
    return show_formula(f) if not isinstance(f, bool) else str(f)


def mk_sum(coll, uid, guard, body):
    """Sum of body over the elements of coll satisfying guard; element atoms ('bv',uid,..)"""
    if guard is False or body.is_zero():
        return ZERO
    # distribute over the monomials, pulling out the free factors
    groups = {}
    for m, c in body.t.items():
        fr, bd = [], []
        for a, e in m:
            if _ment_atom(a, 'bv', uid):
                bd.append((a, e))
            elif isinstance(e, P) and mentions(e, 'bv', uid):
                # split the exponent: a^(free + bound)
                ef = P({mm: cc for mm, cc in e.t.items() if not mentions(P({mm: 1}), 'bv', uid)})
                eb = e - ef
                if not ef.is_zero():
                    fr.append((a, exp_norm(ef)))
                bd.append((a, exp_norm(eb)))
            else:
                fr.append((a, e))
        key = tuple(bd)
        groups[key] = groups.get(key, ZERO) + P({tuple(fr): c})
    out = ZERO
    if coll[0] == 'range' and guard is True:
        poly, rest = {}, {}
        e_id = nf.atom_id(('bv', uid, 'e'))
        for bd, c in groups.items():
            if all(a == e_id and isinstance(x, int) and x >= 0 for a, x in bd):
                poly[bd] = c
            else:
                rest[bd] = c
        for bd, c in poly.items():
            d = bd[0][1] if bd else 0
            out = out + c * faulhaber(d, coll[1], coll[2])
        groups = rest
    for bd, c in groups.items():
        out = out + c * _sum_atom(coll, uid, guard, P({bd: 1}))
    return out


def _sum_atom(coll, uid, guard, body):
    if coll[0] == 'map' and guard is True:
        if body == map_elem_term(uid):
            return coll[1]
    n = 1 + bb_level(coll, guard if isinstance(guard, tuple) else (), body)
    g = guard if isinstance(guard, bool) else canon_guard(rename_bound(guard, ('bv', uid), ('bb', n)))
    b = rename_bound(body, ('bv', uid), ('bb', n))
    return atom(('Sum', coll, g, b, n))


def mk_sum0(coll, guard, body, n=None):
    """rebuild a closed Sum atom from its canonical arguments"""
    u = fresh()
    if n is None:
        n = bb_level(coll, guard if isinstance(guard, tuple) else (), body)
    g = guard if isinstance(guard, bool) else rename_bound(guard, ('bb', n), ('bv', u))
    b = rename_bound(body, ('bb', n), ('bv', u))
    return mk_sum(coll, u, g, b)


nf.rebuild['Sum'] = mk_sum0


def open_sum(k, u):
    """guard and body of a Sum atom with the element named u"""
    n = k[4]
    g = k[2] if isinstance(k[2], bool) else rename_bound(k[2], ('bb', n), ('bv', u))
    return g, rename_bound(k[3], ('bb', n), ('bv', u))


def map_elem_term(uid):
    return bv(uid, 'val') * elem_mono(uid)


def elem_mono(uid):
    m = power(X, bv(uid, 'kx')) * power(Y, bv(uid, 'ky')) * power(Q, bv(uid, 'kq'))
    return m * atom(('Vs', ('bv', uid, 'kv')))


_bern = [Fraction(1)]


def _bernoulli(n):
    from math import comb
    while len(_bern) <= n:
        m = len(_bern)
        s = Fraction(0)
        for k in range(m):
            s += comb(m + 1, k) * _bern[k]
        _bern.append(-s / (m + 1))
    return _bern[n]


def faulhaber(d, lo, hi):
    """sum of t^d for lo <= t < hi (hi >= lo)"""
    def s(n):      # sum_{t=0}^{n-1} t^d
        from math import comb
        r = ZERO
        for k in range(d + 1):
            b = _bernoulli(k)
            if b:
                r = r + power(n, d + 1 - k).scale(Fraction(comb(d + 1, k)) * b / (d + 1))
        return r
    return s(hi) - s(lo)


# ---- existentials -----------------------------------------------------------------------

XYFREE = {'e4', 'delta1', 'delta1_inverse', 'jq', 'jser', 'qcoef', 'modeq'}
XYFREE_OF = {'trunc': (2,), 'titer': (2, 3), 'qmap': (2,)}


def xyfree(r):
    """no x and no y occurs in the polynomial r"""
    for a in r.atoms(False):
        if not atom_is_ring(a):
            continue
        k = nf.atom_key(a)
        h = k[0]
        if h in ('Q', 'V', 'Vs'):
            continue
        if h == 'pol' and str(k[1]).startswith('q:'):
            continue
        if h == 'mod' and xyfree(k[1]):
            continue
        if h in ('Sum', 'Prod') and k[1][0] == 'range' and xyfree(k[3]):
            continue
        if h == 'rapp' and (k[1] in XYFREE or k[1] in XYFREE_OF and all(xyfree(k[i]) for i in XYFREE_OF[k[1]])):
            continue
        if h == 'rapp' and k[1] in ('subst_x', 'subst_y') and xyfree(k[3]):
            # the other variable replaced before
            i = k[2].as_atom()
            if i is not None:
                i = nf.atom_key(i)
                if i[:2] == ('rapp', 'subst_y' if k[1] == 'subst_x' else 'subst_x') and xyfree(i[3]):
                    continue
        return False
    return True


def mk_trunc(r, n):
    if r.is_zero():
        return r
    return nf.atom(('rapp', 'trunc', r, n))


def mk_ex(coll, uid, f):
    """formula: some element of coll satisfies f (element atoms bv uid)"""
    if f is False:
        return False
    if coll[0] == 'map' and isinstance(f, tuple):
        for x in (f[1] if f[0] == 'and' else [f]):
            if x in (f_not(eq0(bv(uid, 'kx'))), f_not(eq0(bv(uid, 'ky')))) and xyfree(coll[1]):
                return False
    if isinstance(f, tuple) and f[0] == 'or':
        return f_or(*[mk_ex(coll, uid, x) for x in f[1]])
    free, bound = [], []
    for x in (f[1] if isinstance(f, tuple) and f[0] == 'and' else [f]):
        (bound if isinstance(x, tuple) and mentions(x, 'bv', uid) else free).append(x)
    if coll[0] == 'range':
        e = bv(uid, 'e')
        ends = (le(coll[1], e), lt(e, coll[2]))
        bound = [x for x in bound if x not in ends]
        # some element satisfies g iff a first one does
        for x in bound:
            if x[0] == 'lit' and x[1][0] == 'ex' and not x[2] and x[1][1] == ('range', coll[1], e):
                h = rename_bound(x[1][2], ('bb', x[1][3]), ('bv', uid))
                hs = set(h[1]) if h[0] == 'and' else {h}
                if hs - set(ends) == set(y for y in bound if y is not x):
                    bound = [y for y in bound if y is not x]
                    break
    g = f_and(*bound)
    if g is True:
        ex = nonempty(coll)
    else:
        n = 1 + bb_level(coll, g)
        g2 = canon_guard(rename_bound(g, ('bv', uid), ('bb', n)))
        ex = ('lit', ('ex', coll, g2, n), True)
    return f_and(ex, *free)


def nonempty(coll):
    if coll[0] == 'map':
        return f_not(mk_rz(coll[1]))
    if coll[0] == 'range':
        return lt(coll[1], coll[2])
    if coll[0] == 'nat':
        return True
    if coll[0] == 'filt':
        return True if False else ('lit', ('ex', coll[1], coll[2], coll[3]), True)
    return f_not(eq0(atom(('len', coll))))


def mk_ex0(coll, g, n):
    u = fresh()
    return mk_ex(coll, u, rename_bound(g, ('bb', n), ('bv', u)))


fx.lit_rebuild['ex'] = mk_ex0


def open_ex(key, u):
    return rename_bound(key[2], ('bb', key[3]), ('bv', u))


def mk_rz(r):
    """formula: the polynomial r is zero"""
    if r.is_zero():
        return True
    c = r.const()
    if c is not None:
        return False
    if not is_ring(r):
        return eq0(r)
    r = fx._int_coefs(r)
    g = fx._content(r, True)
    if g > 1:
        r = r.scale(Fraction(1, g))
    if _lead_any(r) < 0:
        r = -r
    if len(r.t) == 1:
        (m, c), = r.t.items()
        s, rr = split_mono(m)
        ex = explicit_key(rr)
        if ex is not None:
            return eq0(P({s: c}))
        fs = []
        for a, e in m:
            if not (isinstance(e, int) and e > 0) and nf.atom_key(a)[0] not in ('X', 'Y', 'Q', 'V', 'Vs'):
                return ('lit', ('rz', r), True)
            if nf.atom_key(a)[0] in ('X', 'Y', 'Q', 'V', 'Vs'):
                continue
            fs.append(eq0(P({((a, 1),): 1})) if not atom_is_ring(a) else ('lit', ('rz', P({((a, 1),): 1})), True))
        if len(fs) > 1:
            return f_or(*fs)
        return fs[0] if fs else False
    # a sum of distinct explicit constant monomials with a non-zero number is not zero
    if all(split_mono(m)[0] == () for m in r.t):
        ks = [explicit_key(split_mono(m)[1]) for m in r.t]
        if all(k is not None and not k[3] and all(z.const() is not None for z in k[:3]) for k in ks):
            return False
    return ('lit', ('rz', r), True)


def _lead_any(p):
    best = None
    for m in p.t:
        k = tuple((a, str(e)) for a, e in m)
        if best is None or k > best[0]:
            best = (k, p.t[m])
    return best[1]


fx.lit_rebuild['rz'] = mk_rz
