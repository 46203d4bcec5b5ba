"""Specifications: text, division polynomials, q-series, modular polynomials, numbering, point counting."""
from spec import *
import contracts
import roles
import sym
from refs import *
from facts import ge0, eq0, lt0
from specs_ec import g_curve, g_point, pts, nonsing, PP, prime2

SPECS = []
PROPS = {}


def add(*a, **k):
    SPECS.append(Spec(*a, **k))


# --- C18 text
def fmt_arg(I, st, ty, n):
    return Ref(I.new_cell(st, Rec('fmt', (StrV(),))))


def text(group, path, show, gen, n=300, **k):
    add(group, sel_path('<%s as std::fmt::Display>::fmt' % path), lambda v, f: ((0, ()), (show(v),)),
        gens=lambda rng: [gen(rng), None], args={1: fmt_arg}, mut=(1,), n=n, **k)


def g_tt(rng):
    c, (x, y, q, v) = g_term(rng)
    e = lambda k: rng.choice([0, 0, 1, -1, 2, k, 10])
    return (rng.choice([1, -1, 0, c, c]), (e(x), e(y), e(q), rng.choice([None, v])))


text('svtext', 'subscripted_variable::SubscriptedVariable', show_sv, lambda rng: g_var(rng) or (None if rng.random() < .5 else (12, -3)))
text('termtext', 'term::Term', show_term, g_tt, n=600)
text('poltext', 'polynomial::Polynomial', lambda v: show_poly(v),
     lambda rng: {k: c for c, k in [g_tt(rng) for _ in range(rng.choice([0, 1, 2, 3, 4]))] if c}, n=500)
text('pointtext', 'elliptic_curve::ECPoint', show_point, lambda rng: g_point(rng, g_curve(rng)) if rng.random() < .7 else
     tuple(rng.pick([0, 0, 1, 1, -1, 2, 3, 10], -10 ** 4, 10 ** 4) for _ in range(3)))
text('curvetext', 'elliptic_curve::EllipticCurve', lambda E: 'F_%d: y^2 = %s, cardinality:%d, j:%d' % (
    E[2], show_poly(clean({(3, 0, 0, None): 1, (1, 0, 0, None): E[0], ONEK: E[1]})), len(E[3]), j_inv(E)),
     lambda rng: (lambda E: E + (pts(E) + [O],))(g_curve(rng)), n=60)
text('pointtext', 'elliptic_curve::ECPointVec', lambda v: ', '.join(show_point(P) for P in v),
     lambda rng: (lambda E: [g_point(rng, E) for _ in range(rng.randint(0, 4))])(g_curve(rng)), n=60)
PROPS['C18'] = ['svtext', 'termtext', 'poltext', 'pointtext', 'curvetext']


# --- C30 numbering of unknowns
K = 'subscripted_variable::SubscriptedVariableConverter::'


def numbering(p):
    return [(i, j) for i in range(p + 1) for j in range(i + 1, p + 1)] + [(i, i) for i in range(p + 1)]


def prime_i32(rng):
    return rng.prime([2, 3, 5, 7, 11, 13])


NONE_ = lambda got: got in ('None', None, ('None',))


def is_prime(n):
    return n >= 2 and all(n % d for d in range(2, n))


def ix_var(p, v):
    if v is None:
        return NONE_
    L = numbering(p)
    return ('Some', L.index(v)) if v in L else PANIC


add('numbering', sel_path(K + 'new'), lambda p: (p,) if is_prime(p) else PANIC, gens=lambda rng: [rng.choice([prime_i32(rng), rng.randint(-3, 60)])], n=100)
add('numbering', sel_path(K + 'count'), lambda p: (p + 1) * (p + 2) // 2, gens=lambda rng: [prime_i32(rng)], n=40)
add('numbering', sel_path(K + 'index_from_variable'), ix_var,
    gens=lambda rng: (lambda p: [p, rng.choice([None] + numbering(p) * 2 + [(1, 0), (p, 0), (p + 1, p + 1), (0, p + 1), (-1, 0), (-1, -1)])])(prime_i32(rng)), n=100)
add('numbering', sel_path(K + 'variable_from_index'), lambda p, i: numbering(p)[i] if i < len(numbering(p)) else PANIC,
    gens=lambda rng: (lambda p: [p, rng.randint(0, (p + 1) * (p + 2) // 2 + 2)])(prime_i32(rng)), n=100)
PROPS['C30'] = ['numbering']


# --- C27 q-series
def qpol(I, st, ty, n):
    v = sym.poly_sym('q:' + n)
    return I.ref_to(st, v) if ty.get('k') == 'ref' else v


def order0(I, st, args):
    st.assume(ge0(args[0]))


def g_N(rng):
    return [rng.pick([0, 1, 2, 3, 4, 5, 6], 0, 40)]


add('sigma', sel_path('divisor::sigma_divisor'), sigma, gens=lambda rng: [rng.pick([0, 1, 2, 3, 4, 6, 12, 24, 25, 36, -1, -5, rng.randint(1, 40)], -100, 600), rng.pick([0, 1, 2, 3, -1, 4, 20, 64], -5, 40)], n=150)
add('ptrunc', sel_path('polynomial::Polynomial::power_omit_high_order_q'), lambda a, k, n: (titer(PONE, a, k, n),), args={0: qpol},
    gens=lambda rng: [g_poly(rng, x=False, y=False, emin=rng.choice([0, -2])), rng.randint(0, 4), rng.randint(-2, 6)], n=60)
for _n, _p, _f in (('e4', 'eisenstein::eisenstein4', e4), ('delta1', 'delta::delta1', delta1), ('delta1_inverse', 'delta::delta1_inverse', delta1_inverse),
                   ('jq', 'j_invariant::j_invariant1', jq)):
    add(_n, sel_path(_p), (lambda f: lambda N: (f(N),))(_f), gens=g_N, assume=order0, n=10)
PROPS['C27'] = ['sigma', 'ptrunc', 'e4', 'delta1', 'delta1_inverse', 'jq']

# --- C28
MP = 'modular_polynomial::'


def j_ok(N):
    want = jser(N)
    return lambda got: got is not PANIC and {k: c for k, c in got[0].items() if k[2] <= N} == want


def prime_arg(f):
    return lambda p: f(p) if is_prime(p) else PANIC


def g_p(ps):
    return lambda rng: [rng.choice([rng.prime(ps, 7)] * 2 + [rng.choice(ps), rng.choice([0, 1, 4, 9, -3])])]


add('jser', sel_path('j_invariant::j_invariant'), j_ok, gens=g_N, assume=order0, n=10)
add('modeq', sel_path(MP + 'subscripted_variable_modular_polynomial_q'), prime_arg(lambda p: (modeq(p),)), gens=g_p([2, 3, 5]), n=10)
add('modeqs', sel_path(MP + 'subscripted_variable_modular_polynomial_list'),
    prime_arg(lambda p: [(qcoef(modeq(p), i),) for i in range(-p * p - p, 1)]), gens=g_p([2, 3, 5]), n=10)
PROPS['C28'] = ['jser', 'modeq', 'modeqs']

# --- C29
add('ansatz', sel_path(MP + 'subscripted_variable_modular_polynomial'), prime_arg(lambda p: (ansatz(p),)), gens=lambda rng: [rng.choice([rng.prime([2, 2, 3, 3, 5, 7], 40), rng.pick([0, 1, 4, 9, -3, 15, 25], -50, 50)])], n=30)
add('modpoly', sel_path(MP + 'modular_polynomial'), prime_arg(lambda p: (modpoly(p),)), gens=lambda rng: [rng.choice([2, 3, 2, 3, 0, 1, 4, 9, -3])], n=10)
PROPS['C29'] = ['ansatz', 'modpoly']


# --- C04
add('xgcd', sel_path('bigint::extended_gcd'), xgcd_ok, n=200,
    gens=lambda rng: (lambda k: [k * g_int(rng), k * g_int(rng)])(rng.choice([1, 1, 2, 6])))
PROPS['C04'] = ['xgcd']

# --- C26
DP = 'division_polynomial::'


def g_abn(rng):
    return [rng.randint(-4, 4), rng.randint(-4, 4), rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, -1, -2])]


for _n, _f in (('psi', psi), ('phi', phi), ('omega', omega)):
    add(_n, sel_path(DP + _n), (lambda f: lambda a, b, n: (lambda r: r if r is PANIC else (r,))(f(a, b, n)))(_f), gens=g_abn, n=50)
PROPS['C26'] = ['psi', 'phi', 'omega']


def two(i):
    """the modulus is at least 3"""
    return lambda I, st, args: st.assume(ge0(st.norm(I.read(st, args[i].cell, args[i].path) if isinstance(args[i], Ref) else args[i]) - 3))


# --- C05
def crt_ok(ls):
    L, R = crt(ls)
    return lambda got: got is not PANIC and got[0] == L and (got[1] - R) % L == 0


def g_crt(rng):
    ms = [m for m in (rng.choice([[2, 3, 5, 7, 11], [4, 9, 25, 7], [7, 5, 3], [1, 5, 8], [101, 97, 3]]))]
    rng.shuffle(ms)
    ms = ms[:rng.choice([0, 1, 2, 2, 3, 3, 4])]
    if rng.random() < .3:
        # residues of one small number
        x = rng.randint(-3, 9)
        return [[(m, x % m) for m in ms]]
    return [[(m, rng.choice([rng.randrange(m), rng.randint(-40, 40)])) for m in ms]]


def crt_states(pre, n, rng):
    L, R = crt(pre)
    for r in (R, R - L, R + L, R + 7 * L, R - 1000 * L):
        if n == 2:
            yield L, r
            yield r, L


add('crt', sel_path('bigint::chinese_remainder'), crt_ok, gens=g_crt, n=100, loop=contracts.Fold('a', crt_states))
PROPS['C05'] = ['crt']

# --- C17
PO = 'polynomial::Polynomial::'
P3 = [3, 3, 5, 7, 11, 13]


def g_fx(rng, p, d, y=False):
    f = {}
    for _ in range(rng.randint(0, 4)):
        f[(rng.randint(0, d), rng.choice([0, 1, 2]) if y else 0, rng.choice([0, 0, 1]) if y else 0, rng.choice([None, None, (0, 0), (1, 2)]) if y else None)] = rng.choice([1, -1, p, p + 1, -p, rng.randint(-p, p)])
    return clean(f)


def g_rem(rng):
    p = rng.prime(P3)
    y = rng.random() < .4
    g = rng.choice([g_fx(rng, p, 3), g_fx(rng, p, 2), {ONEK: rng.randint(1, p - 1)}, g_fx(rng, p, 3, rng.random() < .3)])
    return [g_fx(rng, p, 5, y), g, p]


def rem_spec(f, g, p):
    if any(k[1] or k[2] for k in g) or not pmod(g, p):
        return PANIC
    if any(k[3] is not None for k in g):
        return ANY
    return (prem(f, g, p),)


def g_gcd(rng):
    p = rng.prime(P3)
    h = rng.choice([PONE, g_fx(rng, p, 1), g_fx(rng, p, 2)])
    return [pmul(h, g_fx(rng, p, 2)), pmul(h, g_fx(rng, p, 2)), p]


add('highest', sel_path(PO + 'highest_term_x'), lambda f: (f[lead(f)], lead(f)) if f else (0, ONEK), n=200,
    gens=lambda rng: [g_poly(rng, emin=rng.choice([0, -2]))])
add('pmodular', sel_path(PO + 'polynomial_modular'), rem_spec, gens=g_rem, n=200, assume=two(2), loop=contracts.While(lambda s, f, g, p: rem_spec(s, g, p)))
add('monic', sel_path(PO + 'to_monic'), lambda f, p: (pmonic(f, p),), n=200, assume=two(1), gens=lambda rng: g_gcd(rng)[1:])
add('pgcd', sel_path(PO + 'gcd'), lambda f, g, p: (pgcd(f, g, p),), n=200, assume=two(2), gens=g_gcd)
add('gcdone', sel_path(PO + 'is_gcd_one'), lambda f, g, p: pgcd(f, g, p) == PONE, n=200, assume=two(2), gens=g_gcd)
PROPS['C17'] = ['highest', 'pmodular', 'monic', 'pgcd', 'gcdone']

# --- C32
def trace(a, b, q):
    n = 1 + sum(1 for x in range(q) for y in range(q) if (y * y - x ** 3 - a * x - b) % q == 0)
    return q + 1 - n


def schoof_spec(a, b, q):
    t = trace(a, b, q)
    return [(l, t % l) for l in (2, 3, 5) if l == 2 or l < q]


def curves_by_trace(q):
    d = {}
    for a in range(q):
        for b in range(q):
            if (4 * a ** 3 + 27 * b * b) % q:
                d.setdefault(trace(a, b, q), []).append((a, b))
    return d


class GSchoof:
    """curves over small fields, going through the traces of Frobenius"""
    def __init__(self):
        self.d = {}
        self.todo = []

    def __call__(self, rng):
        if not self.d:
            self.d = {q: curves_by_trace(q) for q in (5, 7, 11)}
            todo = [(q, t) for q in self.d for t in self.d[q]]
            todo.sort()
            rng.shuffle(todo)
            # Frobenius acts as a scalar on the l-torsion
            self.todo = todo[7:] + [(19, 1, 0, b) for b in range(1, 19) if trace(0, b, 19) in (1, -1)][:1] + todo[:7] + \
                [(7, t, 0, b) for b in range(1, 7) for t in (1, -1) if trace(0, b, 7) == t]
        if not self.todo:
            self.todo = [(q, t) for q in self.d for t in self.d[q]]
        e = self.todo.pop()
        q = e[0]
        a, b = e[2:] if len(e) == 4 else rng.choice(self.d[q][e[1]])
        return [a + q * rng.choice([0, 0, 0, 1, -1]), b + q * rng.choice([0, 0, 0, 1, -1]), q]


add('schoof', sel_path('schoof::schoof'), schoof_spec, gens=GSchoof(), n=12, assume=lambda I, st, args: st.assume(ge0(args[2] - 5)))
PROPS['C32'] = ['schoof']


# --- C33
def sea_gcd(E, l):
    p = E[2]
    j = j_inv(E)
    f = {}
    for (x, y, q, v), c in modpoly(l).items():
        f = padd(f, {(x, 0, 0, None): c * j ** y})
    return pgcd({(p, 0, 0, None): 1, (1, 0, 0, None): -1}, f, p)


def sea_roots(E, l, below):
    g = sea_gcd(E, l)
    d = roles.degx(g)
    rs = [x for x in range(max(below, 0)) if sum(c * x ** k[0] for k, c in g.items()) % E[2] == 0] if d > 0 else []
    return rs[:min(2, d)], d


def sea_spec(E, l):
    g = sea_gcd(E, l)
    rs, d = sea_roots(E, l, E[2])
    return ((g,), d, 1 if d > 0 else 0, rs)


def g_sea(rng):
    while True:
        p = rng.prime([5, 7, 11, 13, 17, 23])
        l = rng.choice([2, 3])
        if l == 2 and rng.random() < .4:
            # all three points of order two are rational
            r, s = rng.randrange(p), rng.randrange(p)
            t = -r - s
            E = ((r * s + r * t + s * t) % p, -r * s * t % p, p)
        else:
            E = (rng.randint(0, p - 1), rng.randint(0, p - 1), p)
        if (4 * E[0] ** 3 + 27 * E[1] ** 2) % p:
            return [E + ([],), l]


add('sea', sel_path('schoof_elkies_atkins::sea'), sea_spec, gens=g_sea, assume=prime2, n=40, loop=contracts.Scan())
PROPS['C33'] = ['sea']

# --- C31
def g_system(rng):
    n = rng.choice([1, 1, 2, 2, 2, 3, 3])
    x = [rng.randint(-5, 5) for _ in range(n)]
    while True:
        m = n + rng.choice([0, 0, 1, 2])
        A = [[rng.choice([0, 0, 1, -1, 2, -3, 4, rng.randint(-9, 9)]) for _ in range(n)] for _ in range(m)]
        if rng.random() < .3:
            # a triangular system with its rows in another order
            A = [[0] * i + [rng.choice([1, -1, 2, 3])] + [rng.choice([0, 0, 1, -2, 4]) for _ in range(n - i - 1)] for i in range(n)] + \
                [[0] * n for _ in range(m - n)]
            rng.shuffle(A)
            break
        if rng.random() < .1:
            # a column that depends on the others
            k = rng.randrange(n)
            for r in A:
                r[k] = sum(c for i, c in enumerate(r) if i != k) * 2
            break
        if rank(A) == n:
            break
    return [[r + [sum(a * b for a, b in zip(r, x))] for r in A]]


def solve_ok(M):
    n = len(M[0]) - 1
    if rank([r[:-1] for r in M]) < n:
        return PANIC
    x = solution(M)
    return lambda got: got is not PANIC and len(got) >= n and [r[-1] for r in got[:n]] == x


add('linsolve', sel_path('simultaneous_equation::solve'), solve_ok, gens=g_system, n=40, steps=200000)
PROPS['C31'] = ['linsolve']

# --- C36: copies, defaults, conversions of the value types
from specs_ec import g_curve, g_point, pts, listed, rhs
CL = lambda ty: sel_path('<%s as std::clone::Clone>::clone' % ty)
DF = lambda ty: sel_path('<%s as std::default::Default>::default' % ty)
for _t in ('term::Term', 'term::Monomial', 'subscripted_variable::SubscriptedVariable'):
    add('copy', CL(_t), lambda a: a, n=100, floor=0)
add('copy', CL('term_builder::TermBuilder'), lambda b: (b[0],) + b[1], n=100, floor=0)
add('copy', CL('polynomial::Polynomial'), lambda a: (a,), n=100, floor=0)
add('copy', CL('elliptic_curve::ECPoint'), lambda a: a, n=100, gens=lambda rng: [g_point(rng, g_curve(rng))], floor=0)
add('copy', CL('elliptic_curve::EllipticCurve'), lambda E: lambda got: got is not PANIC and got[:3] == E[:3] and got[3] == (rhs(E[0], E[1]),) and list(got[4]) == list(E[3]), n=60,
    gens=lambda rng: [listed(rng, g_curve(rng))], floor=0)
add('copy', DF('polynomial::Polynomial'), lambda: ({},), n=1, floor=0)
add('copy', DF('term::Term'), lambda: (0, ONEK), n=1, floor=0)
add('copy', DF('term::Monomial'), lambda: ONEK, n=1, floor=0)
add('copy', DF('subscripted_variable::SubscriptedVariable'), lambda: None, n=1, floor=0)
add('copy', sel_path('subscripted_variable::SubscriptedVariable::new'), lambda: None, n=1)
_pl = lambda rng: [(lambda E: [g_point(rng, E) for _ in range(rng.choice([0, 1, 2, 3, 7]))])(g_curve(rng))]
for _r in ('', '&'):
    add('copy', sel_path('elliptic_curve::<impl std::convert::From<%selliptic_curve::ECPointVec> for std::vec::Vec<elliptic_curve::ECPoint>>::from' % _r),
        lambda v: list(v), gens=_pl, n=60)
add('copy', sel_path('<elliptic_curve::ECPointVec as std::ops::Deref>::deref'), lambda v: list(v), gens=_pl, n=60)
PROPS['C36'] = ['copy']
