"""Specifications: integers, terms, polynomials."""
from spec import *
import refs as r
from facts import ge0

P2 = ('Polynomial', 'Term')
SPECS = []


def add(*a, **k):
    SPECS.append(Spec(*a, **k))


def topol(v):
    return v if isinstance(v, dict) else tp(v)


def gp(**kw):
    return lambda rng: g_poly(rng, **kw)


def gvar(rng):
    return g_poly(rng, var=True)


def gtv(rng):
    return g_term(rng)


def gen_by(it_ty):
    return None


def g_arg(rng, ty):
    while ty.get('k') == 'ref':
        ty = ty['t']
    if ty.get('p') == POLY:
        return g_poly(rng, var=rng.random() < .4)
    return default_gen(rng, ty)


# --- C07 ring operators
def no2(a, b):
    return not (any(k[3] for k in topol(a)) and any(k[3] for k in topol(b)))


gpv = {0: lambda rng: g_poly(rng, var=rng.random() < .5), 1: lambda rng: g_poly(rng, var=rng.random() < .5)}


def gens_for(s, rr):
    return {0: gpv[0] if s == 'Polynomial' else gtv, 1: gpv[1] if rr == 'Polynomial' else gtv}


OPS = {'Add': lambda a, b: padd(topol(a), topol(b)), 'Sub': lambda a, b: padd(topol(a), topol(b), -1),
       'Mul': lambda a, b: pmul(topol(a), topol(b))}
PV = lambda v: v[0] if isinstance(v, tuple) else v     # Polynomial record -> map
for s in P2:
    for rr in P2:
        for t in ('Add', 'Sub', 'Mul'):
            if t == 'Mul' and s == rr == 'Term':
                continue
            add('ring', sel_op(t, s, rr), (lambda f: lambda a, b: (f(a, b),))(OPS[t]), gens=gens_for(s, rr), floor=4, corr=True,
                title='%s %s %s' % (s, t, rr),
                pre=(lambda a, b: no2(a, b)) if t == 'Mul' else None)
add('ring', sel_op('Neg', 'Polynomial', None), lambda a: (pscale(a, -1),), gens=gpv, floor=2)
for t in ('Add', 'Sub', 'Mul'):
    for rr in P2:
        add('ring', sel_op(t + 'Assign', 'Polynomial', rr), (lambda f: lambda a, b: ((), (f(a, b),)))(OPS[t]),
            gens=gens_for('Polynomial', rr), corr=True, mut=(0,), floor=0 if rr == 'Term' else 2,
            pre=(lambda a, b: no2(a, b)) if t == 'Mul' else None)

# --- C01, C02
NPOW = {0: g_int, 1: lambda rng: rng.pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 21, 31, 32, 33], 0, 1100)}


def g_npower(rng):
    if rng.random() < .15:
        # exponents beyond the machine integers, of numbers whose powers stay small
        return rng.randint(-1, 1), 2 ** rng.choice([15, 16, 31, 32, 63, 64, 127, 128]) + rng.randint(-2, 2)
    return NPOW[0](rng), NPOW[1](rng)


add('npower', sel_op('Power', 'BigInt', 'i32'), lambda a, n: a ** n, gens=NPOW, floor=1)
add('npower', sel_op('Power', 'BigInt', 'BigInt'), lambda a, n: a ** n, gens=g_npower, floor=2)
add('npowmod', sel_op('PowerModulo', 'BigInt', ('BigInt', None)), lambda a, n, p: pow(a, n, p),
    gens={0: lambda rng: rng.randint(-200, 200), 1: lambda rng: rng.pick([0, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 33], 0, 1100) if rng.random() < .5 else rng.randint(0, 300),
          2: lambda rng: rng.pick([2, 3, 4, 5, 6, 7, 9, 10, 13, 15, 16, 101], 2, 10 ** 5) if rng.random() < .5 else rng.randint(2, 120)}, floor=1, n=600)


def inv_spec(a, p):
    if p < 2:
        return PANIC
    if a % p == 0:
        return 0
    return pow(a, -1, p)


add('inverse', sel_op('Inverse', 'BigInt', None), inv_spec,
    gens={0: lambda rng: rng.randint(-50, 50), 1: lambda rng: rng.choice([-3, -1, 0, 1, 3, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 97, 101, 257, 65537, 10 ** 9 + 7])}, floor=1, n=600)

BIGN = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]


# --- C03
def ppow_spec(a, n):
    return PANIC if n < 0 else (ppow(a, n),)


def g_small(rng):
    return g_poly(rng, n=rng.choice([0, 1, 2, 2, 3]), emax=3, cmax=4)


add('ppower', sel_op('Power', 'Polynomial', ('BigInt', 'i32')), ppow_spec, gens={0: g_small, 1: lambda rng: rng.pick([-2, -1] + BIGN, 0, 40)},
    floor=3, n=120)
add('ppower', sel_path('polynomial::Polynomial::square'), lambda a: (ppow(a, 2),), gens={0: g_small}, n=60)
add('ppower', sel_path('polynomial::Polynomial::cube'), lambda a: (ppow(a, 3),), gens={0: g_small}, n=60)
add('ppowmod', sel_path('polynomial::Polynomial::power_modulo'), lambda a, n, p: PANIC if n < 0 else (ppowmod(a, n, p),),
    gens={0: g_small, 1: lambda rng: rng.pick([-1] + BIGN, 0, 40), 2: lambda rng: rng.choice([2, 3, 4, 5, 7, 10, 13])}, n=120)


def tpow_spec(t, n):
    c, (x, y, q, v) = t
    if v is not None:
        return PANIC
    return (c ** n, (x * n, y * n, q * n, None))


add('tpower', sel_op('Power', 'Term', ('BigInt', 'i32')), tpow_spec, gens={0: gtv, 1: lambda rng: rng.pick(BIGN, 0, 70)}, floor=3)
add('tpowmod', sel_path('term::Term::power_modulo'),
    lambda t, n, p: (pow(t[0], n, p), (t[1][0] * n, t[1][1] * n, t[1][2] * n, t[1][3])),
    gens={0: gtv, 1: lambda rng: rng.pick(BIGN, 0, 70), 2: lambda rng: rng.choice([2, 3, 4, 5, 7, 10, 13])})


# --- C08 terms and builder
def tmul(s, t):
    return (s[0] * t[0], mmul(s[1], t[1]))


def tdiv_spec(s, t):
    if t[1][3] is not None or t[0] == 0:
        return PANIC
    k = s[1]
    l = t[1]
    return (s[0] // t[0], (k[0] - l[0], k[1] - l[1], k[2] - l[2], k[3]))


add('tmul', sel_op('Mul', 'Term', 'Term'), tmul, gens={0: gtv, 1: gtv}, floor=4)
add('tdiv', sel_op('Div', 'Term', 'Term'), tdiv_spec, gens={0: gtv, 1: gtv}, floor=4)
add('tneg', sel_op('Neg', 'Term', None), lambda t: (-t[0], t[1]), floor=2)
add('topol', sel_path('term::Term::to_pol'), lambda t: (tp(t),))
add('tfrom', sel_path('term::Term::from'), lambda m, c: (c, m))
add('tnew', sel_path('term::Term::new'), lambda: (0, ONEK), n=1)
add('tone', sel_op('One', 'Term', None, 'one'), lambda: (1, ONEK), n=1)
for i, f in enumerate(('xpow', 'ypow', 'qpow')):
    add('tget', sel_path('term::Term::' + f), (lambda i: lambda t: t[1][i])(i), n=40)
    add('builder', sel_path('term_builder::TermBuilder::' + f),
        (lambda i: lambda b, v: ANYREF((b[0], b[1][:i] + (v,) + b[1][i + 1:])))(i), mut=(0,), n=60)
add('tget', sel_path('term::Term::variable'), lambda t: t[1][3], n=40)
for i, f in enumerate('xyq'):
    add('tget', sel_path('term::Term::has_' + f), (lambda i: lambda t: t[1][i] != 0)(i), n=60)
add('tget', sel_path('term::Term::is_equal_order'), lambda s, t: s[1][:3] == t[1][:3], n=60,
    gens=lambda rng: (lambda s: (s, rng.choice([s, g_term(rng), (s[0], s[1][:2] + (rng.randint(0, 2), s[1][3])), (s[0], (s[1][0], rng.randint(0, 2)) + s[1][2:])])))(g_term(rng)))


def ANYREF(b):
    """builder setters: the returned reference and the builder both hold b"""
    fl = (b[0],) + b[1]
    return lambda got: isinstance(got, tuple) and got[0] == fl and got[1] == fl


add('builder', sel_path('term_builder::TermBuilder::new'), lambda: (1,) + ONEK, n=1)
add('builder', sel_op('TermBuildable', 'TermBuilder', ('BigInt', 'i32'), 'coef'), lambda b, c: ANYREF((c, b[1])), mut=(0,), floor=3, n=60)
add('builder', sel_path('term_builder::TermBuilder::variable'), lambda b, v: ANYREF((b[0], b[1][:3] + (v,))), mut=(0,), n=60)
add('builder', sel_path('term_builder::TermBuilder::variable_ij'),
    lambda b, i, j: PANIC if i < 0 or j < 0 else ANYREF((b[0], b[1][:3] + ((i, j),))), mut=(0,), n=120)
add('builder', sel_path('term_builder::TermBuilder::build'), lambda b: b, n=60)


# --- C09 division by a single term
def pdiv(a, b):
    a, b = topol(a), topol(b)
    if len(b) != 1:
        return PANIC
    (l, e), = b.items()
    if l[3] is not None:
        return PANIC if a else ANY
    d = {}
    for k, c in a.items():
        d[(k[0] - l[0], k[1] - l[1], k[2] - l[2], k[3])] = c // e
    return (clean(d),)


def g_divisor(rng):
    c = rng.random()
    if c < .1:
        return {}
    if c < .25:
        return g_poly(rng, n=3, var=True)
    return {g_mono(rng, var=rng.random() < .2): rng.choice([1, -1, 2, 3, -4, 5])}


def g_divterm(rng):
    return (rng.choice([0, 1, -1, 2, 3, -4, 5]), g_mono(rng, var=rng.random() < .3))


for s in P2:
    for rr in P2:
        if s == rr == 'Term':
            continue
        add('pdiv', sel_op('Div', s, rr), pdiv, gens={0: gpv[0] if s == 'Polynomial' else gtv,
                                                      1: g_divisor if rr == 'Polynomial' else g_divterm}, floor=4)
for rr in P2:
    add('pdiv', sel_op('DivAssign', 'Polynomial', rr),
        lambda a, b: (lambda v: v if v in (PANIC, ANY) else ((), v))(pdiv(a, b)),
        gens={0: gpv[0], 1: g_divisor if rr == 'Polynomial' else g_divterm}, mut=(0,), floor=2)


# --- C10 orders
def cmpv(a, b):
    return (a > b) - (a < b)


def near_mono(rng):
    a = g_mono(rng, emax=2)
    b = list(a)
    if rng.random() < .8:
        i = rng.randint(0, 3)
        if i == 3:
            u, v = near_var(rng)
            return a[:3] + (u,), a[:3] + (v,)
        b[i] = rng.randint(0, 2)
        if rng.random() < .4:
            # one exponent higher, another lower
            k = rng.pick([1, 1, 2, 3], 1, 2000)
            j = rng.choice([x for x in range(3) if x != i])
            a, b = list(a), list(a)
            a[j] += k
            b[i] += 1
            a = tuple(a)
    else:
        b = g_mono(rng, emax=2)
    return a, tuple(b)


def near_term(rng):
    a, b = near_mono(rng)
    c = g_int(rng)
    return (c, a), (c if rng.random() < .4 else g_int(rng), b)


def near_var(rng):
    v = g_var(rng)
    c = rng.random()
    if v is None or c < .4:
        return v, g_var(rng)
    if c < .6:
        return v, v
    # one index higher, the other lower by a small or mentioned amount
    k = rng.pick([1, 1, 2, 3], 1, 2000)
    return rng.choice([(v, (v[0] + k, v[1])), (v, (v[0], v[1] + k)), (v, (v[1], v[0])), ((v[0], v[1] + k), (v[0] + 1, v[1])),
                       ((v[0] + 1, v[1]), (v[0], v[1] + k)), ((v[0] + k, v[1]), (v[0], v[1] + 1))])


def skey(v):
    return (0,) if v is None else (1,) + tuple(v)


def tkey(t):
    return okey(t[1]) + (t[0],)


for ty, g, key in (('Monomial', near_mono, okey), ('Term', near_term, tkey), ('SubscriptedVariable', near_var, skey)):
    add('order', sel_op('Ord', ty, None, 'cmp'), (lambda k: lambda a, b: cmpv(k(a), k(b)))(key), gens=g, n=400)
    add('order', sel_op('PartialOrd', ty, None, 'partial_cmp'), (lambda k: lambda a, b: ('Some', cmpv(k(a), k(b))))(key), gens=g, n=400)
    add('order', sel_op('PartialEq', ty, None, 'eq'), lambda a, b: a == b, gens=g, n=400)


def lead(a):
    if not a:
        return (0, ONEK)
    k = max(a, key=okey)
    return (a[k], k)


add('lead', sel_path('polynomial::Polynomial::highest_term_x'), lead, gens={0: gvar})

# --- C11
gm = lambda rng: rng.pick([0, 1, 2, 3, 4, 5, 7, 10, 13, 100], 0, 10 ** 5)


def rem_spec(a, p):
    return PANIC if p == 0 and a else ((pmod(a, p),) if p else ANY)


add('pmod', sel_op('Rem', 'Polynomial', ('BigInt', 'i32')), rem_spec, gens={0: gvar, 1: gm}, floor=2)
add('pmod', sel_path('polynomial::Polynomial::modular_assign'),
    lambda a, p: (lambda v: v if v in (PANIC, ANY) else ((), v))(rem_spec(a, p)), gens={0: gvar, 1: gm}, mut=(0,))
add('tmod', sel_path('term::Term::modulo'), lambda t, p: PANIC if p == 0 else (t[0] % p, t[1]), gens={0: gtv, 1: gm})
add('tmod', sel_path('term::Term::modular_assign'), lambda t, p: PANIC if p == 0 else ((), (t[0] % p, t[1])), gens={0: gtv, 1: gm}, mut=(0,))

# --- C12
g9 = lambda rng: rng.randint(-6, 6)
add('eval', sel_path('polynomial::Polynomial::eval_xy'), lambda a, x, y: sum(c * x ** k[0] * y ** k[1] for k, c in a.items()),
    gens={0: gvar, 1: g9, 2: g9})


def evx(a, v):
    d = {}
    for k, c in a.items():
        m = (0,) + k[1:]
        d[m] = d.get(m, 0) + c * v ** k[0]
    return (clean(d),)


def evy(a, v):
    d = {}
    for k, c in a.items():
        m = (k[0], 0) + k[2:]
        d[m] = d.get(m, 0) + c * v ** k[1]
    return (clean(d),)


add('eval', sel_path('polynomial::Polynomial::eval_x'), evx, gens={0: gvar, 1: g9})
add('eval', sel_path('polynomial::Polynomial::eval_y'), evy, gens={0: gvar, 1: g9})
add('meval', sel_path('term::Monomial::eval_xy'), lambda m, x, y: x ** m[0] * y ** m[1], gens={0: lambda rng: g_mono(rng), 1: g9, 2: g9})
add('meval', sel_path('term::Monomial::eval_q'), lambda m, q: q ** m[2], gens={0: lambda rng: g_mono(rng), 1: g9})
gsub = lambda rng: g_poly(rng, n=rng.choice([0, 1, 2, 3]), emax=2, cmax=3)
gsm = lambda rng: g_poly(rng, n=rng.choice([0, 1, 2, 3]), emax=3, cmax=4, var=rng.random() < .3)
add('peval', sel_path('polynomial::Polynomial::eval_x_polynomial'), lambda a, b: (subst_x(a, b),), gens={0: gsm, 1: gsub}, n=120)
add('peval', sel_path('polynomial::Polynomial::eval_y_polynomial'), lambda a, b: (subst_y(a, b),), gens={0: gsm, 1: gsub}, n=120)
add('peval', sel_path('term::Term::eval_x_polynomial'), lambda t, b: (subst_x(tp(t), b),), gens={0: lambda rng: g_term(rng, emax=3), 1: gsub}, n=120)
add('peval', sel_path('term::Term::eval_y_polynomial'), lambda t, b: (subst_y(tp(t), b),), gens={0: lambda rng: g_term(rng, emax=3), 1: gsub}, n=120)
add('peval', sel_path('term::Monomial::eval_x_polynomial'), lambda m, b: (subst_x({m: 1}, b),), gens={0: lambda rng: g_mono(rng, emax=3), 1: gsub}, n=120)
add('peval', sel_path('term::Monomial::eval_y_polynomial'), lambda m, b: (subst_y({m: 1}, b),), gens={0: lambda rng: g_mono(rng, emax=3), 1: gsub}, n=120)


# --- C13
def der(i):
    def f(a):
        if any(k[i] < 0 for k in a):
            return PANIC
        return (clean({k[:i] + (k[i] - 1,) + k[i + 1:]: c * k[i] for k, c in a.items()}),)
    return f


def tder(i):
    def f(t):
        c, k = t
        if k[i] < 0:
            return PANIC
        if k[i] == 0:
            return (0, ONEK)
        return (c * k[i], k[:i] + (k[i] - 1,) + k[i + 1:])
    return f


gneg = lambda rng: g_poly(rng, var=rng.random() < .4, emin=-1 if rng.random() < .25 else 0)
for i, v in enumerate('xy'):
    add('deriv', sel_path('polynomial::Polynomial::derivative_' + v), der(i), gens={0: gneg})
    add('tderiv', sel_path('term::Term::derivative_' + v), tder(i), gens={0: lambda rng: g_term(rng, emin=-1)})


# --- C14
def tmap(fx):
    return lambda t, n: (t[0], fx(t[1], n))


def pmap(fx):
    def f(a, n):
        d = {}
        for k, c in a.items():
            m = fx(k, n)
            d[m] = d.get(m, 0) + c
        return (clean(d),)
    return f


EM = {'to_frob': lambda k, n: (k[0] * n, k[1] * n, k[2], k[3]), 'to_y_power': lambda k, n: (k[0], k[1] * n) + k[2:],
      'to_q_power': lambda k, n: k[:2] + (k[2] * n, k[3])}
for nm, fx in EM.items():
    add('emap', sel_path('polynomial::Polynomial::' + nm), pmap(fx), gens={0: gvar, 1: lambda rng: rng.randint(-1, 6)})
    add('temap', sel_path('term::Term::' + nm), tmap(fx), gens={0: gtv, 1: lambda rng: rng.randint(-1, 6)})


# --- C15
def gq(rng):
    if rng.random() < .15:
        return g_poly(rng, var=True)
    return g_poly(rng, n=rng.choice([0, 1, 2, 4, 6]), x=False, y=False, var=rng.random() < .6, emin=-3 if rng.random() < .5 else 0)


def hasxy(a):
    return any(k[0] or k[1] for k in a)


add('trunc', sel_path('polynomial::Polynomial::omit_high_order_q'),
    lambda a, n: PANIC if hasxy(a) else ((), ({k: c for k, c in a.items() if k[2] <= n},)),
    gens={0: gq, 1: lambda rng: rng.randint(-3, 5)}, mut=(0,))
add('extract', sel_path('polynomial::Polynomial::to_q_power_coef'),
    lambda a, n: PANIC if hasxy(a) else ({(0, 0, 0, k[3]): c for k, c in a.items() if k[2] == n},),
    gens={0: gq, 1: lambda rng: rng.randint(-3, 5)})


def gvc(rng):
    if rng.random() < .15:
        return g_poly(rng, var=True)
    d = {}
    for _ in range(rng.choice([0, 1, 2, 4])):
        d[(0, 0, 0, g_var(rng))] = rng.choice([1, -1, 5, 7])
    return d


add('extract', sel_path('polynomial::Polynomial::to_variable_coef'),
    lambda a, v: PANIC if any(k[0] or k[1] or k[2] for k in a) else a.get((0, 0, 0, v), 0), gens={0: gvc, 1: g_var})


def degx_spec(a):
    if any(k[1] or k[2] for k in a):
        return PANIC
    return max((k[0] for k in a), default=0)


gx = lambda rng: g_poly(rng, y=rng.random() < .2, q=rng.random() < .2)
add('degree', sel_path('polynomial::Polynomial::degree_x'), degx_spec, gens={0: gx})
gany = lambda rng: g_poly(rng, n=rng.choice([0, 1, 1, 2, 3]), x=rng.random() < .5, y=rng.random() < .5, q=rng.random() < .5, var=rng.random() < .3)
for i, v in enumerate('xyq'):
    add('has', sel_path('polynomial::Polynomial::has_' + v), (lambda i: lambda a: any(k[i] for k in a))(i), gens={0: gany})


def toscalar(a):
    if not a:
        return 0
    if len(a) > 1:
        return PANIC
    (k, c), = a.items()
    if k[:3] != (0, 0, 0):
        return PANIC
    return ANY if k[3] is not None else c


add('extract', sel_path('polynomial::Polynomial::to_scalar'), toscalar, gens={0: lambda rng: rng.choice([{}, {ONEK: g_int(rng) or 1}, g_poly(rng), {g_mono(rng): 3}])})
add('pzero', sel_path('polynomial::Polynomial::new'), lambda: ({},), n=1)
add('pzero', sel_op('Zero', 'Polynomial', None, 'zero'), lambda: ({},), n=1)
add('pzero', sel_op('Zero', 'Polynomial', None, 'is_zero'), lambda a: not a, n=60)
add('pzero', sel_op('One', 'Polynomial', None, 'one'), lambda: (PONE,), n=1)
add('pzero', sel_op('PartialEq', 'Polynomial', None, 'eq'), lambda a, b: a == b, n=60,
    gens=lambda rng: (lambda a: (a, rng.choice([a, g_poly(rng), padd(a, {(1, 0, 0, None): 1})])))(g_poly(rng)))


# --- C16
def ge2(i):
    from facts import lt0
    return lambda I, st, args: st.assume(ge0(st.norm(I.read(st, args[i].cell, args[i].path) if isinstance(args[i], Ref) else args[i]) - 2))


def gred(rng):
    d = {}
    for _ in range(rng.choice([0, 1, 2, 3])):
        d[(rng.randint(0, 3), rng.choice([0, 1, 2, 3, 4, 5, 6, 7]), rng.choice([0, 0, 1]), g_var(rng) if rng.random() < .3 else None)] = rng.choice([1, -1, 3, -8])
    return d


add('reduction', sel_path('polynomial::Polynomial::reduction'), lambda f, a, b: (red(f, a, b),), gens={0: gred, 1: g9, 2: g9}, n=150)
add('reductionm', sel_path('polynomial::Polynomial::reduction_modular'), lambda f, a, b, p: (pmod(red(f, a, b), p),), assume=ge2(3),
    gens={0: gred, 1: g9, 2: g9, 3: lambda rng: rng.prime([2, 3, 5, 7, 11, 13])}, n=150)
