"""Specifications: elliptic curves over prime fields."""
from spec import *
import roles
from roles import ec_plus_spec, ec_mul_spec, DLOG, MARK
from facts import ge0, eq0, lt0
import sym

SPECS = []
PROPS = {}


def add(*a, **k):
    SPECS.append(Spec(*a, **k))


Z = 'elliptic_curve::EllipticCurve::'
PT = 'elliptic_curve::ECPoint::'
PP = [3, 5, 7, 11, 13, 17, 19, 23]


def nonsing(a, b, p):
    return (4 * a ** 3 + 27 * b * b) % p != 0


def g_curve(rng, small=False, lift=True):
    while True:
        p = rng.prime(PP[:6] if small else PP)
        a, b = rng.randint(0, p - 1), rng.randint(0, p - 1)
        if rng.random() < .15:
            a, b = rng.choice([(0, b), (a, 0)])
        if nonsing(a, b, p):
            break
    if lift and rng.random() < .3:
        a, b = a + p * rng.randint(-1, 1), b + p * rng.randint(-1, 1)
    return (a, b, p)


def g_curve2(rng):
    """also the binary field, where only the enumeration is defined"""
    return (rng.randint(0, 1), rng.randint(0, 1), 2) if rng.random() < .12 else g_curve(rng)


def pts(E):
    return [(x, y, 1) for x, y in ec_points(E)]


def g_point(rng, E, off=.1, lift=.3, inf=.12):
    p = E[2]
    if rng.random() < inf:
        return rng.choice([(0, 1, 0), (0, 1, 0), (3, 4, 0)])
    ps = pts(E)
    if not ps or rng.random() < off:
        return (rng.randint(0, p), rng.randint(0, p), 1)
    x, y, z = rng.choice(ps)
    if rng.random() < .06:
        z = rng.choice([-1, 2, 3, rng.randint(2, 30)])     # anything but 0 stands for an affine point
    if rng.random() < lift:
        x, y = x + p * rng.randint(-1, 2), y + p * rng.randint(-1, 2)
    return (x, y, z)


def listed(rng, E):
    """the point list of a curve: not enumerated yet, or enumerated"""
    return E + ([] if rng.random() < .75 else pts(E) + [(0, 1, 0)],)


def gen_EP(rng):
    E = g_curve(rng)
    return [listed(rng, E), g_point(rng, E)]


def gen_EPP(rng):
    E = g_curve(rng)
    P1 = g_point(rng, E)
    c = rng.random()
    if c < .25:
        P2 = P1
    elif c < .5:
        P2 = (P1[0], -P1[1] if P1[2] else P1[1], P1[2])
    else:
        P2 = g_point(rng, E)
    return [listed(rng, E), P1, P2]


def prime2(I, st, args):
    E = I.read(st, args[0].cell, args[0].path)
    st.assume(ge0(st.norm(E.f[2]) - 3))


# --- C19
add('plus', sel_path(Z + 'plus'), lambda E, P1, P2: ec_plus_spec(E[0], E[1], E[2], P1, P2), gens=gen_EPP, assume=prime2, off=('plus',), n=400,
    title='addition law')
PROPS['C19'] = ['plus']


# --- C21
def canon(E, P1):
    return tuple(c % E[2] for c in P1)


def neg_spec(E, P1):
    return tuple(P1) if P1[2] == 0 else (P1[0], -P1[1] % E[2], P1[2])


add('oncurve', sel_path(Z + 'is_on_curve'), lambda E, P1: on_curve(E[:3], P1), gens=gen_EP, assume=prime2, off=('oncurve',), n=300)
add('negate', sel_path(Z + 'negate'), neg_spec, gens=gen_EP, assume=prime2)
add('canon', sel_path(Z + 'canonicalize'), canon, gens=gen_EP, assume=prime2)
add('infinity', sel_path(PT + 'infinity'), lambda: (0, 1, 0), n=1)
add('infinity', sel_path(PT + 'is_infinity'), lambda P1: P1[2] == 0, gens=lambda rng: [g_point(rng, g_curve(rng))], n=60)
add('ptnew', sel_path(PT + 'new'), lambda x, y, z: (x, y, z), n=30)
add('pteq', sel_path('<elliptic_curve::ECPoint as std::cmp::PartialEq>::eq'), lambda a, b: a == b, n=100,
    gens=lambda rng: (lambda E: (lambda a: [a, rng.choice([a, g_point(rng, E), (a[0], a[1], 0), (a[0], a[1] + 1, a[2])])])(g_point(rng, E)))(g_curve(rng)))
PROPS['C21'] = ['oncurve', 'negate', 'canon', 'infinity', 'ptnew', 'pteq']


# --- C20: in the domain of multiples of one point
def dl_point(I, st, ty, n):
    v = roles.dlv(nf.ONE)
    return I.ref_to(st, v) if ty.get('k') == 'ref' else v


def dl_mul(rng):
    m = rng.choice([1, 2, 3, 4, 5, 6, 7, 12, 13, 30, 101])
    n = rng.pick([0, 1, -1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, rng.randint(-300, 300)], -2000, 2000)
    if rng.random() < .1:
        n = rng.choice([1, -1]) * (2 ** rng.choice([31, 32, 63, 64, 127, 128, 256]) + rng.randint(-6, 6))
    return m, n


class DL(Spec):
    pass


def dl_args(rng, m):
    E, G = roles.dl_curve(m, rng)
    return [listed(rng, E), ('dl', m, (E, G))]


def mulgen(rng):
    m, n = dl_mul(rng)
    return dl_args(rng, m) + [n]


def mul_spec(E, P1, n):
    def ok(got):
        if got is PANIC:
            return False
        if len(got) == 4:
            return (got[3] - n) % P1[1] == 0
        r = ec_mul(P1[2][0], n % P1[1], P1[2][1]) if n % P1[1] else None
        return got == ((0, 1, 0) if r is None else r + (1,))
    return ok


add('mul', sel_path(Z + 'multiply_scalar'), mul_spec,
    gens=mulgen, args={1: dl_point}, roles=DLOG, n=300, title='scalar multiples')
PROPS['C20'] = ['mul']


# --- C22
def enum_spec(E):
    """every rational point exactly once, and one point at infinity"""
    want = sorted(pts(E[:3])) + [(0, 1, 0)]

    def ok(got):
        if got is PANIC:
            return False
        L = got[1][4]
        return sorted(L) == sorted(want) and got[1][:3] == E[:3]
    return ok


add('enum', sel_path(Z + 'create_points'), enum_spec, gens=lambda rng: [g_curve2(rng) + (rng.choice([[], [(0, 1, 0)]]),)], mut=(0,), n=60)
add('enum', sel_path(Z + 'points'), lambda E: list(E[3]), gens=lambda rng: (lambda E: [E + (pts(E) + [(0, 1, 0)],)])(g_curve(rng)), n=40)
add('enum', sel_path(Z + 'cardinality'), lambda E: len(E[3]), gens=lambda rng: (lambda E: [E + (pts(E) + [(0, 1, 0)],)])(g_curve(rng)), n=40)
PROPS['C22'] = ['enum']


# --- C23
add('order1', sel_path(Z + 'point_order'), lambda E, P1: P1[1], gens=lambda rng: dl_args(rng, rng.choice([1, 2, 2, 3, 4, 5, 7, 10, 12, 30])),
    args={1: dl_point}, roles=DLOG, n=60, title='order of a point')


def div_spec(E, n):
    return [P1 for P1 in E[3] if ec_mul_spec(E[0], E[1], E[2], P1, n) == (0, 1, 0)]


add('divpts', sel_path(Z + 'division_points'), lambda E, n: (div_spec(E, n),), assume=prime2,
    gens=lambda rng: (lambda E: [E + (pts(E) + [(0, 1, 0)],), rng.choice([1, 2, 3, 4, 5, 6, 0, -2])])(g_curve(rng, True)), n=60)
PROPS['C23'] = ['order1', 'divpts']

# --- C24, C25
def cv(E, n):
    """constructed curve: fields, and the right-hand side"""
    return E


def is_prime(n):
    return n >= 2 and all(n % d for d in range(2, int(n ** .5) + 1))


def rhs(a, b):
    return clean({(3, 0, 0, None): 1, (1, 0, 0, None): a, ONEK: b})


def new_spec(a, b, p):
    if not is_prime(p):
        return PANIC
    want = sorted(pts((a, b, p))) + [(0, 1, 0)]
    return lambda got: got is not PANIC and got[:3] == (a, b, p) and got[3] == (rhs(a, b),) and sorted(got[4]) == sorted(want)


def gen_new(rng):
    E = g_curve2(rng)
    return [E[0], E[1], E[2] if rng.random() < .7 else rng.choice([0, 1, 4, 9, 15, 21, 25, -3])]


add('curvenew', sel_path(Z + 'new'), new_spec, gens=gen_new, n=40)
add('curvenew', sel_path(Z + 'new_raw'), lambda a, b, p: (a, b, p, (rhs(a, b),), []), gens=gen_new, n=40)
add('jinv', sel_path(Z + 'j_invariant'), lambda E: j_inv(E), gens=lambda rng: [g_curve(rng) + ([],)], assume=prime2, n=100)
SECP = 2 ** 256 - 2 ** 32 - 977
SECP_G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
          0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8, 1)
add('secp', sel_path('secp256k1::Secp256k1::new'), lambda: ((0, 7, SECP, (rhs(0, 7),), []), SECP_G), gens=lambda rng: [], n=1)
PROPS['C25'] = ['curvenew', 'jinv', 'secp']


def velu(E, n):
    a, b, p = E[:3]
    v = w = 0
    for P1 in div_spec(E, n):
        if P1[2]:
            x, y, z = P1
            vp = 3 * x * x + a
            v += vp
            w += 2 * y * y + x * vp
    return (a - 5 * v) % p, (b - 7 * w) % p, p


def iso_spec(E, n):
    F = velu(E, n)
    want = sorted(pts(F)) + [(0, 1, 0)]
    return lambda got: got is not PANIC and got[:3] == F and got[3] == (rhs(F[0], F[1]),) and sorted(got[4]) == sorted(want)


add('isogeny', sel_path(Z + 'isogeny'), iso_spec, assume=prime2,
    gens=lambda rng: (lambda E: [E + (pts(E) + [(0, 1, 0)],), rng.choice([1, 2, 3, 4, 5, 6])])(g_curve(rng, True)), n=15)
PROPS['C24'] = ['isogeny']
