"""Reference semantics on concrete values (the specified functions).

polynomial: {(x, y, q, var): coef}, var None | (i, j); term: (coef, (x,y,q,var))"""
from fractions import Fraction
from math import gcd


class _C:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


PANIC = _C('PANIC')
ANY = _C('ANY')
OUTSIDE = _C('OUTSIDE')


class PanicV(Exception):
    pass


def clean(d):
    return {k: c for k, c in d.items() if c != 0}


def padd(a, b, s=1):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) + s * c
    return clean(d)


def mmul(k, l):
    if k[3] is not None and l[3] is not None:
        raise PanicV
    return (k[0] + l[0], k[1] + l[1], k[2] + l[2], k[3] if k[3] is not None else l[3])


def pmul(a, b):
    d = {}
    for k, c in a.items():
        for l, e in b.items():
            m = mmul(k, l)
            d[m] = d.get(m, 0) + c * e
    return clean(d)


def pscale(a, s):
    return clean({k: c * s for k, c in a.items()})


def pmod(a, p):
    return clean({k: c % p for k, c in a.items()})


ONEK = (0, 0, 0, None)
PONE = {ONEK: 1}


def ppow(a, n):
    r = PONE
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def ppowmod(a, n, p):
    r = pmod(PONE, p)
    a = pmod(a, p)
    while n:
        if n & 1:
            r = pmod(pmul(r, a), p)
        n >>= 1
        if n:
            a = pmod(pmul(a, a), p)
    return r


def tp(t):
    """term -> polynomial"""
    return {t[1]: t[0]} if t[0] else {}


def mono(k, c=1):
    return {k: c} if c else {}


def xpoly(cs):
    """ascending coefficients in x"""
    return clean({(i, 0, 0, None): c for i, c in enumerate(cs)})


def degx(a):
    return max((k[0] for k in a), default=-1)


def okey(k):
    return (k[0], k[1], k[2], (0,) if k[3] is None else (1,) + tuple(k[3]))


def _powers(b, n):
    r = [PONE]
    while len(r) <= n:
        r.append(pmul(r[-1], b))
    return r


def subst_x(a, b):
    if any(k[0] < 0 for k in a):
        return ANY
    pw = _powers(b, max((k[0] for k in a), default=0))
    return clean_add([t for (x, y, q, v), c in a.items() for t in pmul(pw[x], {(0, y, q, v): c}).items()])


def subst_y(a, b):
    if any(k[1] < 0 for k in a):
        return ANY
    pw = _powers(b, max((k[1] for k in a), default=0))
    return clean_add([t for (x, y, q, v), c in a.items() for t in pmul(pw[y], {(x, 0, q, v): c}).items()])


def red(f, a, b):
    r = {}
    e = clean({(3, 0, 0, None): 1, (1, 0, 0, None): a, ONEK: b})
    for (x, y, q, v), c in f.items():
        h = max(y, 0) // 2
        r = padd(r, pmul({(x, y - 2 * h, q, v): c}, ppow(e, h)))
    return r


def redm(f, a, b, p):
    """reduction modulo p"""
    pw = {0: PONE}

    def epow(h):
        if h not in pw:
            s = epow(h // 2)
            s = pmod(pmul(s, s), p)
            pw[h] = pmod(pmul(s, e), p) if h % 2 else s
        return pw[h]
    e = pmod({(3, 0, 0, None): 1, (1, 0, 0, None): a, ONEK: b}, p)
    by = {}
    for (x, y, q, v), c in f.items():
        by.setdefault(max(y, 0) // 2, {})[(x, y - 2 * (max(y, 0) // 2), q, v)] = c
    r = {}
    for h, g in by.items():
        r = padd(r, pmod(pmul(pmod(g, p), epow(h)), p))
    return pmod(r, p)


def show_sv(v):
    return '' if v is None else 'c_%d_%d' % v


def show_term(t):
    c, (x, y, q, v) = t
    parts = []
    for n, e in (('x', x), ('y', y), ('q', q)):
        if e == 1:
            parts.append(n)
        elif e:
            parts.append('%s^%d' % (n, e))
    if v is not None:
        parts.append(show_sv(v))
    if abs(c) != 1 or not parts:
        parts.insert(0, str(abs(c)))
    return ('- ' if c < 0 else '') + ' '.join(parts)


def show_poly(a):
    if not a:
        return '0'
    out = ''
    for k in sorted(a, key=okey, reverse=True):
        s = show_term((a[k], k))
        if out:
            out += ' ' + (s if a[k] < 0 else '+ ' + s)
        else:
            out = s
    return out


def show_point(P):
    return 'O' if P[2] == 0 else '(%d, %d)' % P[:2]


# --- elliptic curves ---------------------------------------------------------------
O = (0, 1, 0)


def on_curve(E, P):
    a, b, p = E
    x, y, z = P
    return z == 0 or (y * y - (x * x * x + a * x + b)) % p == 0


def ec_add(E, P, Q):
    """on canonical affine tuples or None for infinity"""
    a, b, p = E
    if P is None:
        return Q
    if Q is None:
        return P
    if (P[0] - Q[0]) % p == 0:
        if (P[1] + Q[1]) % p == 0:
            return None
        s = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p)
    else:
        s = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
    x = (s * s - P[0] - Q[0]) % p
    return (x, (s * (P[0] - x) - P[1]) % p)


def ec_mul(E, n, P):
    a, b, p = E
    if n < 0:
        n, P = -n, (None if P is None else (P[0], -P[1] % p))
    R = None
    while n:
        if n & 1:
            R = ec_add(E, R, P)
        P = ec_add(E, P, P)
        n >>= 1
    return R


def ec_points(E):
    a, b, p = E
    return [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31]


def rand_prime(rng, lo=2, hi=40):
    while True:
        n = rng.randint(lo, hi)
        if all(n % d for d in range(2, n)) and n >= 2:
            return n


def j_inv(E):
    a, b, p = E[:3]
    n = 4 * a ** 3
    return 1728 * n * pow(n + 27 * b * b, -1, p) % p


# --- q-series ------------------------------------------------------------------------
from functools import lru_cache


def ptrunc(a, n):
    return {k: c for k, c in a.items() if k[2] <= n}


def titer(init, a, k, n):
    """k times: multiply by a and truncate after q^n"""
    r = init
    for _ in range(k):
        r = ptrunc(pmul(r, a), n)
    return r


def qk(e, c=1):
    return {(0, 0, e, None): c}


def sigma(n, k):
    if n < 0 or k < 0:
        return 0
    return sum(d ** k for d in range(1, n + 1) if n % d == 0)


@lru_cache(None)
def e4(N):
    r = dict(PONE)
    for n in range(1, N + 1):
        r = padd(r, qk(n, 240 * sigma(n, 3)))
    return r


@lru_cache(None)
def delta1(N):
    r = PONE
    for n in range(1, N + 1):
        r = titer(r, padd(PONE, qk(n), -1), 24, N)
    return r


@lru_cache(None)
def delta1_inverse(N):
    a = padd(PONE, delta1(N), -1)
    r, t = PONE, PONE
    for n in range(1, N + 1):
        t = ptrunc(pmul(t, a), N)
        r = padd(r, t)
    return r


@lru_cache(None)
def jq(N):
    """q j truncated after q^N"""
    e = ptrunc(ppow(e4(N), 3), N)
    return ptrunc(pmul(delta1_inverse(N), e), N)


@lru_cache(None)
def jser(N):
    """the j series exact up to q^N and cut there"""
    return pmul(jq(N + 1), qk(-1))


def qmap(a, n):
    return clean_add([((k[0], k[1], k[2] * n, k[3]), c) for k, c in a.items()])


def clean_add(it):
    d = {}
    for k, c in it:
        d[k] = d.get(k, 0) + c
    return clean(d)


def qcoef(a, n):
    return {(0, 0, 0, k[3]): c for k, c in a.items() if k[2] == n}


@lru_cache(None)
def ansatz(p):
    r = {(p + 1, 0, 0, None): 1, (0, p + 1, 0, None): 1}
    for i in range(p + 1):
        for j in range(i, p + 1):
            r[(i, j, 0, (i, j))] = 1
            r[(j, i, 0, (i, j))] = 1
    return r


@lru_cache(None)
def modeq(p):
    """q-expansion of the modular equation, cut after q^0"""
    j = jser(p * p + p)
    jp = qmap(j, p)
    px, py = [PONE], [PONE]
    for _ in range(p + 1):
        px.append(pmul(px[-1], j))
        py.append(pmul(py[-1], jp))
    r = {}
    for (x, y, q, v), c in ansatz(p).items():
        r = padd(r, ptrunc(pmul(pmul(px[x], py[y]), {(0, 0, q, v): c}), 0))
    return r


# --- extended gcd: any value its contract allows --------------------------------------
def _egcd(a, b):
    """g >= 0, x, y"""
    r0, r1, x0, x1, y0, y1 = a, b, 1, 0, 0, 1
    while r1:
        q = r0 // r1
        r0, r1, x0, x1, y0, y1 = r1, r0 - q * r1, x1, x0 - q * x1, y1, y0 - q * y1
    return (r0, x0, y0) if r0 >= 0 else (-r0, -x0, -y0)


def xgcd(a, b):
    import zlib
    h = zlib.crc32(repr((a, b)).encode())
    g, x, y = _egcd(a, b)
    if a == 0:
        return (b, h % 5 - 2, 1)
    if (a < 0 or b < 0) and h & 1:
        g, x, y = -g, -x, -y
    if g:
        k = (h >> 1) % 4 - 1
        x, y = x + k * (b // g), y - k * (a // g)
    return g, x, y


def xgcd_ok(a, b):
    def ok(got):
        if got is PANIC or len(got) != 3:
            return False
        g, x, y = got
        if a * x + b * y != g:
            return False
        if a == 0 and g != b:
            return False
        if a >= 0 and b >= 0 and g < 0:
            return False
        if g == 0:
            return a == 0 and b == 0
        return a % g == 0 and b % g == 0
    return ok


# --- division polynomials ---------------------------------------------------------------
def tdivc(f, c, x, y, q):
    """every term divided by the term c x^x y^y q^q, zero quotients dropped"""
    if c == 0:
        return PANIC
    return clean({(k[0] - x, k[1] - y, k[2] - q, k[3]): v // c for k, v in f.items()})


def red0(f, a, b):
    if any(k[1] < 0 for k in f):
        return ANY
    return red(f, a, b)


@lru_cache(None)
def psi(a, b, n):
    X = lambda e, c: {(e, 0, 0, None): c}
    Yk = lambda c: {(0, 1, 0, None): c}

    def s(*ts):
        r = {}
        for t in ts:
            r = padd(r, clean(t))
        return r
    if n < 0:
        return PANIC
    if n == 0:
        return {}
    if n == 1:
        return PONE
    if n == 2:
        return Yk(2)
    if n == 3:
        return s(X(4, 3), X(2, 6 * a), X(1, 12 * b), X(0, -a * a))
    if n == 4:
        return pmul(Yk(4), s(X(6, 1), X(4, 5 * a), X(3, 20 * b), X(2, -5 * a * a), X(1, -4 * a * b), X(0, -8 * b * b - a ** 3)))
    m = n // 2
    f = lambda k: psi(a, b, k)
    if n % 2:
        return red(padd(pmul(f(m + 2), ppow(f(m), 3)), pmul(f(m - 1), ppow(f(m + 1), 3)), -1), a, b)
    v = pmul(f(m), padd(pmul(f(m + 2), ppow(f(m - 1), 2)), pmul(f(m - 2), ppow(f(m + 1), 2)), -1))
    assert all(c % 2 == 0 and k[1] >= 1 for k, c in v.items())
    return red(tdivc(v, 2, 0, 1, 0), a, b)


@lru_cache(None)
def phi(a, b, n):
    if n < 1:
        return PANIC
    f = lambda k: psi(a, b, k)
    return red(padd(pmul({(1, 0, 0, None): 1}, ppow(f(n), 2)), pmul(f(n + 1), f(n - 1)), -1), a, b)


@lru_cache(None)
def omega(a, b, n):
    if n < 1:
        return PANIC
    if n == 1:
        return {(0, 1, 0, None): 1}
    f = lambda k: psi(a, b, k)
    v = padd(pmul(f(n + 2), ppow(f(n - 1), 2)), pmul(f(n - 2), ppow(f(n + 1), 2)), -1)
    assert all(c % 4 == 0 and k[1] >= 1 for k, c in v.items())
    return red(tdivc(v, 4, 0, 1, 0), a, b)


# ---- polynomials over F_p -----------------------------------------------------------------------
def lead(f):
    return max(f, key=okey)


def prem(f, g, p):
    """remainder of f modulo p and g, g a polynomial in x whose leading coefficient is a unit modulo p"""
    g = pmod(g, p)
    d = lead(g)[0]
    inv = pow(g[lead(g)], -1, p)
    gs = [(k[0], c) for k, c in g.items()]
    lines = {}
    for (x, y, q, v), c in f.items():
        lines.setdefault((y, q, v), {})[x] = c % p
    r = {}
    for l, cs in lines.items():
        for x in range(max(cs), d - 1, -1):
            c = cs.pop(x, 0)
            if c:
                c = c * inv % p
                for e, u in gs:
                    if e != d:
                        z = x - d + e
                        cs[z] = (cs.get(z, 0) - c * u) % p
        for x, c in cs.items():
            if c:
                r[(x,) + l] = c
    return r


def pmonic(f, p):
    f = pmod(f, p)
    if not f:
        return f
    return pmod(pscale(f, pow(f[lead(f)], -1, p)), p)


def pgcd(f, g, p):
    """the monic gcd of polynomials in x over F_p"""
    f, g = pmod(f, p), pmod(g, p)
    while g:
        f, g = g, prem(f, g, p)
    return pmonic(f, p)


def crt(ls):
    L, R = 1, 0
    for l, r in ls:
        R += L * ((r - R) * pow(L, -1, l) % l) if l > 1 else 0
        L *= l
    return L, R % L


@lru_cache(None)
def modpoly(p):
    """the classical modular polynomial: the ansatz with the solution of the linear system put in"""
    from fractions import Fraction
    vs = sorted({(i, j) for i in range(p + 1) for j in range(i, p + 1)})
    rows = []
    for n in range(-p * p - p, 1):
        c = qcoef(modeq(p), n)
        rows.append([Fraction(c.get((0, 0, 0, v), 0)) for v in vs] + [Fraction(-c.get(ONEK, 0))])
    k = 0
    for i in range(len(vs)):
        r = next(r for r in range(i, len(rows)) if rows[r][i])
        rows[i], rows[r] = rows[r], rows[i]
        d = rows[i][i]
        rows[i] = [x / d for x in rows[i]]
        for r in range(len(rows)):
            if r != i and rows[r][i]:
                f = rows[r][i]
                rows[r] = [x - f * y for x, y in zip(rows[r], rows[i])]
    sol = {v: rows[i][-1] for i, v in enumerate(vs)}
    out = {}
    for (x, y, q, v), c in ansatz(p).items():
        k = (x, y, 0, None)
        out[k] = out.get(k, 0) + (c if v is None else c * int(sol[v]))
    return clean(out)


# --- linear systems
def rank(A):
    A = [[Fraction(c) for c in r] for r in A]
    k = 0
    for j in range(len(A[0])):
        i = next((i for i in range(k, len(A)) if A[i][j]), None)
        if i is None:
            continue
        A[k], A[i] = A[i], A[k]
        for i in range(k + 1, len(A)):
            f = A[i][j] / A[k][j]
            A[i] = [a - f * b for a, b in zip(A[i], A[k])]
        k += 1
    return k


def solution(M):
    n = len(M[0]) - 1
    A = [[Fraction(c) for c in r] for r in M]
    for j in range(n):
        i = next(i for i in range(j, len(A)) if A[i][j])
        A[j], A[i] = A[i], A[j]
        A[j] = [c / A[j][j] for c in A[j]]
        for i in range(len(A)):
            if i != j:
                f = A[i][j]
                A[i] = [a - f * b for a, b in zip(A[i], A[j])]
    return [A[j][-1] for j in range(n)]
