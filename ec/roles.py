"""Contracts: when a caller of a specified operation is analysed, the operation is
replaced by its specified value.  Every contract is itself checked (specs), and a
check re-verifies the contracts its analysis relied on."""
import random
from values import *
import nf
from nf import *
import ring
import facts as fx
from interp import Out
import arr
from spec import parse_path
from refs import *
import evalnf as ev


def dr(I, st, v):
    while isinstance(v, Ref):
        v = I.read(st, v.cell, v.path)
    return v


def as_pol(I, st, v):
    """ring element of a Polynomial or Term argument, None when unsuitable"""
    v = dr(I, st, v)
    if isinstance(v, Rec) and v.ty == POLY:
        m = I.clean(st, v.f[0])
        if not isinstance(m, MapV) or m.zf is not True or m.dirty or m.pend or m.rem:
            return None
        return st.norm(m.r)
    if isinstance(v, Rec) and v.ty == TERM:
        c = v.f[0]
        if not isinstance(c, P):
            return None
        return st.norm(c * I.mono(st, I.key_of(v.f[1])))
    return None


def pol(r):
    return Rec(POLY, (MapV(r),))


def num(I, st, v):
    v = dr(I, st, v)
    return st.norm(v) if isinstance(v, P) else None


def ret(v, st):
    return [Out('ret', v, st)]


def has_unknown(r):
    for a in r.atoms(deep=False):
        h = nf.atom_key(a)[0]
        if h in ('V', 'Vs'):
            return True
    return False


BIN = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b}


def is_term(I, st, v):
    v = dr(I, st, v)
    return isinstance(v, Rec) and v.ty == TERM


def mk_bin(op):
    def role(I, st, args):
        a, b = as_pol(I, st, args[0]), as_pol(I, st, args[1])
        if a is None or b is None:
            return None
        if op == 'Mul' and is_term(I, st, args[0]) and is_term(I, st, args[1]):
            return None
        if op == 'Mul' and has_unknown(a) and has_unknown(b):
            return None
        return ret(pol(BIN[op](a, b)), st)
    return role


def mk_assign(op):
    def role(I, st, args):
        a, b = as_pol(I, st, args[0]), as_pol(I, st, args[1])
        if a is None or b is None or not isinstance(args[0], Ref):
            return None
        if op == 'Mul' and has_unknown(a) and has_unknown(b):
            return None
        r = args[0]
        while isinstance(I.read(st, r.cell, r.path), Ref):
            r = I.read(st, r.cell, r.path)
        I.write(st, r.cell, r.path, pol(BIN[op](a, b)))
        return ret(UNIT, st)
    return role


def role_neg(I, st, args):
    if is_term(I, st, args[0]):
        return None
    a = as_pol(I, st, args[0])
    return None if a is None else ret(pol(-a), st)


def role_rem(I, st, args):
    a, p = as_pol(I, st, args[0]), num(I, st, args[1])
    if a is None or p is None:
        return None
    z = eq0(p)
    if st.dec(z):
        return [Out('panic', None, st)]
    if st.know(lt0(p)) is not False:
        if st.dec(lt0(p)):
            return None
    return ret(pol(ring.mk_mod(a, p)), st)


def role_modassign(I, st, args):
    a, p = as_pol(I, st, args[0]), num(I, st, args[1])
    if a is None or p is None or not isinstance(args[0], Ref):
        return None
    if st.dec(eq0(p)):
        return [Out('panic', None, st)]
    if st.know(lt0(p)) is not False:
        if st.dec(lt0(p)):
            return None
    r = args[0]
    while isinstance(I.read(st, r.cell, r.path), Ref):
        r = I.read(st, r.cell, r.path)
    I.write(st, r.cell, r.path, pol(ring.mk_mod(a, p)))
    return ret(UNIT, st)


def role_ppower(I, st, args):
    a, n = as_pol(I, st, args[0]), num(I, st, args[1])
    if a is None or n is None or is_term(I, st, args[0]):
        return None
    if st.dec(lt0(n)):
        return [Out('panic', None, st)]
    if has_unknown(a):
        return None
    return ret(pol(power(a, n)), st)


def role_npower(I, st, args):
    a, n = num(I, st, args[0]), num(I, st, args[1])
    if a is None or n is None:
        return None
    if st.know(lt0(n)) is not False:
        if st.dec(lt0(n)):
            return None
    return ret(power(a, n), st)


def role_npowmod(I, st, args):
    a, n, p = (num(I, st, x) for x in args)
    if a is None or n is None or p is None:
        return None
    if st.know(lt0(n)) is not False and st.dec(lt0(n)):
        return None
    if st.know(lt0(p - 2)) is not False and st.dec(lt0(p - 2)):
        return None
    return ret(ring.mk_mod(power(a, n), p), st)


def role_ppowmod(I, st, args):
    a, n, p = as_pol(I, st, args[0]), num(I, st, args[1]), num(I, st, args[2])
    if a is None or n is None or p is None or has_unknown(a):
        return None
    if st.dec(lt0(n)):
        return [Out('panic', None, st)]
    if st.know(lt0(p - 2)) is not False and st.dec(lt0(p - 2)):
        return None
    return ret(pol(ring.mk_mod(power(a, n), p)), st)


def role_inverse(I, st, args):
    a, p = num(I, st, args[0]), num(I, st, args[1])
    if a is None or p is None:
        return None
    if st.know(lt0(p - 2)) is not False and st.dec(lt0(p - 2)):
        return [Out('panic', None, st)]
    # contract for prime p >= 3; 0 for a multiple of p
    if st.know(fx.mk_dvd(p, a)) is not False and st.dec(fx.mk_dvd(p, a)):
        return ret(ZERO, st)
    return ret(ring.mk_mod(ring.mk_inv(a, p), p), st)


def mk_fix(n):
    def role(I, st, args):
        a = as_pol(I, st, args[0])
        if a is None or has_unknown(a):
            return None
        return ret(pol(power(a, n)), st)
    return role


def single_unit(r):
    """r is one monomial of coefficient one without unknowns"""
    m = r.single()
    if m is None or m[0] != 1:
        return False
    sc, rr = ring.split_mono(m[1])
    if sc:
        return False
    ex = ring.explicit_key(rr)
    return ex is not None and not ex[3]


def role_pdiv(I, st, args):
    if is_term(I, st, args[0]):
        return None
    a, b = as_pol(I, st, args[0]), as_pol(I, st, args[1])
    if a is None or b is None:
        return None
    if single_unit(b):
        return ret(pol(a * power(b, -1)), st)
    m = b.single()
    if m is None or m[0] != int(m[0]):
        return None
    sc, rr = ring.split_mono(m[1])
    ex = ring.explicit_key(rr)
    if sc or ex is None or ex[3]:
        return None
    return ret(pol(app('tdivc', a, lift(int(m[0])), *ex[:3])), st)


def assign_of(role):
    def f(I, st, args):
        if not isinstance(args[0], Ref):
            return None
        r = role(I, st, args)
        if r is None:
            return None
        t = args[0]
        while isinstance(I.read(st, t.cell, t.path), Ref):
            t = I.read(st, t.cell, t.path)
        I.write(st, t.cell, t.path, r[0].v)
        return ret(UNIT, st)
    return f


def mentions_y(r):
    for a in r.atoms(True):
        h = nf.atom_key(a)[0]
        if h not in ('X', 'Q', 'v', 'mod', 'base', 'V', 'inv', 'cast'):
            return True
    return False


def is_prime_ok(I, st, p):
    """the modulus is at least 2 on this path"""
    if st.know(lt0(p - 2)) is not False and st.dec(lt0(p - 2)):
        return False
    return True


def role_reductionm(I, st, args):
    f, a, b, p = as_pol(I, st, args[0]), num(I, st, args[1]), num(I, st, args[2]), num(I, st, args[3])
    if f is None or a is None or b is None or p is None or not is_prime_ok(I, st, p):
        return None
    if not mentions_y(f):
        return ret(pol(ring.mk_mod(f, p)), st)
    return ret(pol(app('reductionm', f, a, b, p)), st)


def role_reduction(I, st, args):
    f, a, b = as_pol(I, st, args[0]), num(I, st, args[1]), num(I, st, args[2])
    if f is None or a is None or b is None:
        return None
    if not mentions_y(f):
        return ret(pol(f), st)
    return ret(pol(app('reduction', f, a, b)), st)


# specified functions that stay symbolic in the callers: name -> (argument kinds,
# result kind, reference function); 'r' polynomial, 'n' number, 'b' truth value
FUN = {}
_cache = {}


def app(name, *args):
    return atom(('rapp' if FUN[name][1] == 'r' else 'napp', name) + args)


def appb(name, *args):
    return ('lit', ('b', 'app', name) + args, True)


def fun(name, kinds, res, f):
    FUN[name] = (kinds, res, f)


def ev_app(env, name, args):
    kinds, res, f = FUN[name]
    vals = []
    for k, a in zip(kinds, args):
        vals.append(ev.poly_of(env.p(a)) if k == 'r' else env.n(a))
    ck = (name,) + tuple(vals) if 'r' not in kinds and 'l' not in kinds else None
    try:
        if ck in _cache:
            v = _cache[ck]
        else:
            v = f(*vals)
            if ck:
                if len(_cache) > 200000:
                    _cache.clear()
                _cache[ck] = v
    except PanicV:
        raise ev.EvalUnknown('specified function undefined')
    if v is OUTSIDE:
        raise ev.EvalOutside('%s called outside its specified domain' % name)
    if v is PANIC or v is ANY or v is None:
        raise ev.EvalUnknown('specified function undefined')
    return ev.cp_of(v) if res == 'r' else v


def install_apps(apps):
    apps['rapp'] = lambda env, k: ev_app(env, k[1], k[2:])
    apps['linsolve'] = ev_linsolve
    apps['dl'] = ev_dl
    apps[('b', 'pivots')] = ev_pivots
    apps['napp'] = lambda env, k: ev_app(env, k[1], k[2:])
    apps[('b', 'app')] = lambda env, k: ev_app(env, k[2], k[3:])


fun('reduction', 'rnn', 'r', red0)
fun('reductionm', 'rnnn', 'r', lambda f, a, b, p: ANY if any(k[1] < 0 for k in f) else redm(f, a, b, p))
fun('tdivc', 'rnnnn', 'r', tdivc)
for _i, _c in enumerate('gxy'):
    fun('xg.' + _c, 'nn', 'n', (lambda i: lambda a, b: xgcd(a, b)[i])(_i))
fun('psi', 'nnn', 'r', psi)
fun('phi', 'nnn', 'r', phi)
fun('omega', 'nnn', 'r', omega)


def role_xgcd(I, st, args):
    a, b = num(I, st, args[0]), num(I, st, args[1])
    if a is None or b is None:
        return None
    return ret(Rec('()', tuple(app('xg.' + c, a, b) for c in 'gxy')), st)


def remok(g, p):
    return not any(k[1] or k[2] for k in g) and bool(pmod(g, p))


def any_if(bad, f, what=ANY):
    return lambda *a: what if bad(*a) else f(*a)


fun('prem', 'rrn', 'r', any_if(lambda f, g, p: not remok(g, p), prem))
fun('remok', 'rn', 'b', remok)
fun('pgcd', 'rrn', 'r', any_if(lambda f, g, p: any(k[1] or k[2] for k in list(f) + list(g)), pgcd, OUTSIDE))
fun('pmonic', 'rn', 'r', pmonic)


def role_prem(I, st, args):
    f, g, p = as_pol(I, st, args[0]), as_pol(I, st, args[1]), num(I, st, args[2])
    if f is None or g is None or p is None or not is_prime_ok(I, st, p):
        return None
    if not st.dec(appb('remok', g, p)):
        return [Out('panic', None, st)]
    return ret(pol(app('prem', f, g, p)), st)


def role_pgcd(I, st, args):
    f, g, p = as_pol(I, st, args[0]), as_pol(I, st, args[1]), num(I, st, args[2])
    if f is None or g is None or p is None or not is_prime_ok(I, st, p):
        return None
    return ret(pol(app('pgcd', f, g, p)), st)


def role_pmonic(I, st, args):
    f, p = as_pol(I, st, args[0]), num(I, st, args[1])
    if f is None or p is None or not is_prime_ok(I, st, p):
        return None
    return ret(pol(app('pmonic', f, p)), st)


def degx(f):
    return ANY if any(k[1] or k[2] for k in f) else max((k[0] for k in f), default=0)


fun('degx', 'r', 'n', degx)
fun('xonly', 'r', 'b', lambda f: not any(k[1] or k[2] for k in f))
fun('phi_l', 'n', 'r', lambda l: modpoly(l) if l >= 2 and ev.is_prime(l) else ANY)


def role_degx(I, st, args):
    f = as_pol(I, st, args[0])
    if f is None or not any(nf.atom_key(a)[0] == 'rapp' for a in f.atoms(True)):
        return None
    if not st.dec(appb('xonly', f)):
        return [Out('panic', None, st)]
    r = app('degx', f)
    st.assume(ge0(r))
    return ret(r, st)


def role_modpoly(I, st, args):
    l = num(I, st, args[0])
    if l is None:
        return None
    if not st.dec(('lit', ('b', 'prime', l), True)):
        return [Out('panic', None, st)]
    return ret(pol(app('phi_l', l)), st)


def role_jinv(I, st, args):
    E = curve(I, st, args[0])
    if E is None or not is_prime_ok(I, st, E[2]):
        return None
    a, b, p = E
    n = power(a, 3) * 4
    return ret(ring.mk_mod(n * 1728 * ring.mk_inv(n + power(b, 2) * 27, p), p), st)


def mk_has(name, i):
    fun(name, 'r', 'b', lambda f: any(k[i] for k in f))

    def role(I, st, args):
        f = as_pol(I, st, args[0])
        if f is None or not any(nf.atom_key(a)[0] == 'rapp' for a in f.atoms(True)):
            return None
        return ret(Bool(appb(name, f)), st)
    return role


def role_gcdone(I, st, args):
    f, g, p = as_pol(I, st, args[0]), as_pol(I, st, args[1]), num(I, st, args[2])
    if f is None or g is None or p is None or not is_prime_ok(I, st, p):
        return None
    return ret(Bool(eq0(app('pgcd', f, g, p) - 1)), st)


def mk_divpol(name, low):
    def role(I, st, args):
        a, b, n = (num(I, st, x) for x in args)
        if a is None or b is None or n is None:
            return None
        if st.dec(lt0(n - low)):
            return [Out('panic', None, st)]
        return ret(pol(app(name, a, b, n)), st)
    return role


# ---- q-series ------------------------------------------------------------------------------

fun('trunc', 'rn', 'r', ptrunc)
fun('titer', 'rrnn', 'r', titer)
fun('sigma', 'nn', 'n', sigma)
fun('e4', 'n', 'r', e4)
fun('delta1', 'n', 'r', delta1)
fun('delta1_inverse', 'n', 'r', delta1_inverse)
fun('jq', 'n', 'r', jq)
fun('jser', 'n', 'r', jser)
fun('qmap', 'rn', 'r', qmap)
fun('qcoef', 'rn', 'r', qcoef)
fun('ansatz', 'n', 'r', ansatz)
fun('modeq', 'n', 'r', modeq)


def has_xy(I, st, r):
    for c in ('kx', 'ky'):
        u = ring.fresh()
        if st.dec(ring.mk_ex(('map', r), u, f_not(eq0(ring.bv(u, c))))):
            return True
    return False


def role_trunc(I, st, args):
    a, n = as_pol(I, st, args[0]), num(I, st, args[1])
    if a is None or n is None or not isinstance(args[0], Ref):
        return None
    if has_xy(I, st, a):
        return [Out('panic', None, st)]
    r = args[0]
    while isinstance(I.read(st, r.cell, r.path), Ref):
        r = I.read(st, r.cell, r.path)
    I.write(st, r.cell, r.path, pol(ring.mk_trunc(a, n)))
    return ret(UNIT, st)


def role_ptrunc(I, st, args):
    a, k, n = as_pol(I, st, args[0]), num(I, st, args[1]), num(I, st, args[2])
    if a is None or k is None or n is None or has_unknown(a):
        return None
    if st.know(lt0(k)) is not False and st.dec(lt0(k)):
        return None
    if has_xy(I, st, a):
        return [Out('panic', None, st)]
    return ret(pol(app('titer', ONE, a, k, n)), st)


def role_sigma(I, st, args):
    n, k = num(I, st, args[0]), num(I, st, args[1])
    return None if n is None or k is None else ret(app('sigma', n, k), st)


def mk_series(name):
    def role(I, st, args):
        n = num(I, st, args[0])
        if n is None or st.know(lt0(n)) is not False and st.dec(lt0(n)):
            return None
        return ret(pol(app(name, n)), st)
    return role


fun('subst_x', 'rr', 'r', subst_x)
fun('subst_y', 'rr', 'r', subst_y)


def opaque_pol(r):
    """a polynomial known only through a specified function"""
    at = r.as_atom()
    return at is not None and nf.atom_key(at)[0] == 'rapp'


def mk_subst(name):
    def role(I, st, args):
        f, g = as_pol(I, st, args[0]), as_pol(I, st, args[1])
        # (contract for non-negative exponents)
        if f is None or g is None or not opaque_pol(f) or nf.atom_key(f.as_atom())[1] not in ('ansatz', 'subst_x', 'subst_y'):
            return None
        return ret(pol(app(name, f, g)), st)
    return role


def role_qmap(I, st, args):
    f, n = as_pol(I, st, args[0]), num(I, st, args[1])
    if f is None or n is None or not opaque_pol(f):
        return None
    return ret(pol(app('qmap', f, n)), st)


def role_qcoef(I, st, args):
    f, n = as_pol(I, st, args[0]), num(I, st, args[1])
    if f is None or n is None or not opaque_pol(f):
        return None
    if has_xy(I, st, f):
        return [Out('panic', None, st)]
    return ret(pol(app('qcoef', f, n)), st)


def prime_ok(I, st, p):
    if st.dec(lt0(p - 2)):
        return False
    c = p.const()
    if c is not None:
        return all(c % d for d in range(2, int(c ** .5) + 1))
    return st.dec(('lit', ('b', 'prime', p), True))


def mk_prime_fun(name):
    def role(I, st, args):
        p = num(I, st, args[0])
        if p is None:
            return None
        if not prime_ok(I, st, p):
            return [Out('panic', None, st)]
        return ret(pol(app(name, p)), st)
    return role


def role_linsolve(I, st, args):
    v = dr(I, st, args[0])
    if arr.depth(v) != 2:
        return None
    A = arr.to_arr(I, st, v)
    if not st.dec(('lit', ('b', 'pivots', A.a), True)):
        return [Out('panic', None, st)]
    return ret(ArrV(atom(('aapp', 'linsolve', A.a)), A.dims), st)


def ev_system(env, k):
    M = arr.ev(env, k[2])
    n = len(M[0]) - 1 if M else 0
    if n < 1 or any(len(r) != n + 1 for r in M):
        raise ev.EvalUnknown('not a linear system')
    return M, n


def ev_pivots(env, k):
    M, n = ev_system(env, k)
    return len(M) >= n and rank([r[:-1] for r in M]) == n


def ev_linsolve(env, k):
    M, n = ev_system(env, k)
    if len(M) < n or rank([r[:-1] for r in M]) < n or rank(M) > n:
        raise ev.EvalOutside('linear system without a unique solution')
    x = solution(M)
    if any(c.denominator != 1 for c in x):
        raise ev.EvalOutside('linear system without an integer solution')
    return [[int(i == j) for j in range(n)] + [int(x[i])] for i in range(n)] + [[None] * (n + 1)] * (len(M) - n)


def numbering(p):
    return [(i, j) for i in range(p + 1) for j in range(i + 1, p + 1)] + [(i, i) for i in range(p + 1)]


def count_of(p):
    return (p + 1) * (p + 2) * lift(Fraction(1, 2))


for _i, _c in enumerate('ij'):
    fun('number.' + _c, 'nn', 'n', (lambda c: lambda p, k: numbering(p)[k][c] if p >= 2 and 0 <= k < len(numbering(p)) else OUTSIDE)(_i))


def conv_p(I, st, v):
    v = dr(I, st, v)
    p = v.f[0] if isinstance(v, Rec) and len(v.f) == 1 else None
    if not isinstance(p, P) or st.know(('lit', ('b', 'prime', st.norm(p)), True)) is not True or st.know(lt0(p - 2)) is not False:
        return None
    return st.norm(p)


def role_count(I, st, args):
    p = conv_p(I, st, args[0])
    return None if p is None else ret(count_of(p), st)


def role_numbered(I, st, args):
    p, k = conv_p(I, st, args[0]), num(I, st, args[1])
    if p is None or k is None:
        return None
    if not st.dec(lt0(k - count_of(p))):
        return [Out('panic', None, st)]
    return ret(Rec(SV, (app('number.i', p, k), app('number.j', p, k), FALSE)), st)


fx.app_axioms['number.i'] = lambda k, x: [x, app('number.j', *k[2:]) - x]
fx.app_axioms['number.j'] = lambda k, x: [k[2] - x, x - app('number.i', *k[2:])]


fun('vcoef', 'rnn', 'n', lambda f, i, j: f.get((0, 0, 0, (i, j)), 0))
fun('vcoef0', 'r', 'n', lambda f: f.get((0, 0, 0, None), 0))


def role_vcoef(I, st, args):
    f, v = as_pol(I, st, args[0]), dr(I, st, args[1])
    if f is None or not opaque_pol(f) or not isinstance(v, Rec) or v.ty != SV:
        return None
    for n in ('has_x', 'has_y', 'has_q'):
        if st.dec(appb(n, f)):
            return [Out('panic', None, st)]
    if st.dec(v.f[2].f):
        return ret(app('vcoef0', f), st)
    return ret(app('vcoef', f, st.norm(v.f[0]), st.norm(v.f[1])), st)


SERIES = {
    'subscripted_variable::SubscriptedVariableConverter::count': ('numbering', role_count),
    'subscripted_variable::SubscriptedVariableConverter::variable_from_index': ('numbering', role_numbered),
    'polynomial::Polynomial::to_variable_coef': ('extract', role_vcoef),
    'simultaneous_equation::solve': ('linsolve', role_linsolve),
    'polynomial::Polynomial::has_x': ('has', mk_has('has_x', 0)),
    'polynomial::Polynomial::has_y': ('has', mk_has('has_y', 1)),
    'polynomial::Polynomial::has_q': ('has', mk_has('has_q', 2)),
    'polynomial::Polynomial::degree_x': ('degree', role_degx),
    'modular_polynomial::modular_polynomial': ('modpoly', role_modpoly),
    'elliptic_curve::EllipticCurve::j_invariant': ('jinv', role_jinv),
    'bigint::extended_gcd': ('xgcd', role_xgcd),
    'polynomial::Polynomial::polynomial_modular': ('pmodular', role_prem),
    'polynomial::Polynomial::gcd': ('pgcd', role_pgcd),
    'polynomial::Polynomial::to_monic': ('monic', role_pmonic),
    'polynomial::Polynomial::is_gcd_one': ('gcdone', role_gcdone),
    'division_polynomial::psi': ('psi', mk_divpol('psi', 0)),
    'division_polynomial::phi': ('phi', mk_divpol('phi', 1)),
    'division_polynomial::omega': ('omega', mk_divpol('omega', 1)),
    'polynomial::Polynomial::eval_x_polynomial': ('peval', mk_subst('subst_x')),
    'polynomial::Polynomial::eval_y_polynomial': ('peval', mk_subst('subst_y')),
    'polynomial::Polynomial::to_q_power': ('emap', role_qmap),
    'polynomial::Polynomial::to_q_power_coef': ('extract', role_qcoef),
    'modular_polynomial::subscripted_variable_modular_polynomial': ('ansatz', mk_prime_fun('ansatz')),
    'modular_polynomial::subscripted_variable_modular_polynomial_q': ('modeq', mk_prime_fun('modeq')),
    'divisor::sigma_divisor': ('sigma', role_sigma),
    'eisenstein::eisenstein4': ('e4', mk_series('e4')),
    'delta::delta1': ('delta1', mk_series('delta1')),
    'delta::delta1_inverse': ('delta1_inverse', mk_series('delta1_inverse')),
    'j_invariant::j_invariant1': ('jq', mk_series('jq')),
    'j_invariant::j_invariant': ('jser', mk_series('jser')),
    'polynomial::Polynomial::omit_high_order_q': ('trunc', role_trunc),
    'polynomial::Polynomial::power_omit_high_order_q': ('ptrunc', role_ptrunc),
}


# ---- evaluation at a point ---------------------------------------------------------------

def xy_only(r):
    for a in r.atoms(False):
        if ring.atom_is_ring(a) and nf.atom_key(a)[0] not in ('X', 'Y'):
            return False
    return True


def role_evalxy(I, st, args):
    f, x, y = as_pol(I, st, args[0]), num(I, st, args[1]), num(I, st, args[2])
    if f is None or x is None or y is None:
        return None
    if xy_only(f):
        for m in f.t:
            for a, e in m:
                if ring.atom_is_ring(a) and isinstance(e, P):
                    return None
        v = nf.subst(f, {nf.atom(('X',)).as_atom(): x, nf.atom(('Y',)).as_atom(): y})
        return ret(st.norm(v), st)
    return ret(app('eval_xy', f, x, y), st)


fun('eval_xy', 'rnn', 'n', lambda f, x, y: sum(c * x ** k[0] * y ** k[1] for k, c in f.items()))


# ---- curve operations ----------------------------------------------------------------------

def curve(I, st, v):
    v = dr(I, st, v)
    if isinstance(v, Rec) and v.ty == EC and all(isinstance(c, P) for c in v.f[:3]):
        a, b, p = (st.norm(c) for c in v.f[:3])
        m = v.f[3].f[0] if isinstance(v.f[3], Rec) else None
        if isinstance(m, MapV) and m.zf is True and not m.dirty and not m.pend:
            want = power(ring.X, 3) + a * ring.X + b
            if st.norm(m.r - want).is_zero():
                return a, b, p
    return None


def point(I, st, v):
    v = dr(I, st, v)
    if isinstance(v, Rec) and v.ty == ECP and all(isinstance(c, P) for c in v.f):
        return tuple(st.norm(c) for c in v.f)
    return None


def role_oncurve(I, st, args):
    E, Pt = curve(I, st, args[0]), point(I, st, args[1])
    if E is None or Pt is None:
        return None
    a, b, p = E
    x, y, z = Pt
    if not is_prime_ok(I, st, p):
        return None
    return ret(Bool(f_or(eq0(z), fx.mk_dvd(p, y * y - x * x * x - a * x - b))), st)


def ecp(name, *args):
    return Rec(ECP, tuple(app(name + c, *args) for c in '.x .y .z'.split('.')[1:])) if False else \
        Rec(ECP, tuple(app('%s.%s' % (name, c), *args) for c in 'xyz'))


def norm_point(t):
    return None if t[2] == 0 else (t[0], t[1])


def ec_plus_spec(a, b, p, P1, P2):
    """sum of points given as triples (None: not specified)"""
    E = (a, b, p)
    if not on_curve(E, P1) or not on_curve(E, P2):
        return PANIC
    if P1[2] == 0:
        return tuple(P2)
    if P2[2] == 0:
        return tuple(P1)
    q1, q2 = (P1[0] % p, P1[1] % p), (P2[0] % p, P2[1] % p)
    r = ec_add(E, q1, q2)
    return (0, 1, 0) if r is None else r + (1,)


def ec_mul_spec(a, b, p, P1, n):
    E = (a, b, p)
    if not on_curve(E, P1):
        return ANY
    if n == 0:
        return (0, 1, 0)
    if P1[2] == 0:
        return tuple(P1) if P1 == (0, 1, 0) else ANY
    if n == 1:
        return tuple(P1)
    r = ec_mul(E, n, (P1[0] % p, P1[1] % p))
    return (0, 1, 0) if r is None else r + (1,)


def comp(f, i):
    def g(*a):
        r = f(*a)
        return r if r in (PANIC, ANY) else r[i]
    return g


for _i, _c in enumerate('xyz'):
    fun('plus.' + _c, 'nnnnnnnnn', 'n', comp(lambda a, b, p, x, y, z, u, v, w: ec_plus_spec(a, b, p, (x, y, z), (u, v, w)), _i))
    fun('mul.' + _c, 'nnnnnnn', 'n', comp(lambda a, b, p, x, y, z, n: ec_mul_spec(a, b, p, (x, y, z), n), _i))


def role_plus(I, st, args):
    E, P1, P2 = curve(I, st, args[0]), point(I, st, args[1]), point(I, st, args[2])
    if E is None or P1 is None or P2 is None:
        return None
    return ret(ecp('plus', *(E + P1 + P2)), st)


def role_mul(I, st, args):
    E, P1, n = curve(I, st, args[0]), point(I, st, args[1]), num(I, st, args[2])
    if E is None or P1 is None or n is None:
        return None
    return ret(ecp('mul', *(E + P1 + (n,))), st)


# the domain of multiples of one point: the point k*G carries k behind its three coordinates, which
# are the atoms ('dl', coordinate, k) when they are read; m is the order of G

MARK = 'ord'


def dl(I, st, v):
    v = dr(I, st, v)
    if isinstance(v, Rec) and v.ty == ECP and len(v.f) == 4:
        return v.f[3]
    if isinstance(v, Rec) and v.ty == ECP:
        ks = [nf.atom_key(c.as_atom()) if isinstance(c, P) and c.as_atom() is not None else None for c in v.f]
        if all(k and k[0] == 'dl' for k in ks) and [k[1] for k in ks] == ['x', 'y', 'z'] and ks[0][2] == ks[1][2] == ks[2][2]:
            return ks[0][2]
        if v.f[2] == ZERO:
            return ZERO
    raise Unsupported('point outside the domain of multiples')


def dlv(k):
    return Rec(ECP, (ZERO, ZERO, ZERO, k))


def ev_dl(env, k):
    E, G = env.ints['dl.at']
    n = env.n(k[2]) % env.ints[MARK]
    key = (E, G, n)
    if key not in _dlcache:
        r = ec_mul(E, n, G) if n else None
        _dlcache[key] = (0, 1, 0) if r is None else r + (1,)
    return _dlcache[key]['xyz'.index(k[1])]


_dlcache = {}
_dltable = {}


def dl_curve(m, rng):
    """a curve over a prime field and a point of order m on it"""
    if not _dltable:
        g = random.Random(5)
        for p in [5, 7, 11, 13, 17, 19, 23, 29, 31]:
            for a, b in [(a, 0) for a in range(1, 4)] + [(g.randrange(p), g.randrange(p)) for _ in range(10)]:
                if (4 * a ** 3 + 27 * b * b) % p:
                    for G in ec_points((a, b, p)):
                        n, Q = 1, G
                        while Q is not None:
                            n, Q = n + 1, ec_add((a, b, p), Q, G)
                        _dltable.setdefault(n, []).append(((a, b, p), G))
    if m == 1:
        return rng.choice(rng.choice(list(_dltable.values())))[0], None
    if m not in _dltable:
        g = random.Random(m)
        while m not in _dltable:
            p = g.choice([q for q in range(max(5, m - 12), m + 12) if all(q % d for d in range(2, q))])
            a, b = g.randrange(p), g.randrange(p)
            if (4 * a ** 3 + 27 * b * b) % p:
                for G in ec_points((a, b, p))[:3]:
                    n, Q = 1, G
                    while Q is not None and n <= m:
                        n, Q = n + 1, ec_add((a, b, p), Q, G)
                    if n == m and Q is None:
                        _dltable.setdefault(m, []).append(((a, b, p), G))
    c = _dltable[m]
    z = [x for x in c if 0 in x[1]]
    return rng.choice(z) if z and rng.random() < .4 else rng.choice(c)


def ordm():
    return atom(('v', MARK))


DLOG = {
    'elliptic_curve::EllipticCurve::plus': ('plus', lambda I, st, a: ret(dlv(dl(I, st, a[1]) + dl(I, st, a[2])), st)),
    'elliptic_curve::EllipticCurve::negate': ('negate', lambda I, st, a: ret(dlv(-dl(I, st, a[1])), st)),
    'elliptic_curve::EllipticCurve::multiply_scalar': ('mul', lambda I, st, a: ret(dlv(dl(I, st, a[1]) * num(I, st, a[2])), st)),
    'elliptic_curve::EllipticCurve::canonicalize': ('canon', lambda I, st, a: ret(dlv(dl(I, st, a[1])), st)),
    'elliptic_curve::EllipticCurve::is_on_curve': ('oncurve', lambda I, st, a: ret(Bool(True), st)),
    'elliptic_curve::ECPoint::is_infinity': ('infinity', lambda I, st, a: ret(Bool(fx.mk_dvd(ordm(), dl(I, st, a[0]))), st)),
    'elliptic_curve::ECPoint::infinity': ('infinity', lambda I, st, a: ret(dlv(ZERO), st)),
    '<elliptic_curve::ECPoint as std::cmp::PartialEq>::eq':
        ('pteq', lambda I, st, a: ret(Bool(fx.mk_dvd(ordm(), dl(I, st, a[0]) - dl(I, st, a[1]))), st)),
    '<elliptic_curve::ECPoint as std::cmp::PartialEq>::ne':
        ('pteq', lambda I, st, a: ret(Bool(f_not(fx.mk_dvd(ordm(), dl(I, st, a[0]) - dl(I, st, a[1])))), st)),
}


def mk_disp(kind, ok):
    def role(I, st, args):
        v = dr(I, st, args[0])
        if len(args) != 2 or args[1] != 'display' or not ok(I, st, v):
            return None
        return ret(StrV((('d', kind, v),)), st)
    return role


DISP = {
    'term::Term': ('term', lambda I, st, v: isinstance(v, Rec) and v.ty == TERM and isinstance(v.f[0], P)),
    'polynomial::Polynomial': ('pol', lambda I, st, v: as_pol(I, st, v) is not None),
    'elliptic_curve::ECPoint': ('point', lambda I, st, v: point(I, st, v) is not None),
}
ev.SHOW.update(term=show_term, pol=lambda v: show_poly(v[0]), point=show_point)


def build(crate, enable=None):
    """{item path: (group, role)}"""
    out = {}

    def put(path, group, role):
        out[path] = (group, role)
    PT = ('Polynomial', 'Term')
    for it in crate.items.values():
        pp = parse_path(it.path)
        if pp:
            t, s, r, m, rest = pp
            if rest:
                continue
            r = r or s
            for d in DISP:
                if it.path == '<%s as std::fmt::Display>::fmt' % d:
                    put(it.path, DISP[d][0] + 'text', mk_disp(*DISP[d]))
            if t in BIN and s in PT and r in PT:
                put(it.path, 'ring', mk_bin(t))
            elif t in ('AddAssign', 'SubAssign', 'MulAssign') and s == 'Polynomial' and r in PT:
                put(it.path, 'ring', mk_assign(t[:3]))
            elif t == 'Neg' and s == 'Polynomial':
                put(it.path, 'ring', role_neg)
            elif t == 'Rem' and s == 'Polynomial':
                put(it.path, 'pmod', role_rem)
            elif t == 'Div' and s == 'Polynomial' and r in PT:
                put(it.path, 'pdiv', role_pdiv)
            elif t == 'DivAssign' and s == 'Polynomial' and r in PT:
                put(it.path, 'pdiv', assign_of(role_pdiv))
            elif t == 'Power' and s == 'Polynomial':
                put(it.path, 'ppower', role_ppower)
            elif t == 'Power' and s == 'BigInt':
                put(it.path, 'npower', role_npower)
            elif t == 'PowerModulo' and s == 'BigInt':
                put(it.path, 'npowmod', role_npowmod)
            elif t == 'Inverse' and s == 'BigInt':
                put(it.path, 'inverse', role_inverse)
        else:
            p = it.path
            if p in SERIES:
                put(p, *SERIES[p])
            if p == 'polynomial::Polynomial::modular_assign':
                put(p, 'pmod', role_modassign)
            elif p == 'polynomial::Polynomial::square':
                put(p, 'ppower', mk_fix(2))
            elif p == 'polynomial::Polynomial::cube':
                put(p, 'ppower', mk_fix(3))
            elif p == 'polynomial::Polynomial::power_modulo':
                put(p, 'ppowmod', role_ppowmod)
            elif p == 'polynomial::Polynomial::eval_xy':
                put(p, 'eval', role_evalxy)
            elif p == 'elliptic_curve::EllipticCurve::is_on_curve':
                put(p, 'oncurve', role_oncurve)
            elif p == 'elliptic_curve::EllipticCurve::plus':
                put(p, 'plus', role_plus)
            elif p == 'elliptic_curve::EllipticCurve::multiply_scalar':
                put(p, 'mul', role_mul)
            elif p == 'polynomial::Polynomial::reduction':
                put(p, 'reduction', role_reduction)
            elif p == 'polynomial::Polynomial::reduction_modular':
                put(p, 'reductionm', role_reductionm)
    return out
