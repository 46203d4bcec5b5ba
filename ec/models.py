"""Semantics of the library functions the repository calls (std collections, iterators,
formatting, num-bigint, num-integer, num-traits, num-iter, primes)."""
import re
from nf import *
import nf
from facts import *
import facts as fx
import ring
from ring import Key
from values import *
import arr

_g1 = re.compile(r'::<impl [^<>]*(?:<[^<>]*>)?[^<>]*>')
_g2 = re.compile(r'::<[^<>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)?[^<>]*>')
_np = {}


def norm_path(p):
    r = _np.get(p)
    if r is None:
        r = _g1.sub('', p)
        r = _g2.sub('', r)
        r = r.replace('alloc::', 'std::', 1) if r.startswith('alloc::') else r
        r = r.replace('core::', 'std::', 1) if r.startswith('core::') else r
        _np[p] = r
    return r


H = {}


def h(*names):
    def deco(fn):
        for n in names:
            H[n] = fn
        return fn
    return deco


class Ctx:
    __slots__ = ('f', 'argtys', 'dty', 'fr', 'path')


def model(I, st, f, args, argtys, dty, fr):
    p = norm_path(f['path'])
    fn = H.get(p)
    if fn is None:
        if f['path'].startswith('std::fmt::Formatter') and 'debug_' in f['path']:
            return ok(UNIT)
        raise Unsupported('call of ' + p)
    c = Ctx()
    c.f, c.argtys, c.dty, c.fr, c.path = f, argtys, dty, fr, p
    return fn(I, st, args, c)


def dr(I, st, v):
    """value behind any number of references"""
    n = 0
    while isinstance(v, Ref):
        v = I.read(st, v.cell, v.path)
        n += 1
        if n > 8:
            raise Unsupported('reference chain')
    return v


def base_ref(I, st, v):
    """innermost reference"""
    while isinstance(v, Ref):
        w = I.read(st, v.cell, v.path)
        if not isinstance(w, Ref):
            return v
        v = w
    raise Unsupported('reference expected')


def num(I, st, v):
    v = dr(I, st, v)
    if isinstance(v, P):
        return v
    raise Unsupported('number expected, got %s' % type(v).__name__)


def setref(I, st, ref, val):
    r = base_ref(I, st, ref)
    I.write(st, r.cell, r.path, val)


def outs_map(outs, fn):
    """apply fn(value, state) -> value to the returning outcomes; forks allowed to the caller"""
    res = []
    for o in outs:
        if o.kind == 'ret':
            res.append(type(o)('ret', fn(o.v, o.st), o.st))
        else:
            res.append(o)
    return res


def Out(*a):
    import interp
    return interp.Out(*a)


def tname(t):
    while t and t.get('k') == 'ref':
        t = t.get('t')
    if not t:
        return None
    if t['k'] == 'adt':
        return t['p']
    if t['k'] == 'int':
        return t['n']
    return t['k']


def strip_ref(t):
    while t and t.get('k') == 'ref':
        t = t.get('t')
    return t


# ---- arithmetic ---------------------------------------------------------------------

def arith(I, st, op, a, b):
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    if op == 'div':
        return bigdiv(I, st, a, b)
    if op == 'rem':
        return a - b * bigdiv(I, st, a, b)
    raise Unsupported(op)


def bigdiv(I, st, a, b):
    if st.dec(eq0(b)):
        raise Panic()
    return I.tdiv(st, a, b)


def _bin(op):
    def f(I, st, a, c):
        x, y = dr(I, st, a[0]), dr(I, st, a[1])
        if isinstance(x, StrV) and op == 'add':
            return StrV(x.parts + y.parts)
        if not (isinstance(x, P) and isinstance(y, P)):
            raise Unsupported('%s of %s' % (op, type(x).__name__))
        return arith(I, st, op, x, y)
    return f


def _asg(op):
    def f(I, st, a, c):
        x, y = dr(I, st, a[0]), dr(I, st, a[1])
        if isinstance(x, StrV) and op == 'add':
            setref(I, st, a[0], StrV(x.parts + y.parts))
            return UNIT
        if not (isinstance(x, P) and isinstance(y, P)):
            raise Unsupported('%s of %s' % (op, type(x).__name__))
        setref(I, st, a[0], arith(I, st, op, x, y))
        return UNIT
    return f


for _o in ('add', 'sub', 'mul', 'div', 'rem'):
    H['std::ops::%s::%s' % (_o.capitalize(), _o)] = _bin(_o)
    H['std::ops::%sAssign::%s_assign' % (_o.capitalize(), _o)] = _asg(_o)


@h('std::ops::Neg::neg')
def _neg(I, st, a, c):
    return -num(I, st, a[0])


@h('std::ops::Not::not')
def _not(I, st, a, c):
    v = dr(I, st, a[0])
    if isinstance(v, Bool):
        return bval(f_not(v.f))
    raise Unsupported('not')


def _shift(sign):
    def f(I, st, a, c):
        x, y = num(I, st, a[0]), num(I, st, a[1]).const()
        if y is None or not 0 <= y < 512:
            raise Unsupported('shift')
        return x.scale(2 ** int(y)) if sign > 0 else ring.mk_fdiv(x, lift(2 ** int(y)))
    return f


def _shift_asg(sign):
    g = _shift(sign)

    def f(I, st, a, c):
        setref(I, st, a[0], g(I, st, a, c))
        return UNIT
    return f


H['std::ops::Shl::shl'], H['std::ops::Shr::shr'] = _shift(1), _shift(-1)
H['std::ops::ShlAssign::shl_assign'], H['std::ops::ShrAssign::shr_assign'] = _shift_asg(1), _shift_asg(-1)


@h('std::ops::BitAnd::bitand')
def _bitand(I, st, a, c):
    x, y = num(I, st, a[0]), num(I, st, a[1])
    if y.const() == 1 or x.const() == 1:
        z = x if y.const() == 1 else y
        return z - ring.mk_fdiv(z, lift(2)).scale(2)
    raise Unsupported('bitand')


@h('num_integer::Integer::div_floor', 'num_integer::div_floor', 'num_integer::Integer::div_euclid_')
def _div_floor(I, st, a, c):
    x, y = num(I, st, a[0]), num(I, st, a[1])
    if st.dec(eq0(y)):
        raise Panic()
    return ring.mk_fdiv(st.norm(x), st.norm(y))


@h('num_integer::Integer::mod_floor', 'num_integer::mod_floor')
def _mod_floor(I, st, a, c):
    x, y = num(I, st, a[0]), num(I, st, a[1])
    if st.dec(eq0(y)):
        raise Panic()
    return modv(I, st, x, y)


def modv(I, st, x, y):
    x, y = st.norm(x), st.norm(y)
    return ring.mk_mod(x, y)


@h('std::num::rem_euclid', 'num_traits::Euclid::rem_euclid')
def _rem_euclid(I, st, a, c):
    x, y = num(I, st, a[0]), num(I, st, a[1])
    if st.dec(eq0(y)):
        raise Panic()
    if st.dec(lt0(y)):
        y = -y
    return modv(I, st, x, y)


@h('num_integer::Integer::div_rem')
def _div_rem(I, st, a, c):
    x, y = num(I, st, a[0]), num(I, st, a[1])
    q = bigdiv(I, st, x, y)
    return Rec('()', (q, x - y * q))


@h('num_integer::Integer::div_mod_floor')
def _div_mod_floor(I, st, a, c):
    x, y = num(I, st, a[0]), num(I, st, a[1])
    if st.dec(eq0(y)):
        raise Panic()
    return Rec('()', (ring.mk_fdiv(x, y), modv(I, st, x, y)))


def parity(x):
    return x - ring.mk_fdiv(x, lift(2)).scale(2)


@h('num_integer::Integer::is_odd')
def _is_odd(I, st, a, c):
    return bval(f_not(fx.mk_dvd(lift(2), num(I, st, a[0]))))


@h('num_integer::Integer::is_even')
def _is_even(I, st, a, c):
    return bval(fx.mk_dvd(lift(2), num(I, st, a[0])))


@h('num_integer::Integer::is_multiple_of', 'num_integer::Integer::divides')
def _is_mult(I, st, a, c):
    return bval(fx.mk_dvd(num(I, st, a[1]), num(I, st, a[0])))


@h('num_integer::Integer::lcm', 'num_integer::lcm')
def _lcm(I, st, a, c):
    x, y = sorted((num(I, st, a[0]), num(I, st, a[1])), key=lambda p: show(p))
    return atom(('lcmn', x, y))


@h('num_integer::Integer::gcd', 'num_integer::gcd')
def _gcd(I, st, a, c):
    x, y = sorted((num(I, st, a[0]), num(I, st, a[1])), key=lambda p: show(p))
    return atom(('gcdn', x, y))


@h('num_traits::Zero::is_zero')
def _is_zero(I, st, a, c):
    v = dr(I, st, a[0])
    if isinstance(v, P):
        return bval(eq0(v))
    raise Unsupported('is_zero')


@h('num_traits::One::is_one')
def _is_one(I, st, a, c):
    v = dr(I, st, a[0])
    if isinstance(v, P):
        return bval(eq(v, ONE))
    # default method: *self == Self::one()
    one = find_impl(I, 'num_traits::One', tyname_of(v), 'one')
    if one is None:
        raise Unsupported('is_one')
    res = []
    for o in I.run_fn(one, [], st):
        if o.kind == 'ret':
            o.v = bval(val_eq(I, o.st, v, o.v))
        res.append(o)
    return res


def tyname_of(v):
    if isinstance(v, (Rec, En)):
        return v.ty
    return None


def find_impl(I, trait, ty, name):
    for it in I.crate.items.values():
        j = it.j
        if j.get('trait') == trait and j.get('name') == name and tname(j.get('self_ty')) == ty \
                and (j.get('self_ty') or {}).get('k') != 'ref':
            return it
    return None


@h('num_traits::Zero::zero')
def _zero(I, st, a, c):
    return ZERO


@h('num_traits::One::one')
def _one(I, st, a, c):
    return ONE


@h('num_traits::Zero::set_zero')
def _set_zero(I, st, a, c):
    setref(I, st, a[0], ZERO)
    return UNIT


@h('num_traits::One::set_one')
def _set_one(I, st, a, c):
    setref(I, st, a[0], ONE)
    return UNIT


@h('num_traits::Signed::is_negative')
def _is_neg(I, st, a, c):
    return bval(lt0(num(I, st, a[0])))


@h('num_traits::Signed::is_positive')
def _is_pos(I, st, a, c):
    return bval(lt0(-num(I, st, a[0])))


@h('num_traits::Signed::abs', 'std::num::abs')
def _abs(I, st, a, c):
    x = num(I, st, a[0])
    return -x if st.dec(lt0(x)) else x


@h('num_traits::Signed::signum', 'std::num::signum')
def _signum(I, st, a, c):
    x = num(I, st, a[0])
    if st.dec(lt0(x)):
        return lift(-1)
    return ZERO if st.dec(eq0(x)) else ONE


@h('std::num::pow', 'num_traits::pow::pow', 'num_traits::Pow::pow', 'num_traits::pow::Pow::pow', 'num_bigint::BigInt::pow')
def _pow(I, st, a, c):
    x, n = dr(I, st, a[0]), num(I, st, a[1])
    if not isinstance(x, P):
        raise Unsupported('pow')
    ty = strip_ref(c.dty) if c.dty else None
    if ty and ty.get('k') == 'int' and (n.const() is None or n.const() > 3) and x.const() is None:
        # a machine power: exact only while it fits
        return atom(('cast', power(x, n), ty['n']))
    return power(x, n)


@h('num_bigint::BigInt::modpow', 'num_bigint::bigint::BigInt::modpow')
def _modpow(I, st, a, c):
    x, n, m = num(I, st, a[0]), num(I, st, a[1]), num(I, st, a[2])
    if st.dec(lt0(n)) or st.dec(eq0(m)):
        raise Panic()
    return modv(I, st, power(x, n), m)


def _to_prim(ty, res=False):
    def f(I, st, a, c):
        import interp
        x = num(I, st, a[0])
        lo, hi = interp.INT_RANGE[ty]
        cst = x.const()
        if cst is not None:
            return some(x) if lo <= cst <= hi else NONE
        # counts/exponents: assumed to be in the machine range unless the facts say otherwise
        if st.know(lt0(x - lo)) is True or st.know(lt0(hi - x)) is True:
            return NONE
        if lo == 0 and st.know(lt0(x)) is None:
            if st.dec(lt0(x)):
                return NONE
        if tname(strip_ref(c.argtys[0]) if c.argtys else None) == 'num_bigint::BigInt':
            # a fallback is taken instead: decide it
            if st.dec(lt0(hi - x)) or st.dec(lt0(x - lo)):
                return NONE
        return some(x)
    return f


for _t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
    H['num_traits::ToPrimitive::to_' + _t] = _to_prim(_t)


@h('std::convert::TryInto::try_into', 'std::convert::TryFrom::try_from')
def _try_into(I, st, a, c):
    t = c.dty
    tgt = tname((t.get('a') or [None])[0]) if t else None
    import interp
    x = num(I, st, a[0])
    if tgt not in interp.INT_RANGE:
        raise Unsupported('try_into')
    r = _to_prim(tgt)(I, st, [x], c)
    return ok(r.f[0]) if r.v == 1 else En(RES, 1, (Opaque('err'),))


@h('std::convert::From::from', 'std::convert::Into::into', 'std::borrow::ToOwned::to_owned',
   'std::convert::AsRef::as_ref', 'num_bigint::ToBigInt::to_bigint_')
def _from(I, st, a, c):
    v = a[0]
    if isinstance(v, P):
        return v
    w = dr(I, st, v)
    dn = tname(c.dty)
    an = tname(c.argtys[0]) if c.argtys else None
    if isinstance(w, Bool) and dn != 'bool':
        return ONE if st.dec(w.f) else ZERO
    if dn and dn == an or (dn or '').endswith('String') or isinstance(w, P):
        return w
    it = None
    for x in I.crate.items.values():
        j = x.j
        if j.get('trait') == 'std::convert::From' and j.get('name') == 'from' and tname(j.get('self_ty')) == dn:
            tas = [t for t in j.get('trait_args') or []]
            import mir
            if c.argtys and any(mir.ty_str(t) == mir.ty_str(c.argtys[0]) for t in tas):
                it = x
    if it is not None:
        return I.run_fn(it, [v], st)
    raise Unsupported('conversion %s -> %s' % (an, dn))


@h('std::clone::Clone::clone', 'std::slice::to_vec', 'std::option::Option::cloned', 'std::option::Option::copied')
def _clone(I, st, a, c):
    v = dr(I, st, a[0])
    if isinstance(v, En) and v.ty == OPT and v.v == 1:
        return some(dr(I, st, v.f[0]))
    return v


@h('std::clone::Clone::clone_from')
def _clone_from(I, st, a, c):
    setref(I, st, a[0], dr(I, st, a[1]))
    return UNIT


@h('std::mem::replace')
def _mem_replace(I, st, a, c):
    old = dr(I, st, a[0])
    setref(I, st, a[0], a[1])
    return old


@h('std::mem::take')
def _mem_take(I, st, a, c):
    old = dr(I, st, a[0])
    setref(I, st, a[0], default_of(I, c.dty))
    return old


@h('std::mem::swap')
def _mem_swap(I, st, a, c):
    x, y = dr(I, st, a[0]), dr(I, st, a[1])
    setref(I, st, a[0], y)
    setref(I, st, a[1], x)
    return UNIT


@h('std::mem::drop', 'std::hint::black_box')
def _drop(I, st, a, c):
    return UNIT


def default_of(I, ty):
    n = tname(ty)
    if n and (n.startswith('std::collections') and n.endswith('BTreeMap')):
        return MapV(ZERO)
    if n and n.endswith('BTreeSet'):
        return SetV()
    if n and n.endswith('Vec'):
        return VecV()
    if n and n.endswith('String'):
        return StrV()
    if n == 'bool':
        return FALSE
    import interp
    if n in interp.INT_RANGE or n == 'num_bigint::BigInt':
        return ZERO
    if n == POLY:
        return Rec(POLY, (MapV(ZERO),))
    if n == OPT:
        return NONE
    raise Unsupported('default of %s' % n)


@h('std::default::Default::default')
def _default(I, st, a, c):
    return default_of(I, c.dty)


def _bound(which):
    def f(I, st, a, c):
        import interp
        n = tname(c.dty)
        if n not in interp.INT_RANGE:
            raise Unsupported('bounds of %s' % n)
        return lift(interp.INT_RANGE[n][which])
    return f


H['std::num::max_value'] = H['num_traits::Bounded::max_value'] = _bound(1)
H['std::num::min_value'] = H['num_traits::Bounded::min_value'] = _bound(0)


@h('num_bigint::BigInt::bits', 'num_bigint::bigint::BigInt::bits')
def _bits(I, st, a, c):
    x = num(I, st, a[0])
    cst = x.const()
    return lift(abs(int(cst)).bit_length()) if cst is not None else atom(('bits', x))


@h('num_bigint::BigInt::sign', 'num_bigint::bigint::BigInt::sign')
def _sign(I, st, a, c):
    x = num(I, st, a[0])
    v = 0 if st.dec(lt0(x)) else 1 if st.dec(eq0(x)) else 2
    return En('num_bigint::Sign', v, ())


@h('primes::is_prime')
def _is_prime(I, st, a, c):
    x = num(I, st, a[0])
    cst = x.const()
    if cst is not None:
        n = int(cst)
        return bval(n >= 2 and all(n % d for d in range(2, int(n ** 0.5) + 1)) if n < 10 ** 7 else fx.boolvar('prime', x))
    p = ('lit', ('b', 'prime', x), True)
    if st.know(p) is None and st.know(lt0(x - 2)) is None:
        if st.dec(lt0(x - 2)):
            return FALSE
    if st.know(lt0(x - 2)) is True:
        return FALSE
    return bval(p)


def _facs(uniq):
    def f(I, st, a, c):
        return VecV((('base', ('facs', num(I, st, a[0]), uniq)),))
    return f


H['primes::factors'] = _facs(False)
H['primes::factors_uniq'] = _facs(True)


# ---- comparison ---------------------------------------------------------------------

def val_eq(I, st, a, b):
    a, b = dr(I, st, a), dr(I, st, b)
    if isinstance(a, P) and isinstance(b, P):
        return eq(a, b)
    if isinstance(a, Bool) and isinstance(b, Bool):
        return f_not(f_xor(a.f, b.f))
    if isinstance(a, MapV) and isinstance(b, MapV):
        a, b = I.clean(st, a), I.clean(st, b)
        if a.zf is not True or b.zf is not True or a.pend or b.pend or a.dirty or b.dirty:
            raise Unsupported('comparison of maps with possible zero entries')
        return ring.mk_rz(st.norm(a.r - b.r))
    if isinstance(a, Rec) and isinstance(b, Rec) and a.ty == b.ty:
        if a.ty == MONO:
            return I.key_eq(st, I.key_of(a), I.key_of(b))
        if a.ty == SV:
            return sv_eq(a, b)
        return f_and(*[val_eq(I, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, En) and isinstance(b, En):
        if a.v != b.v:
            return False
        return f_and(*[val_eq(I, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, VecV) and isinstance(b, VecV):
        if all(s[0] == 'it' for s in a.segs + b.segs):
            if len(a.segs) != len(b.segs):
                return False
            return f_and(*[val_eq(I, st, x[1], y[1]) for x, y in zip(a.segs, b.segs)])
        if a == b:
            return True
    if isinstance(a, StrV) and isinstance(b, StrV):
        if a == b:
            return True
        if all(p[0] == 's' for p in a.parts + b.parts):
            return a.parts == b.parts
    raise Unsupported('equality of %s' % type(a).__name__)


def sv_eq(a, b):
    ea, eb = a.f[2].f, b.f[2].f
    return f_or(f_and(ea, eb), f_and(f_not(ea), f_not(eb), eq(a.f[0], b.f[0]), eq(a.f[1], b.f[1])))


def local_method(I, v, trait, name):
    t = tyname_of(v)
    return find_impl(I, trait, t, name) if t else None


def eq_outs(I, st, a, b, neg):
    x, y = dr(I, st, a), dr(I, st, b)
    it = local_method(I, x, 'std::cmp::PartialEq', 'eq') if isinstance(x, (Rec, En)) else None
    if it is not None:
        xs = [r if isinstance(r, Ref) and not isinstance(I.read(st, r.cell, r.path), Ref) else I.ref_to(st, dr(I, st, r)) for r in (a, b)]
        outs = I.run_fn(it, xs, st)
        if not neg:
            return outs
        return outs_map(outs, lambda v, s: bval(f_not(v.f)))
    f = val_eq(I, st, x, y)
    return bval(f_not(f) if neg else f)


@h('std::cmp::PartialEq::eq')
def _eq(I, st, a, c):
    return eq_outs(I, st, a[0], a[1], False)


@h('std::cmp::PartialEq::ne')
def _ne(I, st, a, c):
    return eq_outs(I, st, a[0], a[1], True)


def key_lt(I, st, a, b):
    """lexicographic order of monomials"""
    va, vb = I.varkey(st, a), I.varkey(st, b)
    return f_or(lt(a.x, b.x),
                f_and(eq(a.x, b.x), lt(a.y, b.y)),
                f_and(eq(a.x, b.x), eq(a.y, b.y), lt(a.q, b.q)),
                f_and(eq(a.x, b.x), eq(a.y, b.y), eq(a.q, b.q), var_lt(va, vb)))


def _emp(v):
    return True if v[0] == 'e' else False if v[0] == 'ij' else ('lit', ('b', 'empty', v[1]), True)


def _ij(v):
    return (v[1], v[2]) if v[0] == 'ij' else (atom(('vi', v[1])), atom(('vj', v[1])))


def var_lt(a, b):
    ea, eb = _emp(a), _emp(b)
    if b[0] == 'e':
        return False
    if a[0] == 'e':
        return f_not(eb)
    (i1, j1), (i2, j2) = _ij(a), _ij(b)
    return f_or(f_and(ea, f_not(eb)), f_and(f_not(ea), f_not(eb), f_or(lt(i1, i2), f_and(eq(i1, i2), lt(j1, j2)))))


def cmp_vals(I, st, x, y):
    """0 less 1 equal 2 greater (forks)"""
    x, y = dr(I, st, x), dr(I, st, y)
    if isinstance(x, P) and isinstance(y, P):
        if st.dec(lt(x, y)):
            return 0
        return 1 if st.dec(eq(x, y)) else 2
    if isinstance(x, Bool) and isinstance(y, Bool):
        bx, by = st.dec(x.f), st.dec(y.f)
        return 1 if bx == by else (0 if by else 2)
    if isinstance(x, En) and isinstance(y, En) and not x.f and not y.f:
        return 0 if x.v < y.v else 1 if x.v == y.v else 2
    return None


def cmp_outs(I, st, a, b, fin):
    """fin: 0/1/2 -> value"""
    x, y = dr(I, st, a), dr(I, st, b)
    for tr, nm in (('std::cmp::Ord', 'cmp'), ('std::cmp::PartialOrd', 'partial_cmp')):
        it = local_method(I, x, tr, nm) if isinstance(x, (Rec, En)) else None
        if it is not None:
            outs = I.run_fn(it, [I.ref_to(st, x), I.ref_to(st, y)], st)

            def g(v, s):
                if v.ty == OPT:
                    if v.v == 0:
                        raise Unsupported('partial order')
                    v = v.f[0]
                return fin(v.v)
            return outs_map(outs, g)
    r = cmp_vals(I, st, x, y)
    if r is None and isinstance(x, Rec) and isinstance(y, Rec) and x.ty == '()' and len(x.f) == len(y.f):
        # lexicographic, component by component
        work, res = [(0, st)], []
        while work:
            i, s = work.pop()
            if i == len(x.f):
                res.append(Out('ret', fin(1), s))
                continue
            r = cmp_outs(I, s, x.f[i], y.f[i], lift)
            for o in (r if isinstance(r, list) else [Out('ret', r, s)]):
                if o.kind != 'ret':
                    res.append(o)
                elif o.v.const() == 1:
                    work.append((i + 1, o.st))
                else:
                    res.append(Out('ret', fin(int(o.v.const())), o.st))
        return res
    if r is None:
        raise Unsupported('order of %s' % type(x).__name__)
    return fin(r)


def _cmpop(sel):
    def f(I, st, a, c):
        x, y = dr(I, st, a[0]), dr(I, st, a[1])
        if isinstance(x, P) and isinstance(y, P):
            return bval({'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[sel])
        return cmp_outs(I, st, a[0], a[1], lambda r: bval({'lt': r == 0, 'le': r <= 1, 'gt': r == 2, 'ge': r >= 1}[sel]))
    return f


for _o in ('lt', 'le', 'gt', 'ge'):
    H['std::cmp::PartialOrd::' + _o] = _cmpop(_o)


@h('std::cmp::Ord::cmp', 'std::num::cmp')
def _cmp(I, st, a, c):
    return cmp_outs(I, st, a[0], a[1], ordv)


@h('std::cmp::PartialOrd::partial_cmp')
def _pcmp(I, st, a, c):
    return cmp_outs(I, st, a[0], a[1], lambda r: some(ordv(r)))


@h('std::cmp::Ord::max', 'std::cmp::max')
def _max(I, st, a, c):
    if not isinstance(dr(I, st, a[0]), P):
        return cmp_outs(I, st, a[0], a[1], lambda r: a[0] if r == 2 else a[1])
    x, y = num(I, st, a[0]), num(I, st, a[1])
    return x if st.dec(lt(y, x)) else y


@h('std::cmp::Ord::min', 'std::cmp::min')
def _min(I, st, a, c):
    if not isinstance(dr(I, st, a[0]), P):
        return cmp_outs(I, st, a[0], a[1], lambda r: a[1] if r == 2 else a[0])
    x, y = num(I, st, a[0]), num(I, st, a[1])
    return y if st.dec(lt(y, x)) else x


@h('std::cmp::Ordering::then_with')
def _then_with(I, st, a, c):
    if a[0].v != 1:
        return a[0]
    return I.apply(st, a[1], [])


@h('std::cmp::Ordering::then')
def _then(I, st, a, c):
    return a[0] if a[0].v != 1 else a[1]


@h('std::cmp::Ordering::reverse')
def _oreverse(I, st, a, c):
    return ordv(2 - a[0].v)


for _n, _s in (('is_lt', (0,)), ('is_le', (0, 1)), ('is_gt', (2,)), ('is_ge', (1, 2)), ('is_eq', (1,)), ('is_ne', (0, 2))):
    H['std::cmp::Ordering::' + _n] = (lambda s: lambda I, st, a, c: bval(a[0].v in s))(_s)


# ---- options, results ------------------------------------------------------------------

@h('std::option::Option::unwrap', 'std::option::Option::expect', 'std::result::Result::unwrap', 'std::result::Result::expect',
   'std::option::Option::unwrap_unchecked')
def _unwrap(I, st, a, c):
    v = a[0]
    if not isinstance(v, En):
        raise Unsupported('unwrap')
    good = v.v == 1 if v.ty == OPT else v.v == 0
    if not good:
        raise Panic()
    return v.f[0]


@h('std::option::Option::is_some', 'std::result::Result::is_err')
def _is_some(I, st, a, c):
    return bval(dr(I, st, a[0]).v == 1)


@h('std::option::Option::is_none', 'std::result::Result::is_ok')
def _is_none(I, st, a, c):
    return bval(dr(I, st, a[0]).v == 0)


@h('std::option::Option::unwrap_or')
def _unwrap_or(I, st, a, c):
    return a[0].f[0] if a[0].v == 1 else a[1]


@h('std::option::Option::unwrap_or_default')
def _unwrap_or_default(I, st, a, c):
    return a[0].f[0] if a[0].v == 1 else default_of(I, c.dty)


@h('std::option::Option::unwrap_or_else')
def _unwrap_or_else(I, st, a, c):
    return a[0].f[0] if a[0].v == 1 else I.apply(st, a[1], [])


@h('std::option::Option::map', 'std::result::Result::map')
def _omap(I, st, a, c):
    v = a[0]
    good = 1 if v.ty == OPT else 0
    if v.v != good:
        return v
    return outs_map(I.apply(st, a[1], [v.f[0]]), lambda x, s: En(v.ty, good, (x,)))


@h('std::option::Option::and_then')
def _and_then(I, st, a, c):
    return a[0] if a[0].v != 1 else I.apply(st, a[1], [a[0].f[0]])


@h('std::option::Option::map_or')
def _map_or(I, st, a, c):
    return a[1] if a[0].v != 1 else I.apply(st, a[2], [a[0].f[0]])


@h('std::option::Option::is_some_and')
def _is_some_and(I, st, a, c):
    return FALSE if a[0].v != 1 else I.apply(st, a[1], [a[0].f[0]])


@h('std::option::Option::map_or_else')
def _map_or_else(I, st, a, c):
    return I.apply(st, a[1], []) if a[0].v != 1 else I.apply(st, a[2], [a[0].f[0]])


@h('std::option::Option::ok_or')
def _ok_or(I, st, a, c):
    return ok(a[0].f[0]) if a[0].v == 1 else En(RES, 1, (a[1],))


@h('std::result::Result::ok')
def _rok(I, st, a, c):
    return some(a[0].f[0]) if a[0].v == 0 else NONE


@h('std::option::Option::as_ref', 'std::option::Option::as_mut')
def _oas_ref(I, st, a, c):
    r = base_ref(I, st, a[0])
    v = I.read(st, r.cell, r.path)
    return NONE if v.v == 0 else some(Ref(r.cell, r.path + (0,)))


@h('std::option::Option::take')
def _otake(I, st, a, c):
    v = dr(I, st, a[0])
    setref(I, st, a[0], NONE)
    return v


CF = 'std::ops::ControlFlow'


@h('std::ops::Try::branch')
def _branch(I, st, a, c):
    v = a[0]
    good = v.v == 1 if v.ty == OPT else v.v == 0
    if good:
        return En(CF, 0, (v.f[0],))
    return En(CF, 1, (v,))


@h('std::ops::FromResidual::from_residual')
def _residual(I, st, a, c):
    v = a[0]
    if v.ty == OPT:
        return NONE
    return En(RES, 1, v.f)


# ---- strings, formatting ------------------------------------------------------------------

@h('std::string::String::new', 'std::string::String::with_capacity')
def _snew(I, st, a, c):
    return StrV()


def text_of(I, st, v):
    v = dr(I, st, v)
    if isinstance(v, (StrV, Text)):
        return v.parts
    raise Unsupported('text of %s' % type(v).__name__)


@h('std::string::String::push_str')
def _push_str(I, st, a, c):
    s = dr(I, st, a[0])
    setref(I, st, a[0], StrV(s.parts + text_of(I, st, a[1])))
    return UNIT


def chr_text(I, st, v):
    v = dr(I, st, v)
    n = v.const() if isinstance(v, P) else None
    if n is None:
        raise Unsupported('character')
    return (('s', chr(int(n))),)


@h('std::string::String::push')
def _push_ch(I, st, a, c):
    s = dr(I, st, a[0])
    setref(I, st, a[0], StrV(s.parts + chr_text(I, st, a[1])))
    return UNIT


@h('std::string::String::as_str', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::string::String::as_ref',
   'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::borrow::Borrow::borrow', 'std::string::String::into_boxed_str',
   'std::convert::identity', 'std::borrow::BorrowMut::borrow_mut', 'std::str::as_str')
def _deref(I, st, a, c):
    return a[0]


@h('std::string::String::is_empty', 'std::str::is_empty')
def _sis_empty(I, st, a, c):
    p = text_of(I, st, a[0])
    if not p:
        return TRUE
    if any(x[0] == 's' or (x[0] == 'd' and x[1] in ('int', 'term', 'pol', 'point')) for x in p):
        return FALSE
    raise Unsupported('emptiness of text')


@h('std::str::trim_end')
def _trim_end(I, st, a, c):
    p = trim(text_of(I, st, a[0]))
    return I.ref_to(st, StrV(p))


def trim(p):
    p = list(p)
    while p and p[-1][0] == 's':
        t = p[-1][1].rstrip()
        if t:
            p[-1] = ('s', t)
            return tuple(p)
        p.pop()
    if not p or p[-1][0] == 'd':
        return tuple(p)
    if p[-1][0] == 'trim':
        return tuple(p)
    return (('trim', tuple(p)),)


@h('std::str::trim')
def _trim(I, st, a, c):
    p = list(trim(text_of(I, st, a[0])))
    if p and p[0][0] == 's':
        p[0] = ('s', p[0][1].lstrip())
    return I.ref_to(st, StrV(p))


@h('std::str::to_string', 'std::str::to_owned', 'std::string::String::from')
def _str_to_string(I, st, a, c):
    return StrV(text_of(I, st, a[0]))


@h('std::slice::join', 'std::slice::concat')
def _join(I, st, a, c):
    v = dr(I, st, a[0])
    sep = text_of(I, st, a[1]) if len(a) > 1 else ()
    if isinstance(v, Rec):
        items = list(v.f)
    elif isinstance(v, VecV) and all(s[0] == 'it' for s in v.segs):
        items = [s[1] for s in v.segs]
    elif isinstance(v, VecV) and len(v.segs) == 1 and v.segs[0][0] == 'comp':
        s = v.segs[0]
        cases = []
        for g, vs in s[3]:
            if len(vs) != 1:
                raise Unsupported('join of a filtered list')
            cases.append((g, tuple(text_of(I, st, vs[0]))))
        if not sep:
            return StrV((('comp', s[1], s[2], tuple(cases), s[4]),))
        return StrV((('joined', sep, s[1], s[2], tuple(cases), s[4]),))
    else:
        raise Unsupported('join')
    out = ()
    for i, x in enumerate(items):
        if i:
            out += tuple(sep)
        out += tuple(text_of(I, st, x))
    return StrV(out)


def display_outs(I, st, ref, ty):
    """outcomes with StrV: the Display text of the value behind ref"""
    v = dr(I, st, ref)
    if isinstance(v, (StrV, Text)):
        return [Out('ret', StrV(v.parts), st)]
    if isinstance(v, P):
        n = tname(ty)
        if n == 'char':
            return [Out('ret', StrV(chr_text(I, st, v)), st)]
        v = st.norm(v)
        cst = v.const()
        if cst is not None:
            return [Out('ret', StrV((('s', str(int(cst))),)), st)]
        return [Out('ret', StrV((('d', 'int', v),)), st)]
    if isinstance(v, Bool):
        return [Out('ret', StrV((('s', 'true' if st.dec(v.f) else 'false'),)), st)]
    t = tyname_of(v)
    it = find_impl(I, 'std::fmt::Display', t, 'fmt')
    if it is None:
        raise Unsupported('display of %s' % t)
    gr = I.roles.get(it.path)
    if gr is not None and gr[0] not in I.no_role and it.path not in I.no_role and I.stack:
        r = gr[1](I, st, [v, 'display'])
        if r is not None:
            I.roles_used.add(gr[0])
            return r
    cell = I.new_cell(st, Rec('fmt', (StrV(),)))
    outs = I.run_fn(it, [I.ref_to(st, v), Ref(cell)], st)
    return outs_map(outs, lambda x, s: s.c[cell].f[0])


@h('std::fmt::rt::Argument::new_display')
def _new_display(I, st, a, c):
    # formatting is only observable when written: keep the value, format lazily
    return Rec('arg', (a[0], En(str(tname(c.argtys[0]) if c.argtys else None), 0)))


@h('std::fmt::rt::Argument::new_debug', 'std::fmt::rt::Argument::new_lower_hex', 'std::fmt::rt::Argument::new_upper_hex')
def _new_debug(I, st, a, c):
    return Rec('arg', (Opaque('debug format'), En('?', 0)))


@h('std::fmt::rt::Argument::none')
def _arg_none(I, st, a, c):
    return Rec('[]', ())


def decode_template(b):
    """literal pieces and argument indices; None for placeholders with options"""
    out, i, ai = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(('s', b[i:i + n].decode('utf8', 'replace')))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(('s', b[i:i + ln].decode('utf8', 'replace')))
            i += ln
        elif n == 0xC0:
            out.append(('a', ai))
            ai += 1
        else:
            opts = False
            if n & 1:
                i += 4
                opts = True
            if n & 2:
                i += 2
                opts = True
            if n & 4:
                i += 2
                opts = True
            if n & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            out.append(('o' if opts else 'a', ai))
            ai += 1
    return out


@h('std::fmt::Arguments::new', 'std::fmt::rt::new_v1', 'std::fmt::Arguments::new_v1')
def _arguments(I, st, a, c):
    b = dr(I, st, a[0])
    if not (isinstance(b, Rec) and b.ty == 'bytes'):
        raise Unsupported('format template')
    args = dr(I, st, a[1])
    return Rec('fmtargs', (Rec('tmpl', (b.f[0],)), args))


@h('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
def _args_str(I, st, a, c):
    return Rec('fmtargs', (dr(I, st, a[0]), Rec('[]', ())))


def render(I, st, fa):
    """outcomes with StrV text of format arguments"""
    t, args = fa.f
    if isinstance(t, StrV):
        return [Out('ret', StrV(t.parts), st)]
    states = [Out('ret', StrV(), st)]
    for kind, x in decode_template(t.f[0]):
        if kind == 's':
            states = [Out('ret', StrV(o.v.parts + (('s', x),)), o.st) if o.kind == 'ret' else o for o in states]
            continue
        if kind == 'o':
            raise Unsupported('format options')
        arg = args.f[x]
        new = []
        for o in states:
            if o.kind != 'ret':
                new.append(o)
                continue
            for p in display_outs(I, o.st, arg.f[0], {'k': 'adt', 'p': arg.f[1].ty}):
                if p.kind == 'ret':
                    p = Out('ret', StrV(o.v.parts + p.v.parts), p.st)
                new.append(p)
        states = new
    return states


@h('std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_fmt', 'std::io::Write::write_fmt')
def _write_fmt(I, st, a, c):
    tgt = base_ref(I, st, a[0])
    res = []
    for o in render(I, st, a[1]):
        if o.kind == 'ret':
            append_text(I, o.st, tgt, o.v.parts)
            o.v = ok(UNIT)
        res.append(o)
    return res


def append_text(I, st, tgt, parts):
    v = I.read(st, tgt.cell, tgt.path)
    if isinstance(v, StrV):
        I.write(st, tgt.cell, tgt.path, StrV(v.parts + tuple(parts)))
    elif isinstance(v, Rec) and v.ty == 'fmt':
        I.write(st, tgt.cell, tgt.path, Rec('fmt', (StrV(v.f[0].parts + tuple(parts)),)))
    else:
        raise Unsupported('write target')


@h('std::fmt::Formatter::write_str', 'std::fmt::Write::write_str', 'std::fmt::Formatter::pad')
def _write_str(I, st, a, c):
    append_text(I, st, base_ref(I, st, a[0]), text_of(I, st, a[1]))
    return ok(UNIT)


@h('std::fmt::Write::write_char')
def _write_char(I, st, a, c):
    append_text(I, st, base_ref(I, st, a[0]), chr_text(I, st, a[1]))
    return ok(UNIT)


@h('std::string::ToString::to_string')
def _to_string(I, st, a, c):
    return display_outs(I, st, a[0], strip_ref(c.argtys[0]) if c.argtys else None)


@h('std::fmt::Display::fmt')
def _dfmt(I, st, a, c):
    tgt = base_ref(I, st, a[1])
    res = []
    for o in display_outs(I, st, a[0], strip_ref(c.argtys[0]) if c.argtys else None):
        if o.kind == 'ret':
            append_text(I, o.st, tgt, o.v.parts)
            o.v = ok(UNIT)
        res.append(o)
    return res


@h('std::fmt::format', 'std::fmt::fmt::format')
def _format(I, st, a, c):
    return render(I, st, a[0])


@h('std::io::_print', 'std::io::_eprint')
def _print(I, st, a, c):
    return UNIT


@h('std::panicking::panic', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'std::panicking::panic_fmt', 'std::panicking::panic_display',
   'std::panicking::panic_explicit', 'std::panicking::assert_failed', 'std::panicking::unreachable_display', 'std::panicking::panic_str_2015',
   'std::option::expect_failed', 'std::option::unwrap_failed', 'std::panicking::begin_panic')
def _panic(I, st, a, c):
    raise Panic()


# ---- maps, sets, vectors ---------------------------------------------------------------------

def mapref(I, st, v):
    r = base_ref(I, st, v)
    m = I.read(st, r.cell, r.path)
    if not isinstance(m, MapV):
        raise Unsupported('map operation on %s' % type(m).__name__)
    return r, m


@h('std::collections::BTreeMap::new', 'std::collections::btree_map::BTreeMap::new')
def _mnew(I, st, a, c):
    return MapV(ZERO)


@h('std::collections::BTreeMap::clear')
def _mclear(I, st, a, c):
    r, m = mapref(I, st, a[0])
    I.write(st, r.cell, r.path, MapV(ZERO))
    return UNIT


@h('std::collections::BTreeMap::len')
def _mlen(I, st, a, c):
    r, m = mapref(I, st, a[0])
    return I.map_len(st, m)


@h('std::collections::BTreeMap::is_empty')
def _mempty(I, st, a, c):
    r, m = mapref(I, st, a[0])
    return bval(I.map_zero(st, m))


def present(I, st, m, k):
    return st.dec(I.map_has(st, m, k))


def keyarg(I, st, v):
    return I.key_of(dr(I, st, v))


@h('std::collections::BTreeMap::get', 'std::collections::BTreeMap::get_mut')
def _mget(I, st, a, c):
    r, m = mapref(I, st, a[0])
    k = keyarg(I, st, a[1])
    if present(I, st, m, k):
        return some(Ref(r.cell, r.path + (('key', k),)))
    return NONE


@h('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'std::slice::get_unchecked')
def _index(I, st, a, c):
    r = base_ref(I, st, a[0])
    v = I.read(st, r.cell, r.path)
    if isinstance(v, MapV):
        k = keyarg(I, st, a[1])
        if present(I, st, v, k):
            return Ref(r.cell, r.path + (('key', k),))
        raise Panic()
    i = dr(I, st, a[1])
    if not isinstance(i, P):
        raise Unsupported('slice index')
    if isinstance(v, (VecV, Rec, ArrV)):
        I.proj(st, v, ('idx', i))
        return Ref(r.cell, r.path + (('idx', i),))
    raise Unsupported('index of %s' % type(v).__name__)


@h('std::slice::get', 'std::slice::get_mut', 'std::vec::Vec::get', 'std::vec::Vec::get_mut')
def _vget(I, st, a, c):
    r = base_ref(I, st, a[0])
    v = I.read(st, r.cell, r.path)
    i = num(I, st, a[1])
    if not isinstance(v, (VecV, ArrV)):
        raise Unsupported('get')
    if st.dec(lt(i, I.vec_len(v))):
        I.proj(st, v, ('idx', i))
        return some(Ref(r.cell, r.path + (('idx', i),)))
    return NONE


@h('std::slice::first', 'std::vec::Vec::first')
def _vfirst(I, st, a, c):
    return _vget(I, st, [a[0], ZERO], c)


@h('std::slice::last', 'std::vec::Vec::last')
def _vlast(I, st, a, c):
    v = dr(I, st, a[0])
    n = I.vec_len(v)
    if st.dec(eq0(n)):
        return NONE
    return _vget(I, st, [a[0], n - 1], c)


@h('std::slice::swap', 'std::vec::Vec::swap')
def _vswap(I, st, a, c):
    r = base_ref(I, st, a[0])
    i, j = num(I, st, a[1]), num(I, st, a[2])
    v = I.read(st, r.cell, r.path)
    x, y = I.proj(st, v, ('idx', i)), I.proj(st, v, ('idx', j))
    I.write(st, r.cell, r.path + (('idx', i),), y)
    I.write(st, r.cell, r.path + (('idx', j),), x)
    return UNIT


@h('std::collections::BTreeMap::contains_key')
def _mhas(I, st, a, c):
    r, m = mapref(I, st, a[0])
    return bval(present(I, st, m, keyarg(I, st, a[1])))


@h('std::collections::BTreeMap::insert')
def _minsert(I, st, a, c):
    r, m = mapref(I, st, a[0])
    k = I.key_of(dr(I, st, a[1]))
    v = dr(I, st, a[2])
    # the previous value is rarely used: presence is not decided for it
    I.write(st, r.cell, r.path, I.map_set(st, m, k, v))
    return Opaque('previous value')


@h('std::collections::BTreeMap::remove')
def _mremove(I, st, a, c):
    r, m = mapref(I, st, a[0])
    k = keyarg(I, st, a[1])
    m2, old = I.map_remove(st, m, k)
    used = True
    I.write(st, r.cell, r.path, m2)
    if c.dty and st.know(eq0(old)) is False:
        return some(old)
    return Opaque('removed value')


ENTRY = 'std::collections::btree_map::Entry'


@h('std::collections::BTreeMap::entry')
def _mentry(I, st, a, c):
    r, m = mapref(I, st, a[0])
    k = I.key_of(dr(I, st, a[1]))
    return En(ENTRY, 0, (Ref(r.cell, r.path + (('key', k),)),))


def entry_slot(I, st, e):
    ref = e.f[0]
    k = ref.path[-1][1]
    m = I.read(st, ref.cell, ref.path[:-1])
    return ref, k, m


def _entry_or(I, st, a, mk, zero=None):
    ref, k, m = entry_slot(I, st, a[0])
    if zero is not None and (m.zf is False or isinstance(m.zf, Written)) and not m.pend and not m.dirty:
        # stored afterwards either way, and its value is the coefficient
        I.write(st, ref.cell, ref.path[:-1], I.map_set(st, m, k, st.norm(I.coef(st, m.r, k))))
        return ref
    if present(I, st, m, k):
        return ref
    outs = mk(st)
    res = []
    for o in outs:
        if o.kind == 'ret':
            mm = I.read(o.st, ref.cell, ref.path[:-1])
            I.write(o.st, ref.cell, ref.path[:-1], I.map_set(o.st, mm, k, dr(I, o.st, o.v)))
            o.v = ref
        res.append(o)
    return res


@h('std::collections::btree_map::Entry::or_insert')
def _or_insert(I, st, a, c):
    v = dr(I, st, a[1])
    return _entry_or(I, st, a, lambda s: [Out('ret', a[1], s)], True if isinstance(v, P) and v.is_zero() else None)


@h('std::collections::btree_map::Entry::or_insert_with')
def _or_insert_with(I, st, a, c):
    return _entry_or(I, st, a, lambda s: I.apply(s, a[1], []))


@h('std::collections::btree_map::Entry::or_default')
def _or_default(I, st, a, c):
    return _entry_or(I, st, a, lambda s: [Out('ret', ZERO, s)], True)


@h('std::collections::btree_map::Entry::and_modify')
def _and_modify(I, st, a, c):
    ref, k, m = entry_slot(I, st, a[0])
    if not present(I, st, m, k):
        return a[0]
    return outs_map(I.apply(st, a[1], [ref]), lambda v, s: a[0])


def filter_map(I, st, m, guard_of):
    """keep the elements satisfying a guard on their key"""
    if m.pend or m.dirty:
        m = I.clean(st, m)
        if m.dirty or m.pend:
            raise Unsupported('restriction of a map with pending entries')
    uid = ring.fresh()
    g = guard_of(ring.elem_key(uid))
    return ring.mk_sum(('map', m.r), uid, g, ring.map_elem_term(uid))


def klt_formula(I, st, ek, k):
    """order against a fixed key; unknown of the element symbolic"""
    va = ('K', ek.e[1][2])
    vb = I.varkey(st, k)
    return f_or(lt(ek.x, k.x), f_and(eq(ek.x, k.x), lt(ek.y, k.y)),
                f_and(eq(ek.x, k.x), eq(ek.y, k.y), lt(ek.q, k.q)),
                f_and(eq(ek.x, k.x), eq(ek.y, k.y), eq(ek.q, k.q), var_lt(va, vb)))


@h('std::collections::BTreeMap::split_off')
def _split_off(I, st, a, c):
    r, m = mapref(I, st, a[0])
    k = keyarg(I, st, a[1])
    m = I.clean(st, m)
    lo = filter_map(I, st, m, lambda ek: klt_formula(I, st, ek, k))
    I.write(st, r.cell, r.path, MapV(lo, m.zf, (), None, m.rem))
    return MapV(m.r - lo, m.zf)


@h('std::collections::BTreeMap::append', 'std::collections::BTreeMap::extend_')
def _mappend(I, st, a, c):
    raise Unsupported('append')


@h('std::collections::BTreeMap::retain')
def _mretain(I, st, a, c):
    return I.loops.retain(I, st, a, c)


@h('std::collections::BTreeSet::new')
def _setnew(I, st, a, c):
    return SetV()


@h('std::collections::BTreeSet::insert')
def _setinsert(I, st, a, c):
    r = base_ref(I, st, a[0])
    s = I.read(st, r.cell, r.path)
    k = I.key_of(dr(I, st, a[1]))
    I.write(st, r.cell, r.path, SetV(s.parts + ((None, None, True, k),)))
    return Opaque('insert')


@h('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def _vnew(I, st, a, c):
    return VecV()


def vecref(I, st, v):
    r = base_ref(I, st, v)
    m = I.read(st, r.cell, r.path)
    if not isinstance(m, VecV):
        raise Unsupported('vector operation on %s' % type(m).__name__)
    return r, m


@h('std::vec::Vec::push')
def _vpush(I, st, a, c):
    r, v = vecref(I, st, a[0])
    I.write(st, r.cell, r.path, VecV(v.segs + (('it', a[1]),)))
    return UNIT


@h('std::vec::Vec::pop')
def _vpop(I, st, a, c):
    r, v = vecref(I, st, a[0])
    if not v.segs:
        return NONE
    if v.segs[-1][0] != 'it':
        raise Unsupported('pop')
    I.write(st, r.cell, r.path, VecV(v.segs[:-1]))
    return some(v.segs[-1][1])


@h('std::vec::Vec::append', 'std::vec::Vec::extend_from_slice')
def _vappend(I, st, a, c):
    r, v = vecref(I, st, a[0])
    w = dr(I, st, a[1])
    if not isinstance(w, VecV):
        raise Unsupported('append')
    I.write(st, r.cell, r.path, VecV(v.segs + w.segs))
    if c.path.endswith('append'):
        setref(I, st, a[1], VecV())
    return UNIT


@h('std::vec::Vec::len', 'std::slice::len')
def _vlen(I, st, a, c):
    v = dr(I, st, a[0])
    if isinstance(v, Rec):
        return lift(len(v.f))
    if not isinstance(v, (VecV, ArrV)):
        raise Unsupported('len')
    return I.vec_len(v)


@h('std::vec::Vec::is_empty', 'std::slice::is_empty')
def _vis_empty(I, st, a, c):
    v = dr(I, st, a[0])
    return bval(eq0(I.vec_len(v)))


@h('std::vec::Vec::clear')
def _vclear(I, st, a, c):
    r, v = vecref(I, st, a[0])
    I.write(st, r.cell, r.path, VecV())
    return UNIT


@h('std::vec::from_elem')
def _from_elem(I, st, a, c):
    return VecV((('rep', a[0], num(I, st, a[1])),))


@h('std::vec::Vec::reverse', 'std::slice::reverse')
def _vrev(I, st, a, c):
    r, v = vecref(I, st, a[0])
    if not all(s[0] == 'it' for s in v.segs):
        raise Unsupported('reverse')
    I.write(st, r.cell, r.path, VecV(v.segs[::-1]))
    return UNIT


@h('std::boxed::Box::new_uninit')
def _box_uninit(I, st, a, c):
    import interp
    return Ref(I.new_cell(st, interp.UNINIT))


@h('std::boxed::Box::new', 'std::rc::Rc::new')
def _box_new(I, st, a, c):
    return Ref(I.new_cell(st, a[0]))


@h('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::into_vec', 'std::boxed::Box::assume_init')
def _box_vec(I, st, a, c):
    v = dr(I, st, a[0])
    if isinstance(v, Rec):
        return VecV([('it', x) for x in v.f])
    if isinstance(v, VecV):
        return v
    raise Unsupported('vec!')


# ---- iterators --------------------------------------------------------------------------------

def iter_of(I, st, v, mode=None):
    """iterator over a collection value / reference"""
    ref = None
    w = v
    if isinstance(v, Ref):
        ref = base_ref(I, st, v)
        w = I.read(st, ref.cell, ref.path)
    if isinstance(w, IterV):
        return w if ref is None else IterV(('ref', ref), 'own')
    if isinstance(w, MapV):
        w = I.clean(st, w)
        if w.dirty or w.pend:
            raise Unsupported('iteration over a map with possible zero entries')
        if w.zf is not True:
            if isinstance(w.zf, tuple) and w.zf[4] is not None and mode not in ('mut', 'vmut') and not w.rem:
                # every entry of the collection, each with its new value
                _, zc, zu, zg, nv = w.zf
                if st.norm(w.r - ring.mk_sum(zc, zu, True, nv * ring.elem_mono(zu))).is_zero():
                    item = Rec('()', (I.key_val(ring.elem_key(zu)), nv))
                    return IterV(('seg', ('comp', zc, zu, ((True, (item,)),), False)), 'own', src=ref,
                                 stages=(('mapitem', mode or ('kv' if ref is None else 'kvr')),))
            return IterV(('coll', ('map', w.r)), mode or ('kv' if ref is None else 'kvr'), src=ref, end=('zf', False if isinstance(w.zf, Written) else w.zf))
        return IterV(('coll', ('map', w.r)), mode or ('kv' if ref is None else 'kvr'), src=ref)
    if isinstance(w, SetV):
        return IterV(('set', w.parts), mode or ('own' if ref is None else 'ref'), src=ref)
    if isinstance(w, VecV):
        if mode == 'mut' and arr.depth(w) and any(s[0] != 'it' for s in w.segs):
            w = arr.to_arr(I, st, w)
            I.write(st, ref.cell, ref.path, w)
        else:
            return IterV(('vec', w.segs), mode or ('own' if ref is None else 'ref'), src=ref)
    if isinstance(w, ArrV):
        m = mode or ('own' if ref is None else 'ref')
        return IterV(('coll', ('range', ZERO, w.dims[0])), 'own', stages=(('arrat', ref if m == 'mut' else w, m),))
    if isinstance(w, Rec) and w.ty == '[]':
        return IterV(('vec', tuple(('it', x) for x in w.f)), mode or ('own' if ref is None else 'ref'), src=ref)
    if isinstance(w, En) and w.ty == OPT:
        return IterV(('vec', tuple(('it', x) for x in w.f)), 'own')
    if isinstance(w, Rec) and w.ty in ('std::ops::Range', 'core::ops::Range'):
        return range_iter(w.f[0], w.f[1])
    if isinstance(w, Rec) and w.ty in ('std::ops::RangeInclusive', 'core::ops::RangeInclusive'):
        return range_iter(w.f[0], w.f[1] + 1)
    if isinstance(w, Rec) and w.ty in ('std::ops::RangeFrom', 'core::ops::RangeFrom'):
        return IterV(('coll', ('nat',)), 'own', stages=(('shift', w.f[0]),))
    raise Unsupported('iterator over %s' % type(w).__name__)


def range_iter(lo, hi):
    return IterV(('coll', ('range', lo, hi)), 'own')


@h('num_iter::range', 'num_iter::Range::new')
def _nrange(I, st, a, c):
    return range_iter(num(I, st, a[0]), num(I, st, a[1]))


@h('num_iter::range_inclusive')
def _nrangei(I, st, a, c):
    return range_iter(num(I, st, a[0]), num(I, st, a[1]) + 1)


@h('std::ops::RangeInclusive::new')
def _rinc(I, st, a, c):
    return Rec('std::ops::RangeInclusive', (a[0], a[1]))


@h('num_iter::range_step')
def _nrange_step(I, st, a, c):
    raise Unsupported('range_step')


@h('std::iter::IntoIterator::into_iter')
def _into_iter(I, st, a, c):
    if c.argtys:
        t = c.argtys[0]
        if t.get('k') == 'ref' and t.get('m'):
            v = dr(I, st, a[0])
            if isinstance(v, IterV):
                return a[0]
            return iter_of(I, st, a[0], 'mut')
    return iter_of(I, st, a[0])


@h('std::collections::BTreeMap::iter', 'std::collections::BTreeSet::iter', 'std::slice::iter', 'std::vec::Vec::iter', 'std::option::Option::iter',
   'std::array::iter')
def _iter(I, st, a, c):
    return iter_of(I, st, a[0])


@h('std::collections::BTreeMap::iter_mut', 'std::slice::iter_mut', 'std::vec::Vec::iter_mut')
def _iter_mut(I, st, a, c):
    return iter_of(I, st, a[0], 'mut')


@h('std::collections::BTreeMap::keys')
def _keys(I, st, a, c):
    return iter_of(I, st, a[0], 'kr')


@h('std::collections::BTreeMap::values')
def _values(I, st, a, c):
    return iter_of(I, st, a[0], 'vr')


@h('std::collections::BTreeMap::values_mut')
def _values_mut(I, st, a, c):
    return iter_of(I, st, a[0], 'vmut')


@h('std::collections::BTreeMap::into_keys')
def _into_keys(I, st, a, c):
    return iter_of(I, st, a[0], 'k')


@h('std::collections::BTreeMap::into_values')
def _into_values(I, st, a, c):
    return iter_of(I, st, a[0], 'v')


@h('std::vec::Vec::drain')
def _drain(I, st, a, c):
    raise Unsupported('drain')


@h('std::iter::Iterator::rev')
def _rev(I, st, a, c):
    it = a[0] if isinstance(a[0], IterV) else iter_of(I, st, a[0])
    if any(s_[0] not in ('map', 'filter', 'filter_map', 'cloned', 'copied', 'inspect', 'fuse') for s_ in it.stages):
        raise Unsupported('reversal of an iterator with position-dependent stages')
    return it.with_(rev=not it.rev)


def _stage(name, ref=False):
    def f(I, st, a, c):
        it = a[0] if isinstance(a[0], IterV) else iter_of(I, st, a[0])
        return it.with_(stages=it.stages + ((name,) + tuple(a[1:]),))
    return f


for _n in ('map', 'filter', 'filter_map', 'cloned', 'copied', 'enumerate', 'inspect', 'take_while', 'skip_while', 'map_while', 'flat_map',
           'take', 'skip', 'step_by', 'peekable_', 'fuse'):
    H['std::iter::Iterator::' + _n] = _stage(_n)


@h('std::iter::Iterator::chain')
def _chain(I, st, a, c):
    x = a[0]
    y = a[1] if isinstance(a[1], IterV) else iter_of(I, st, a[1])
    return IterV(('chain', x, y), 'own')


@h('std::iter::once')
def _once(I, st, a, c):
    return IterV(('vec', (('it', a[0]),)), 'own')


@h('std::iter::empty')
def _empty(I, st, a, c):
    return IterV(('vec', ()), 'own')


@h('std::iter::Iterator::zip')
def _zip(I, st, a, c):
    y = a[1] if isinstance(a[1], IterV) else iter_of(I, st, a[1])
    return IterV(('zip', a[0], y), 'own')


@h('std::iter::Iterator::by_ref')
def _by_ref(I, st, a, c):
    return a[0]


def cellkey(I, st, k):
    return I.ref_to(st, I.key_val(k))


def present_entry(I, st, how, v):
    k, x = v.f
    if how == 'kvr':
        return Rec('()', (I.ref_to(st, k), I.ref_to(st, x)))
    if how == 'kv':
        return v
    if how in ('kr', 'vr'):
        return I.ref_to(st, k if how == 'kr' else x)
    return k if how == 'k' else x


def present_map_elem(I, st, how, key, val, src, uid):
    """value handed out for a map element"""
    def kref():
        return I.ref_to(st, I.key_val(key))

    def vref():
        return I.ref_to(st, val)
    if how == 'kvr':
        return Rec('()', (kref(), vref()))
    if how == 'kv':
        return Rec('()', (I.key_val(key), val))
    if how == 'mut':
        return Rec('()', (kref(), Ref(src.cell, src.path + (('elv', uid),))))
    if how == 'kr':
        return kref()
    if how == 'vr':
        return vref()
    if how == 'k':
        return I.key_val(key)
    if how == 'v':
        return val
    if how == 'vmut':
        return Ref(src.cell, src.path + (('elv', uid),))
    raise Unsupported('map iteration ' + str(how))


def built_elem(coll, uid):
    if coll[3] == 'pt':
        return Rec(ECP, tuple(ring.bv(uid, c) for c in 'xyz'))
    return ring.bv(uid, 'e')


SHAPES = {'mu': built_elem}     # collection name -> (uid -> value)


def coll_elem_value(coll, uid):
    """value of the generic element of an abstract collection"""
    if coll[0] == 'range' or coll[0] == 'nat':
        return ring.bv(uid, 'e')
    sh = SHAPES.get(coll[:2]) or SHAPES.get(coll[0])
    if sh is None:
        raise Unsupported('element of %s' % (coll[0],))
    return sh(coll, uid)


def elem_facts(I, st, coll, uid):
    """facts about the generic element"""
    if coll[0] == 'range':
        e = ring.bv(uid, 'e')
        st.assume(le(coll[1], e))
        st.assume(lt(e, coll[2]))
    elif coll[0] == 'nat':
        st.assume(ge0(ring.bv(uid, 'e')))
    elif coll[0] == 'map':
        R = coll[1]
        s = R.single()
        if s is not None:
            sc, rr = ring.split_mono(s[1])
            ex = ring.explicit_key(rr)
            if ex is not None:
                # a single known monomial
                x, y, q, vs = ex
                for comp, v in (('kx', x), ('ky', y), ('kq', q), ('val', P({sc: s[0]}))):
                    st.assume(eq(ring.bv(uid, comp), v))
                kv = ('bv', uid, 'kv')
                if not vs:
                    st.assume(('lit', ('b', 'empty', kv), True))
                else:
                    k = nf.atom_key(vs[0][0])
                    if k[0] == 'V':
                        st.assume(('lit', ('b', 'empty', kv), False))
                        st.assume(eq(atom(('vi', kv)), k[1]))
                        st.assume(eq(atom(('vj', kv)), k[2]))
    inst_ex(I, st, coll, uid)


def inst_ex(I, st, coll, uid):
    """negative existentials about the collection hold for the element"""
    for key, v in st.facts.lits:
        if key[0] == 'ex' and not v and key[1] == coll:
            r = st.facts.add(f_not(ring.open_ex(key, uid)))
            if not r:
                raise Infeasible()
            if len(r) == 1:
                # (a case split on a bound element would not end)
                st.facts = r[0]


def next_explicit(I, st, ref, it):
    """next on an iterator that is not driven generically"""
    b = it.base
    if b[0] == 'vec' and all(s[0] == 'it' for s in b[1]):
        items = [s[1] for s in b[1]]
        n = len(items)
        lo, hi = it.pos, n - it.end
        if lo >= hi:
            return NONE, it
        if it.rev:
            v = items[hi - 1]
            idx = hi - 1
            it2 = it.with_(end=it.end + 1)
        else:
            v = items[lo]
            idx = lo
            it2 = it.with_(pos=lo + 1)
        if it.elem == 'ref':
            v = I.ref_to(st, v)
        elif it.elem == 'mut':
            v = Ref(it.src.cell, it.src.path + (('idx', lift(idx)),))
        return some(v), it2
    if b[0] == 'coll' and b[1][0] == 'range':
        lo, hi = b[1][1], b[1][2]
        if not st.dec(lt(lo, hi)):
            return NONE, it
        if it.rev:
            return some(hi - 1), it.with_(base=('coll', ('range', lo, hi - 1)))
        return some(lo), it.with_(base=('coll', ('range', lo + 1, hi)))
    if b[0] == 'coll' and b[1][0] == 'nat':
        raise Unsupported('unbounded iterator')
    if b[0] == 'coll' and b[1][0] == 'map' and it.pos == 0:
        R = st.norm(b[1][1])
        if isinstance(it.end, tuple):
            raise Unsupported('first element of a map with possible zeros')
        if st.dec(ring.mk_rz(R)):
            return NONE, it
        uid = ('ext', 'last' if it.rev else 'first', R)
        coll = ('map', R)
        reg_elem(uid, coll)
        elem_facts(I, st, coll, uid)
        st.assume(f_not(eq0(ring.bv(uid, 'val'))))
        v = present_map_elem(I, st, it.elem, ring.elem_key(uid), st.norm(ring.bv(uid, 'val')), it.src, uid)
        return some(v), it.with_(pos=1)
    if b[0] == 'chain':
        raise Unsupported('chained iterator')
    raise Unsupported('next on %s' % (b[0],))


def reg_elem(uid, coll):
    import interp
    interp.ELEMS[uid] = coll
    if coll[0] == 'map':
        interp.BYMAP.setdefault(coll[1], []).append(uid)


@h('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def _next(I, st, a, c):
    ref = base_ref(I, st, a[0])
    it = I.read(st, ref.cell, ref.path)
    if not isinstance(it, IterV):
        raise Unsupported('next on %s' % type(it).__name__)
    if it.base[0] == 'ref':
        ref = it.base[1]
        it = I.read(st, ref.cell, ref.path)
    back = c.path.endswith('next_back')
    if isinstance(it.pos, tuple) and it.pos[0] in ('gen', 'cons', 'probe', 'end'):
        return I.loops.gen_next(I, st, ref, it, back)
    if it.stages:
        return I.loops.staged_next(I, st, ref, it, back)
    j = it.with_(rev=not it.rev) if back else it
    v, j2 = next_explicit(I, st, ref, j)
    I.write(st, ref.cell, ref.path, j2.with_(rev=not j2.rev) if back else j2)
    return v


def vec_elem(I, st, coll, idx):
    """element of an abstract vector at an index"""
    sh = SHAPES.get(coll[:2]) or SHAPES.get(coll[0])
    if sh is None:
        raise Unsupported('element of an abstract vector')
    uid = ('at', coll[1], st.norm(idx))
    return sh(coll, uid)


def _consumer(name):
    def f(I, st, a, c):
        return I.loops.consume(I, st, name, a, c)
    return f


for _n in ('collect', 'sum', 'product', 'fold', 'any', 'all', 'count', 'for_each', 'find', 'find_map', 'position', 'max', 'min', 'last', 'nth',
           'max_by_key', 'min_by_key', 'max_by', 'min_by', 'try_fold', 'partition', 'unzip', 'try_for_each'):
    H['std::iter::Iterator::' + _n] = _consumer(_n)
H['std::slice::contains'] = _consumer('contains')
H['std::iter::FromIterator::from_iter'] = _consumer('collect')
H['std::iter::Extend::extend'] = _consumer('extend')
H['std::vec::Vec::extend'] = _consumer('extend')


@h('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def _fn_call(I, st, a, c):
    args = list(a[1].f) if isinstance(a[1], Rec) else []
    return I.apply(st, a[0], args)


@h('std::hint::must_use')
def _must_use(I, st, a, c):
    return a[0]


# ---- further parts of std that an edit may bring in

def _end_kv(back):
    def f(I, st, a, c):
        it = iter_of(I, st, a[0])
        cell = I.new_cell(st, it.with_(rev=not it.rev) if back else it)
        return _next(I, st, [Ref(cell)], _Fwd)
    return f


class _Fwd:
    path = 'std::iter::Iterator::next'


H['std::collections::BTreeMap::first_key_value'] = _end_kv(False)
H['std::collections::BTreeMap::last_key_value'] = _end_kv(True)


@h('std::num::is_positive')
def _npos(I, st, a, c):
    return bval(lt0(-num(I, st, a[0])))


@h('std::num::is_negative')
def _nneg(I, st, a, c):
    return bval(lt0(num(I, st, a[0])))


@h('std::num::abs_diff')
def _absdiff(I, st, a, c):
    x = num(I, st, a[0]) - num(I, st, a[1])
    return -x if st.dec(lt0(x)) else x


@h('std::num::div_euclid', 'num_traits::Euclid::div_euclid')
def _div_euclid(I, st, a, c):
    x, y = num(I, st, a[0]), num(I, st, a[1])
    if st.dec(eq0(y)):
        raise Panic()
    if st.dec(lt0(y)):
        return -ring.mk_fdiv(x, -y)
    return ring.mk_fdiv(x, y)


def _sat(op):
    def f(I, st, a, c):
        v = op(num(I, st, a[0]), num(I, st, a[1]))
        ty = strip_ref(c.argtys[0]) if c.argtys else None
        if ty and ty.get('n', 'i')[0] == 'u' and st.dec(lt0(v)):
            return ZERO
        return v
    return f


for _n, _f in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mul', lambda x, y: x * y)):
    H['std::num::saturating_' + _n] = _sat(_f)


def _chk(op):
    def f(I, st, a, c):
        v = op(num(I, st, a[0]), num(I, st, a[1]))
        ty = strip_ref(c.argtys[0]) if c.argtys else None
        if ty and ty.get('n', 'i')[0] == 'u' and st.dec(lt0(v)):
            return NONE
        return some(v)
    return f


for _n, _f in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mul', lambda x, y: x * y)):
    for _p in ('std::num::checked_', 'num_traits::Checked%s::checked_' % _n.capitalize()):
        H[_p + _n] = _chk(_f)


@h('std::option::Option::filter')
def _ofilter(I, st, a, c):
    if a[0].v != 1:
        return a[0]
    v = a[0].f[0]
    res = []
    for o in I.apply(st, a[1], [I.ref_to(st, v)]):
        if o.kind != 'ret':
            res.append(o)
            continue
        for t, s2 in I.loops.both(I, o.st, o.v):
            res.append(Out('ret', some(v) if t else NONE, s2))
    return res


@h('std::option::Option::or')
def _oor(I, st, a, c):
    return a[0] if a[0].v == 1 else a[1]


@h('std::option::Option::or_else')
def _oorelse(I, st, a, c):
    return a[0] if a[0].v == 1 else I.apply(st, a[1], [])


@h('std::option::Option::flatten')
def _oflat(I, st, a, c):
    return a[0] if a[0].v != 1 else a[0].f[0]


@h('std::option::Option::zip')
def _ozip(I, st, a, c):
    return some(Rec('()', (a[0].f[0], a[1].f[0]))) if a[0].v == 1 and a[1].v == 1 else NONE


@h('std::result::Result::unwrap_or')
def _runwrap_or(I, st, a, c):
    return a[0].f[0] if a[0].v == 0 else a[1]


@h('num_traits::Zero::set_zero')
def _set_zero(I, st, a, c):
    r = base_ref(I, st, a[0])
    if not isinstance(I.read(st, r.cell, r.path), P):
        raise Unsupported('set_zero')
    I.write(st, r.cell, r.path, ZERO)
    return UNIT


@h('num_traits::One::set_one')
def _set_one(I, st, a, c):
    r = base_ref(I, st, a[0])
    if not isinstance(I.read(st, r.cell, r.path), P):
        raise Unsupported('set_one')
    I.write(st, r.cell, r.path, ONE)
    return UNIT


def _plain(I, st, a):
    r, v = vecref(I, st, a)
    if not isinstance(v, VecV) or any(s[0] != 'it' for s in v.segs):
        raise Unsupported('editing a vector of unknown length')
    return r, v


def _pos(I, st, x, n):
    i = st.norm(num(I, st, x)).const()
    if i is None:
        raise Unsupported('symbolic position')
    if not 0 <= i < n:
        raise Panic()
    return int(i)


@h('std::vec::Vec::remove')
def _vremove(I, st, a, c):
    r, v = _plain(I, st, a[0])
    i = _pos(I, st, a[1], len(v.segs))
    I.write(st, r.cell, r.path, VecV(v.segs[:i] + v.segs[i + 1:]))
    return v.segs[i][1]


@h('std::vec::Vec::insert')
def _vinsert(I, st, a, c):
    r, v = _plain(I, st, a[0])
    i = _pos(I, st, a[1], len(v.segs) + 1)
    I.write(st, r.cell, r.path, VecV(v.segs[:i] + (('it', a[2]),) + v.segs[i:]))
    return UNIT


@h('std::vec::Vec::truncate')
def _vtrunc(I, st, a, c):
    r, v = _plain(I, st, a[0])
    n = st.norm(num(I, st, a[1])).const()
    if n is None:
        raise Unsupported('symbolic length')
    I.write(st, r.cell, r.path, VecV(v.segs[:int(n)]))
    return UNIT
