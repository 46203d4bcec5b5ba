"""Symbolic arguments by type."""
from nf import *
import nf
from facts import *
import ring
from values import *


def mono_sym(n):
    kv = ('n', n)
    return Rec(MONO, (atom(('v', n + '.x')), atom(('v', n + '.y')), atom(('v', n + '.q')),
                      Rec(SV, (atom(('vi', kv)), atom(('vj', kv)), Bool(('lit', ('b', 'empty', kv), True))))))


def term_sym(n):
    return Rec(TERM, (atom(('v', n + '.c')), mono_sym(n)))


def poly_sym(n):
    return Rec(POLY, (MapV(atom(('pol', n))),))


def point_sym(n):
    return Rec(ECP, tuple(atom(('v', n + c)) for c in ('.x', '.y', '.z')))


def curve_sym(n='E', ring_pol=None):
    a, b, p = (atom(('v', n + '.' + c)) for c in 'abp')
    pol = power(ring.X, 3) + a * ring.X + b
    return Rec(EC, (a, b, p, Rec(POLY, (MapV(pol),)), vec_sym(n, {'k': 'adt', 'p': ECP})))


def by_type(I, st, ty, n):
    k = ty.get('k')
    if k == 'ref':
        return I.ref_to(st, by_type(I, st, ty['t'], n))
    if k == 'int':
        v = atom(('v', n))
        if ty['n'][0] == 'u':
            st.assume(ge0(v))
        return v
    if k == 'bool':
        return Bool(('lit', ('b', 'in', n), True))
    if k == 'adt':
        p = ty['p']
        if p.endswith('BigInt'):
            return atom(('v', n))
        if p == MONO:
            return mono_sym(n)
        if p == TERM:
            return term_sym(n)
        if p == POLY:
            return poly_sym(n)
        if p == ECP:
            return point_sym(n)
        if p == EC:
            return curve_sym(n)
        if p == SV:
            return mono_sym(n).f[3]
        if p == 'term_builder::TermBuilder':
            m = mono_sym(n)
            return Rec(p, (atom(('v', n + '.c')),) + m.f)
        if p == 'subscripted_variable::SubscriptedVariableConverter':
            return Rec(p, (atom(('v', n + '.p')),))
        if p.endswith('vec::Vec'):
            e = ty['a'][0]
            if e.get('p', '').endswith('vec::Vec'):
                r, c = atom(('v', n + '.rows')), atom(('v', n + '.cols'))
                st.assume(ge0(r))
                st.assume(ge0(c))
                return ArrV(atom(('ain', n)), (r, c))
            return vec_sym(n, e)
        if p == 'elliptic_curve::ECPointVec':
            return Rec(p, (vec_sym(n, {'k': 'adt', 'p': ECP}),))
    raise Unsupported('argument type %s' % (ty,))


VECTY = {}


def vec_sym(n, ety):
    shape(ety, ring.bv(0, 'x'))
    VECTY[n] = ety
    import models
    models.SHAPES[('vec', n)] = lambda coll, uid: elem_sym(ety, uid)
    return VecV((('base', ('vec', n, comps(ety))),))


def comps(ety):
    p = ety.get('p', '')
    if p == POLY:
        return ('r',)
    if p == ECP:
        return ('x', 'y', 'z')
    if p == 'bigint::ModResult':
        return ('l', 'm')
    if p.endswith('BigInt') or ety.get('k') == 'int':
        return ('e',)
    raise Unsupported('vector of %s' % (ety,))


def shape(ety, x):
    return comps(ety)


def elem_sym(ety, uid):
    p = ety.get('p', '')
    b = lambda c: ring.bv(uid, c)
    if p == POLY:
        return Rec(POLY, (MapV(b('r')),))
    if p == ECP:
        return Rec(ECP, (b('x'), b('y'), b('z')))
    if p == 'bigint::ModResult':
        return Rec(p, (b('l'), b('m')))
    return b('e')


def elem_conc(ety, v, i):
    p = ety.get('p', '')
    d = {'pos': i, 'self': v}
    if p == POLY:
        import evalnf
        d['r'] = evalnf.CP({(x, y, q, () if u is None else ((u, 1),)): c for (x, y, q, u), c in v.items()})
        d['self'] = (v,)
    elif p == ECP:
        d['x'], d['y'], d['z'] = v
    elif p == 'bigint::ModResult':
        d['l'], d['m'] = v
    else:
        d['e'] = v
    return d


def vec_elems(env, coll):
    n = coll[1]
    ety = VECTY[n]
    for i, v in enumerate(env.lists[n]):
        yield elem_conc(ety, v, i)
