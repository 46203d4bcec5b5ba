"""Rectangular arrays of numbers written by index.

An array is a normal-form atom, so that substitution and renaming apply to it as to any number:
  ('ain', name)                    an argument
  ('alit', items)                  the listed items (numbers, or arrays: the rows)
  ('arep', item, n)                n times the item
  ('acomp', coll, guard?, item, n) one item per element of a collection (bound element ('bb', n))
  ('acat', parts)                  concatenation
  ('asto', A, idxs, val)           A with the value (or row) at idxs replaced
  ('arow', A, i)                   row i of A
  ('afor', A, coll, rev, cases, n) A after, for each element of the collection in order, the case that
                                   applies has been carried out; the array so far is the atom ('hole', n)
  ('aapp', name, A)                an operation known by its name only
and ('aget', A, i..) is the number at an index."""
from facts import *
from values import *
import ring
import nf


def head(a):
    return nf.atom_key(a.as_atom())[0] if a.as_atom() is not None else None


def key(a):
    return nf.atom_key(a.as_atom())


def scalar(v):
    return isinstance(v, P) and not ring.is_ring(v)


def depth(v):
    """0 for a number, n for an n-dimensional array, None otherwise"""
    if isinstance(v, P):
        return None if ring.is_ring(v) else 0
    if isinstance(v, ArrV):
        return len(v.dims)
    if isinstance(v, VecV):
        d = None
        for s in v.segs:
            if s[0] in ('it', 'rep'):
                e = depth(s[1])
            elif s[0] == 'comp' and all(len(vs) == 1 for g, vs in s[3]):
                es = {depth(vs[0]) for g, vs in s[3]}
                e = es.pop() if len(es) == 1 else None
            elif s[0] == 'base' and tuple(s[1][2]) == ('e',):
                e = 0
            else:
                return None
            if e is None or d is not None and e != d:
                return None
            d = e
        return None if d is None else d + 1
    return None


def term(I, st, v):
    """(term, dims) of a number or array"""
    if isinstance(v, P):
        return st.norm(v), ()
    w = to_arr(I, st, v)
    return w.a, w.dims


def always(st, coll, uid, g):
    """does g hold for every element of the collection, by what is known of all of them?"""
    if g is True:
        return True
    cur = [st.facts]
    e = ring.bv(uid, 'e')
    if coll[0] == 'range':
        for f in (le(coll[1], e), lt(e, coll[2])):
            cur = [y for c in cur for y in c.add(f)]
    for k, v in st.facts.lits:
        if k[0] == 'ex' and v is False and k[1] == coll:
            h = ring.rename_bound(k[2], ('bb', k[3]), ('bv', uid))
            cur = [y for c in cur for y in c.add(f_not(h))]
    return all(c.decide(g) is True for c in cur)


def to_arr(I, st, v):
    if isinstance(v, ArrV):
        return v
    if not isinstance(v, VecV) or not depth(v):
        raise Unsupported('not an array of numbers')
    import loops
    parts = []
    total = ZERO
    inner = None

    def same(d):
        nonlocal inner
        if inner is None:
            inner = d
        elif len(d) != len(inner) or any(st.norm(x - y) != ZERO for x, y in zip(d, inner)):
            raise Unsupported('rows of different lengths')
    run = []
    for s in v.segs:
        if s[0] == 'it':
            t, d = term(I, st, s[1])
            same(d)
            run.append(t)
        else:
            if run:
                parts.append(atom(('alit', tuple(run))))
                run = []
            if s[0] == 'rep':
                t, d = term(I, st, s[1])
                same(d)
                parts.append(atom(('arep', t, s[2])))
            elif s[0] == 'base':
                same(())
                parts.append(atom(('ain', s[1][1])))
            else:
                if not always(st, s[1], s[2], f_or(*[g for g, vs in s[3]])):
                    raise Unsupported('array of chosen elements')
                cs = []
                for g, vs in s[3]:
                    t, d = term(I, st, vs[0])
                    if any(ring.mentions(x, 'bv', s[2]) for x in d):
                        raise Unsupported('rows of different lengths')
                    if loops.witnesses((t, g), s[2]):
                        raise Unsupported('array of searched elements')
                    same(d)
                    cs.append((g, t))
                n = 1 + ring.bb_level(s[1], *[x for g, t in cs for x in (t, g if isinstance(g, tuple) else ())])

                def ren(x):
                    return x if isinstance(x, bool) else ring.rename_bound(x, ('bv', s[2]), ('bb', n))
                if len(cs) == 1:
                    parts.append(atom(('acomp', s[1], bool(s[4]), ren(cs[0][1]), n)))
                elif s[1][0] == 'range':
                    z = ZERO
                    for x in inner[::-1]:
                        z = atom(('arep', z, x))
                    e = atom(('bb', n, 'e'))
                    i = s[1][2] - 1 - e if s[4] else e - s[1][1]
                    out = tuple((ren(g), atom(('asto', atom(('hole', n)), (i,), ren(t))), ()) for g, t in cs)
                    parts.append(atom(('afor', atom(('arep', z, s[1][2] - s[1][1])), s[1], bool(s[4]), out, n)))
                else:
                    raise Unsupported('array of chosen elements')
        total = total + I.seg_len(s)
    if run:
        parts.append(atom(('alit', tuple(run))))
    a = parts[0] if len(parts) == 1 else atom(('acat', tuple(parts)))
    return ArrV(a, (st.norm(total),) + tuple(inner or ()))


def check(st, i, n):
    from interp import Panic
    i = st.norm(i)
    if not st.dec(lt(i, n)):
        raise Panic()
    if st.know(lt0(i)) is not False and st.dec(lt0(i)):
        raise Panic()
    return i


def row_of(a, i):
    k = key(a)
    if k[0] == 'arep':
        return k[1]
    return atom(('arow', a, i))


def flat(a, idxs):
    idxs = list(idxs)
    while head(a) == 'arow':
        k = key(a)
        a, idxs = k[1], [k[2]] + idxs
    return a, tuple(idxs)


def same_index(st, xs, ys):
    """True / False / None over the common prefix"""
    r = True
    for x, y in zip(xs, ys):
        k = st.know(eq(x, y))
        if k is False:
            return False
        if k is None:
            r = None
    return r


def get(I, st, v, i):
    """element (number or row) of an array"""
    i = check(st, i, v.dims[0])
    if len(v.dims) > 1:
        return ArrV(atom(('arow', v.a, i)), v.dims[1:])
    a, idxs = flat(v.a, (i,))
    while True:
        k = key(a)
        if k[0] == 'asto':
            s = same_index(st, k[2], idxs)
            if s is False:
                a = k[1]
                continue
            if s is True:
                rest = idxs[len(k[2]):]
                if not rest:
                    return st.norm(k[3])
                if len(k[2]) < len(idxs) and rest:
                    a, idxs = flat(k[3], rest)
                    continue
            break
        if k[0] == 'arep':
            if len(idxs) == 1:
                return st.norm(k[1])
            a, idxs = flat(k[1], idxs[1:])
            continue
        if k[0] == 'alit' and st.norm(idxs[0]).const() is not None and 0 <= int(st.norm(idxs[0]).const()) < len(k[1]):
            x = k[1][int(st.norm(idxs[0]).const())]
            if len(idxs) == 1:
                return st.norm(x)
            a, idxs = flat(x, idxs[1:])
            continue
        if k[0] == 'acomp' and k[1][0] == 'range':
            e = k[1][1] + idxs[0] if not k[2] else k[1][2] - 1 - idxs[0]
            x = nf.subst(k[3], {nf.atom_id(('bb', k[4], 'e')): e})
            if len(idxs) == 1:
                return st.norm(x)
            a, idxs = flat(x, idxs[1:])
            continue
        break
    return atom(('aget', a, idxs))


def put(I, st, v, idxs, val):
    """the array with the element or row at idxs replaced"""
    idxs = tuple(check(st, i, n) for i, n in zip(idxs, v.dims))
    t, d = term(I, st, val)
    if len(d) != len(v.dims) - len(idxs):
        raise Unsupported('array write')
    for x, y in zip(d, v.dims[len(idxs):]):
        if st.norm(x - y) != ZERO:
            raise Unsupported('rows of different lengths')
    if not d and ring.is_ring(t):
        raise Unsupported('array write')
    k = key(v.a)
    a = v.a
    if k[0] == 'asto' and len(k[2]) >= len(idxs) and same_index(st, k[2], idxs) is True and len(k[2]) == len(idxs):
        a = k[1]
    return ArrV(atom(('asto', a, idxs, t)), v.dims)


def sequence(coll):
    return coll[0] in ('range',)


def solve_array(I, base, s, uid, coll, rev, sl, init, cases, Unsolved, has_mu, disjoint):
    """the array after a loop that only writes to it: every round carries out its own writes"""
    mu = atom(('mu', uid, sl.name()))
    v0 = to_arr(I, s, init)
    cs = []
    for g, m, v, st in cases:
        if m:
            raise Unsolved('write depends on carried values')
        w = to_arr(I, st, v)
        for x, y in zip(w.dims, v0.dims):
            if st.norm(x - y) != ZERO:
                raise Unsolved('array length changes')
        only_written(w.a, mu, uid, Unsolved)
        cs.append((g, w.a))
    for i in range(len(cs)):
        for j in range(i):
            if cs[i][1] != cs[j][1] and not disjoint(base, cs[i][0], cs[j][0]):
                raise Unsolved('several writes apply')
    cs = [(g, a) for g, a in cs if a != mu]
    if not cs:
        return init, v0.a
    from loops import witnesses
    from interp import ELEMS
    low = ring.bb_level(coll, *[x for g, a in cs for x in (g if isinstance(g, tuple) else (), a)])
    ws = [witnesses((g, a), uid) for g, a in cs]
    low = max([low] + [ring.bb_level(ELEMS[w]) for x in ws for w in x])
    n = 1 + low + max(len(x) for x in ws)
    hole = atom(('hole', n))
    mp = {nf.atom_id(('mu', uid, sl.name())): hole}
    out = []
    for (g, a), us in zip(cs, ws):
        a = nf.subst(a, mp)
        # the element of the collection, and the elements chosen by searches inside the body
        names = [(uid, n)] + [(w, low + 1 + i) for i, w in enumerate(us)]

        def ren(x):
            for u, m in names:
                x = ring.rename_bound(x, ('bv', u), ('bb', m))
            return x
        out.append((g if isinstance(g, bool) else ren(g), ren(a), tuple((m, ren(ELEMS[u])) for u, m in names[1:])))
    def over(c):
        return atom(('afor', v0.a, c, bool(rev), tuple(out), n))
    from loops import prefix_coll
    pc = ('range', ZERO, ring.bv(uid, 'pos')) if coll[0] == 'nat' else prefix_coll(coll, uid, rev)
    return ArrV(over(coll), v0.dims), None if pc is None else over(pc)


def only_written(a, mu, uid, Unsolved):
    """is the carried array used only as the array written to, or read where it is then written?"""
    while True:
        if a == mu:
            return
        k = key(a)
        if k[0] == 'asto':
            own = nf.subst(k[3], {nf.atom_id(('aget', k[1], k[2])): ZERO})
            idx = any(linear(i, uid) for i in k[2])
            use = k[3] if not idx else own
            if ring.mentions(use, 'mu', uid) or any(ring.mentions(i, 'mu', uid) for i in k[2]):
                raise Unsolved('write depends on carried values')
            a = k[1]
        elif k[0] == 'afor':
            rest = (k[2], k[4])
            if ring.mentions(rest, 'mu', uid):
                raise Unsolved('write depends on carried values')
            a = k[1]
        else:
            raise Unsolved('array replaced')


def linear(i, uid):
    """index that is different in every round of a loop over a range"""
    e = nf.atom_id(('bv', uid, 'e'))
    c = None
    for m, k in i.t.items():
        if any(a == e for a, x in m):
            if m != ((e, 1),):
                return False
            c = k
        elif ring.mentions(P({m: 1}), 'bv', uid):
            return False
    return c is not None and c != 0


# -- evaluation ------------------------------------------------------------------------------

def ev(env, a):
    """nested list"""
    i = a.as_atom()
    v = env.memo.get(('arr', i))
    return v if v is not None else env.remember(('arr', i), i, lambda k: ev_key(env, k))


def ev_key(env, k):
    from evalnf import EvalUnknown
    h = k[0]
    if h == 'ain':
        return env.lists[k[1]]
    if h == 'mu':
        if k[1:] in env.mus:
            return env.mus[k[1:]]
        raise EvalUnknown('carried array')
    if h == 'hole':
        v = env.read(('hole', k[1]))
        if v is None:
            raise EvalUnknown('array')
        return v
    if h == 'alit':
        return [item(env, x) for x in k[1]]
    if h == 'arep':
        return [item(env, k[1])] * env.n(k[2])
    if h == 'acat':
        return [x for p in k[1] for x in ev(env, p)]
    if h == 'arow':
        return at(ev(env, k[1]), env.n(k[2]))
    if h == 'acomp':
        out = []
        sv = env.bound.get(('bb', k[4]))
        els = list(env.elems(k[1]))
        for el in (els[::-1] if k[2] else els):
            env.bound[('bb', k[4])] = el
            out.append(item(env, k[3]))
        env.restore('bb', k[4], sv)
        return out
    if h == 'asto':
        return store(ev(env, k[1]), [env.n(i) for i in k[2]], item(env, k[3]))
    if h == 'afor':
        cur = ev(env, k[1])
        n = k[5]
        sv, sh = env.bound.get(('bb', n)), env.bound.get(('hole', n))
        els = list(env.elems(k[2]))
        try:
            for el in (els[::-1] if k[3] else els):
                env.bound[('bb', n)] = el
                env.bound[('hole', n)] = cur
                for g, b, ws in k[4]:
                    r = chosen(env, g, b, ws)
                    if r is not None:
                        cur = r
                        break
        finally:
            env.restore('bb', n, sv)
            env.restore('hole', n, sh)
        return cur
    if h == 'aapp':
        f = env.apps.get(k[1])
        if f is None:
            raise EvalUnknown('operation ' + k[1])
        return f(env, k)
    raise EvalUnknown('array ' + str(h))


def chosen(env, g, b, ws):
    if not ws:
        return ev(env, b) if env.f(g) else None
    m, coll = ws[0]
    sv = env.bound.get(('bb', m))
    try:
        for el in env.elems(coll):
            env.bound[('bb', m)] = el
            r = chosen(env, g, b, ws[1:])
            if r is not None:
                return r
    finally:
        env.restore('bb', m, sv)
    return None


def at(ls, i):
    from evalnf import EvalUnknown
    if not isinstance(ls, list) or not 0 <= i < len(ls):
        raise EvalUnknown('index')
    return ls[i]


def item(env, x):
    if x.as_atom() is not None and head(x) in HEADS:
        return ev(env, x)
    if x.as_atom() is not None and head(x) in ('mu', 'hole'):
        try:
            v = ev(env, x)
            if isinstance(v, list):
                return v
        except KeyError:
            pass
    return env.n(x)


HEADS = ('ain', 'alit', 'arep', 'acat', 'arow', 'acomp', 'asto', 'afor', 'aapp')


def store(ls, idxs, v):
    from evalnf import EvalUnknown
    if not isinstance(ls, list) or not 0 <= idxs[0] < len(ls):
        raise EvalUnknown('index')
    out = list(ls)
    out[idxs[0]] = v if len(idxs) == 1 else store(ls[idxs[0]], idxs[1:], v)
    return out


def ev_get(env, k):
    from evalnf import EvalUnknown
    v = ev(env, k[1])
    for i in k[2]:
        v = at(v, env.n(i))
    if not isinstance(v, int):
        raise EvalUnknown('array element')
    return v
