"""Loops without a closed form.

Such a loop stays in the summary as its derived one-step relation: the values it leaves behind are
the carried values (`mu` atoms of the loop) and the paths that go on after it carry a literal saying
how it ended.  At a valuation the relation is unfolded from the entry state.  A summary that needed
this can be refuted by a valuation; it is never reported as agreeing in closed form."""
from facts import *
from values import *
import ring
import evalnf
from evalnf import EvalUnknown, EvalOutside

STEPS = 300


class Loop:
    pass


def lit(uid, what):
    return ('lit', ('b', 'uph', uid, what), True)


def inside(states, base):
    """did the body itself meet a loop without closed form?"""
    have = set(k for k, v in base.lits if k[:2] == ('b', 'uph'))
    return any(k[:2] == ('b', 'uph') and k not in have for o in states for k, v in o.st.facts.lits)


def install(I, s, F, coll, rev, uid, name, pend=()):
    """(state after the end of the collection | None, other outcomes), or None if the loop is out of reach"""
    import loops
    if pend or any(sl.kind not in ('p', 'R', 'm', 'b', 'v', 'A') for sl in F.slots.values()):
        return None
    if coll is not None and coll[0] not in ('range', 'map', 'vec', 'nat', 'mu'):
        return None
    for o in F.backs:
        for c, v in o.st.c.items():
            if has_pend(v):
                return None
    L = Loop()
    L.uid, L.coll, L.rev, L.name = uid, coll, rev, name
    L.entry = s.copy()
    L.slots = dict(F.slots)
    L.keys = list(F.slots)
    L.init = [loops.vget(s.c[k[0]], k[1]) for k in L.keys]
    L.backs = list(F.backs)
    L.outs = []
    I.unfolds[uid] = L
    early = []
    for n, o in enumerate(x for x in F.outs if x.kind not in ('back', 'skip')):
        # the conditions of the exit itself are judged while unfolding
        cond = evalnf._Lits(o.st.facts.lits, o.st)
        L.outs.append((n, cond, o.kind))
        o.st.assume(lit(uid, n))
        early.append(o)
    I.loops_done.append((name, 'unfolded', len(F.backs), len(F.slots)))
    fin = None
    if coll is not None and coll[0] != 'nat':
        fin = s.copy()
        for k in L.keys:
            fin.c[k[0]] = loops.vset(fin.c[k[0]], k[1], loops.mu_value(I, uid, F.slots[k], loops.vget(s.c[k[0]], k[1]), F.zfs.get(k, True)))
        fin.assume(lit(uid, 'end'))
    return fin, early


def has_pend(v):
    if isinstance(v, MapV):
        return bool(v.pend)
    if isinstance(v, Rec):
        return any(has_pend(x) for x in v.f)
    return False


def value(v, sl):
    """a carried value for the evaluator"""
    if sl.kind in ('m', 'R'):
        if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], dict):
            v = v[0]
        if isinstance(v, dict):
            if '?' in v:
                raise EvalUnknown('presence of zero coefficients not determined')
            if any(c == 0 for c in v.values()):
                raise EvalUnknown('a stored zero coefficient is carried')
            return evalnf.CP({(x, y, q, () if u is None else ((u, 1),)): c for (x, y, q, u), c in v.items()})
        if sl.kind == 'R':
            return v
    if sl.kind == 'p' and not isinstance(v, int):
        raise EvalUnknown('carried value')
    if sl.kind == 'b' and not isinstance(v, bool):
        raise EvalUnknown('carried value')
    if sl.kind in ('v', 'A') and not isinstance(v, list):
        raise EvalUnknown('carried value')
    return v


class _At:
    def __init__(self, st):
        self.st = st


def once(env, o, want, what):
    rs = evalnf.outcome_values(env, o, want)
    if len(rs) > 1 and any(repr(r) != repr(rs[0]) for r in rs[1:]):
        raise EvalUnknown('several %s apply' % what)
    return rs[0] if rs else None


def cached(env, L):
    """outside of other loops a loop ends in one way at a valuation"""
    if env.ucache is None or env.nest:
        return run(env, L)
    if L.uid not in env.ucache:
        try:
            r = run(env, L)
        except EvalUnknown as e:
            env.ucache[L.uid] = e, None, None
            raise
        env.ucache[L.uid] = r, dict(env.mus), dict(env.bound)
        return r
    r, mus, bound = env.ucache[L.uid]
    if isinstance(r, EvalUnknown):
        raise r
    bk = ('bv', L.uid)
    env.bound.pop(bk, None)
    if bk in bound:
        env.bound[bk] = bound[bk]
    for k in L.keys:
        m = (L.uid, L.slots[k].name())
        env.mus.pop(m, None)
        if m in mus:
            env.mus[m] = mus[m]
    env.memo.clear()
    return r


def run(env, L):
    """how the loop ends at this valuation; leaves its carried values bound"""
    import loops
    names = [(L.uid, L.slots[k].name()) for k in L.keys]
    sls = [L.slots[k] for k in L.keys]
    bk = ('bv', L.uid)
    env.bound.pop(bk, None)
    for m in names:
        env.mus.pop(m, None)
    env.memo.clear()
    st = once(env, _At(L.entry), lambda o: L.init, 'entries')
    if st is None:
        return None
    cur = [value(v, sl) for v, sl in zip(st, sls)]
    # the loops before this one have been unfolded with the entry state
    mine = [k[2] for k, v in L.entry.facts.lits if k[:2] == ('b', 'uph') and k[2] not in env.fixed]
    env.fixed.update(mine)
    env.nest += 1
    try:
        return rounds(env, L, names, sls, bk, cur)
    finally:
        env.nest -= 1
        env.fixed.difference_update(mine)


def rounds(env, L, names, sls, bk, cur):
    import loops
    if L.coll is None:
        els = [None] * (STEPS + 1)
    else:
        els = []
        for el in env.elems(L.coll):
            els.append(dict(el) if isinstance(el, dict) else el)
            if len(els) > STEPS:
                break
        if L.rev:
            els = els[::-1]
    seen = set()
    for n, el in enumerate(els):
        env.fuel = getattr(env, 'fuel', 6000) - 1
        if n >= STEPS or env.fuel < 0:
            raise EvalUnknown('the loop takes too many rounds')
        if L.coll is None:
            key = repr([sorted(c.d.items()) if isinstance(c, evalnf.CP) else c for c in cur])
            if key in seen:
                raise EvalOutside('%s never ends: it returns to the same carried values' % L.name)
            seen.add(key)
        for m, c in zip(names, cur):
            env.mus[m] = c
        if el is not None:
            env.bound[bk] = el
        env.memo.clear()
        nxt = []
        for b in L.backs:
            r = once(env, b, lambda o: [loops.vget(o.st.c[k[0]], k[1]) for k in L.keys], 'rounds')
            # inner loops leave their own values behind
            for m, c in zip(names, cur):
                env.mus[m] = c
            env.memo.clear()
            if r is not None:
                nxt.append([value(v, sl) for v, sl in zip(r, sls)])
        if len(nxt) > 1 and any(repr(x) != repr(nxt[0]) for x in nxt[1:]):
            raise EvalUnknown('several rounds apply')
        if nxt:
            cur = nxt[0]
            continue
        hit = []
        for i, cond, kind in L.outs:
            if once(env, cond, lambda o: [], 'exits') is not None:
                hit.append(i)
            env.memo.clear()
        if len(hit) != 1:
            raise EvalUnknown('%d exits apply' % len(hit))
        return hit[0]
    env.bound.pop(bk, None)
    for m, c in zip(names, cur):
        env.mus[m] = c
    env.memo.clear()
    return 'end'


def settle(env, lits, loops):
    """unfold the loops a path has been through, outer before inner and in order (they are numbered
    that way); False if one of them ended otherwise"""
    for k, v in sorted((x for x in lits if x[0][:2] == ('b', 'uph')), key=lambda x: x[0][2]):
        if True:
            L = loops.get(k[2])
            if L is None:
                raise EvalUnknown('loop')
            if k[2] not in env.fixed:
                env.ended[k[2]] = cached(env, L)
            if env.ended[k[2]] != k[3]:
                return False
    return True
