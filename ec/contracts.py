"""Contracts for loops that have no closed form.

While: the loop is read as a tail-recursive function of the values it carries.  For every state s in
which the loop is entered, with T the function's result as specified:
  leaving the loop in s gives T;  going round from s to s' leaves the specified result of s' equal to T;
  s' is not a state the loop has come from (the derived step function has no cycle).
Fold: the loop consumes a list argument.  If leaving the loop in state s gives a result that satisfies
the specification for the list consumed so far, then after one more element x the result satisfies the
specification for the list with x appended; and the entry state does for the empty list."""
from facts import *
from values import *
import ring
import evalnf
from evalnf import EvalUnknown


class While:
    def __init__(self, value, kind='m', cap=60):
        """value(state, *args): the specified result of the function were the carried value `state`"""
        self.value, self.kind, self.cap = value, kind, cap


class Fold:
    def __init__(self, arg, states):
        """states(list, count, rng): candidate values for the carried numbers that represent a list"""
        self.arg, self.states = arg, states


class Scan:
    """a loop over a range that collects values in a vector and may stop early: its derived one-step
    transition relation is followed from the entry state"""


class VC:
    pass


class _At:
    def __init__(self, st):
        self.st = st


def hook(I, body, st, cells, name, uid, F):
    c = I.contract
    if not isinstance(c, While) or len(F.slots) != 1:
        return None
    (key, sl), = F.slots.items()
    if sl.kind != c.kind:
        return None
    import loops
    v = VC()
    v.kind, v.uid, v.entry, v.key, v.slot, v.backs, v.name = 'while', uid, st, key, sl, F.backs, name
    v.init = loops.vget(st.c[key[0]], key[1])
    I.loopvc.append(v)
    I.loops_done.append((name, 'contract', len(F.backs), 1))
    return [o for o in F.outs if o.kind not in ('back', 'skip')]


def fold_hook(I, s, F, coll, uid, name):
    c = I.contract
    if not isinstance(c, Fold) or coll != ('vec',) + coll[1:] or coll[1] != c.arg:
        return None
    if any(o.kind not in ('back', 'skip', 'panic') for o in F.outs):
        return None
    if any(sl.kind not in ('p',) for sl in F.slots.values()) or not F.slots:
        return None
    import loops
    v = VC()
    v.kind, v.uid, v.entry, v.slots, v.backs, v.name = 'fold', uid, s, F.slots, F.backs, name
    v.panics = [o for o in F.outs if o.kind == 'panic']
    v.init = {k: loops.vget(s.c[k[0]], k[1]) for k in F.slots}
    I.loopvc.append(v)
    I.loops_done.append((name, 'contract', len(F.backs), len(F.slots)))
    fin = s.copy()
    for (cell, p), sl in F.slots.items():
        fin.c[cell] = loops.vset(fin.c[cell], p, loops.mu_value(I, uid, sl, loops.vget(s.c[cell], p), True))
        for inv in F.invs.get((cell, p), ()):
            fin.assume(loops.inv_formula(inv, loops.mu_atom(uid, sl)))
    return [fin], []


def phase(uid, what):
    return ('lit', ('b', 'phase', uid, what), True)


def scan_hook(I, s, F, coll, uid, name):
    if coll[0] != 'range' or len(F.slots) != 1:
        return None
    (key, sl), = F.slots.items()
    if sl.kind != 'v':
        return None
    import loops
    v = VC()
    v.kind, v.uid, v.entry, v.key, v.slot, v.backs, v.name, v.coll = 'scan', uid, s, key, sl, F.backs, name, coll
    v.init = loops.vget(s.c[key[0]], key[1])
    I.loopvc.append(v)
    I.loops_done.append((name, 'contract', len(F.backs), 1))
    fin = s.copy()
    fin.c[key[0]] = loops.vset(fin.c[key[0]], key[1], loops.mu_value(I, uid, sl, v.init, True))
    fin.assume(phase(uid, 'end'))
    early = []
    for o in F.outs:
        if o.kind not in ('back', 'skip'):
            o.st.assume(phase(uid, 'in'))
            early.append(o)
    return [fin], early


def list_hook(I, s, F, coll, uid, name):
    """for a loop over a collection without closed form"""
    if isinstance(I.contract, Fold):
        return fold_hook(I, s, F, coll, uid, name)
    if isinstance(I.contract, Scan):
        return scan_hook(I, s, F, coll, uid, name)
    return None


def check_scan(I, env, outs, want, exp, spec, conc, judge, R):
    import loops
    entered = None
    for v in I.loopvc:
        rs = evalnf.outcome_values(env, _At(v.entry), lambda o: [v.init, v.coll[1], v.coll[2]])
        if len(rs) > 1 or rs and entered:
            return None, 'several entries', None
        if rs:
            entered = v, rs[0]
    env.mus.clear()
    env.phase = None
    if entered is None:
        return judge(env, outs, want, exp, spec, R)
    v, (cur, lo, hi) = entered
    mk = (v.uid, v.slot.name())
    at = lambda o: [loops.vget(o.st.c[v.key[0]], v.key[1])]
    for i in range(lo, hi):
        # one step of the derived transition relation; the collected values are compared with the
        # invariant, and followed as they are if the code keeps another one
        env.mus[mk] = cur
        env.memo.clear()
        env.phase = (v.uid, 'in')
        env.bound[('bv', v.uid)] = {'e': i, 'pos': i - lo}
        try:
            nxt = []
            for b in v.backs:
                nxt += [r[0] for r in evalnf.outcome_values(env, b, at)]
            if len(nxt) > 1:
                return None, 'several steps apply', None
            if not nxt:
                return judge(env, outs, want, exp, spec, R)
        finally:
            env.bound.pop(('bv', v.uid), None)
        cur = nxt[0]
    env.mus[mk] = cur
    env.memo.clear()
    env.phase = (v.uid, 'end')
    return judge(env, outs, want, exp, spec, R)


def unwrap(v):
    if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], dict):
        return v[0]
    return v


def bind(env, uid, slot, v):
    if isinstance(v, dict):
        v = evalnf.CP({(x, y, q, () if u is None else ((u, 1),)): c for (x, y, q, u), c in v.items()})
    env.mus[(uid, slot.name())] = v
    env.memo.clear()


def check_while(I, env, outs, want, exp, spec, conc, judge, R):
    """(True/False/None, derived, outcome) at a point whose state is the one the loop is entered with"""
    import loops
    c = I.contract
    entered = None
    for v in I.loopvc:
        rs = evalnf.outcome_values(env, _At(v.entry), lambda o: [v.init])
        if len(rs) > 1:
            return None, 'several entries', None
        if rs:
            if entered:
                return None, 'several entries', None
            entered = v, unwrap(rs[0][0])
    env.mus.clear()
    if entered is None:
        return judge(env, [o for o in outs], want, exp, spec, R)
    v, cur = entered
    seen = []
    ek = lambda d: tuple(sorted(d.items(), key=repr)) if isinstance(d, dict) else d
    other = None
    for step in range(5 * c.cap):
        if other is None and step >= c.cap:
            break
        bind(env, v.uid, v.slot, cur)
        seen.append(ek(cur))
        nxt = []
        for b in v.backs:
            for r in evalnf.outcome_values(env, b, lambda o: [loops.vget(o.st.c[v.key[0]], v.key[1])]):
                nxt.append((unwrap(r[0]), b))
        if not nxt:
            if step and other is None:
                return True, None, None
            ok, got, o = judge(env, outs, want, exp, spec, R)
            if other is not None:
                # the loop keeps another invariant than the specified one: only its end tells
                return (None, 'the loop does not keep the specified result invariant', None) if ok else \
                    (ok, got if ok is None else '%s; %s' % (got, other[0]), o or other[1])
            return ok, got, o
        if len(nxt) > 1:
            return None, 'several steps apply', None
        cur2, b = nxt[0]
        if isinstance(cur2, dict) and '?' in cur2:
            return None, 'presence of zero coefficients not determined', None
        if other is None:
            e2 = c.value(cur2, *conc)
            if not eq_exp(e2, exp):
                other = 'after a round of the loop the specified result changes from %r to %r' % (exp, e2), b
        if ek(cur2) in seen:
            return False, 'the loop never ends: it returns to the carried value %r' % (cur2,), b
        if other is None and smaller(cur2, cur):
            return True, cur2, b
        cur = cur2
    return None, 'the carried value does not decrease', None


def eq_exp(a, b):
    from spec import PANIC
    if a is PANIC or b is PANIC:
        return a is b
    return a == b


def smaller(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return abs(a) < abs(b)
    if isinstance(a, dict) and isinstance(b, dict):
        if not a:
            return bool(b)
        return bool(b) and max(k[:3] for k in a) < max(k[:3] for k in b)
    return False


def fold_run(env, v, keys, names, outs, want, spec, judge, R, c, ls, exp):
    import loops
    import sym
    env.lists[c.arg] = ls
    env.mus.clear()
    env.memo.clear()
    rs = evalnf.outcome_values(env, _At(v.entry), lambda o: [v.init[k] for k in keys])
    if len(rs) != 1:
        return None, 'entry', None
    cur = rs[0]
    for i, x in enumerate(ls):
        for sl, y in zip(names, cur):
            bind(env, v.uid, sl, y)
        env.bound[('bv', v.uid)] = sym.elem_conc(sym.VECTY[c.arg], x, i)
        try:
            for p in v.panics:
                if evalnf.outcome_values(env, p, lambda o: []):
                    return False, 'the round for %r panics after %r' % (x, cur), p
            rs = []
            for b in v.backs:
                rs += evalnf.outcome_values(env, b, lambda o: [loops.vget(o.st.c[k[0]], k[1]) for k in keys])
        finally:
            env.bound.pop(('bv', v.uid), None)
        if len(rs) != 1:
            return None, 'steps', None
        cur = rs[0]
    for sl, y in zip(names, cur):
        bind(env, v.uid, sl, y)
    return judge(env, outs, want, exp, spec, R)


def check_fold(I, env, outs, want, conc, spec, rng, judge, R):
    import loops
    import sym
    c = I.contract
    if len(I.loopvc) != 1:
        return None, 'several loops', None
    v = I.loopvc[0]
    ai = 'abcdefgh'.index(c.arg)
    ls = list(conc[ai])
    keys = list(v.slots)
    names = [v.slots[k] for k in keys]
    if not ls:
        rs = evalnf.outcome_values(env, _At(v.entry), lambda o: [v.init[k] for k in keys])
        if len(rs) != 1:
            return None, 'entry', None
        for sl, x in zip(names, rs[0]):
            bind(env, v.uid, sl, x)
        return judge(env, outs, want, spec.expect(*conc), spec, R)
    pre, x = ls[:-1], ls[-1]
    cp = list(conc)
    cp[ai] = pre
    env.lists[c.arg] = pre
    env.memo.clear()
    exp0, exp1 = spec.expect(*cp), spec.expect(*conc)
    bad = None
    some = False
    for vals in c.states(pre, len(keys), rng):
        env.lists[c.arg] = pre
        for sl, y in zip(names, vals):
            bind(env, v.uid, sl, y)
        ok, got, o = judge(env, outs, want, exp0, spec, R)
        if ok is None:
            return None, got, None
        if not ok:
            continue
        env.bound[('bv', v.uid)] = sym.elem_conc(sym.VECTY[c.arg], x, len(pre))
        try:
            if any(evalnf.outcome_values(env, p, lambda o: []) for p in v.panics):
                nxt = 'panic'
            else:
                rs = []
                for b in v.backs:
                    rs += [(r, b) for r in evalnf.outcome_values(
                        env, b, lambda o: [loops.vget(o.st.c[k[0]], k[1]) for k in keys])]
                if len(rs) != 1:
                    return None, 'steps', None
                nxt = rs[0]
        finally:
            env.bound.pop(('bv', v.uid), None)
        some = True
        if nxt == 'panic':
            bad = ('the round for %r panics after %r' % (x, vals), v.panics[0])
            continue
        env.lists[c.arg] = ls
        for sl, y in zip(names, nxt[0]):
            bind(env, v.uid, sl, y)
        ok, got, o = judge(env, outs, want, exp1, spec, R)
        if ok is None:
            return None, got, None
        if ok:
            # other carried numbers than the ones tried may be the ones that occur: follow them from the entry
            r = fold_run(env, v, keys, names, outs, want, spec, judge, R, c, ls, exp1)
            return r if r[0] is False else (True, got, o)
        bad = ('carried %r for %r, then %r gives %r' % (tuple(vals), pre, x, got), nxt[1])
    if some and bad:
        # the carried numbers may stand for the list in another way: follow them from the entry state
        ok, got, o = fold_run(env, v, keys, names, outs, want, spec, judge, R, c, ls, exp1)
        if ok is False:
            return False, '%s; %s' % (got, bad[0]), o or bad[1]
        return None, got if ok is None else 'the carried numbers represent the list in another way', None
    return None, 'no carried values represent the list', None
