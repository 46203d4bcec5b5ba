"""Specifications: symbolic arguments, valuations, expected values, verification of items."""
import random
import re
import time
import zlib
import interp
from interp import Interp
import sym
import evalnf
from evalnf import Env, EvalUnknown, CP
from values import *
import nf
from refs import *

# ---- item paths --------------------------------------------------------------------


def short(t):
    t = re.sub(r"^&('\w+ )?(mut )?", '', t.strip())
    return t.split('::')[-1]


_pp = {}


def parse_path(path):
    """(trait, self, rhs, method, rest) or None for inherent / free functions"""
    if path in _pp:
        return _pp[path]
    r = None
    m = re.match(r"^<(.+?) as ([\w:]+?)(?:<(.+)>)?>::(\w+)(.*)$", path)
    if m:
        r = (short(m.group(2)), short(m.group(1)), short(m.group(3)) if m.group(3) else None, m.group(4), m.group(5))
    else:
        m = re.match(r"^[\w:]*<impl ([\w:]+?)(?:<(.+)>)? for (.+?)>::(\w+)(.*)$", path)
        if m:
            r = (short(m.group(1)), short(m.group(3)), short(m.group(2)) if m.group(2) else None, m.group(4), m.group(5))
    _pp[path] = r
    return r


SELFREF = {'Polynomial', 'Term'}


def sel_op(trait, slf, rhs, method=None):
    """implementations of an operator trait; rhs None in a path means Self"""
    slf = [slf] if isinstance(slf, str) else slf
    rhs = [rhs] if isinstance(rhs, str) or rhs is None else rhs

    def f(it):
        pp = parse_path(it.path)
        if not pp or pp[4]:
            return False
        t, s, r, m, _ = pp
        if t != trait or s not in slf:
            return False
        if method and m != method:
            return False
        r = r or s
        return any((x or s) == r for x in rhs)
    return f


def sel_path(*paths):
    def f(it):
        return it.path in paths
    return f


# ---- argument environments -------------------------------------------------------------

def install(env, ty, n, v):
    """bind the symbolic argument n of type ty to the concrete value v"""
    k = ty.get('k')
    if v is None and k == 'ref' and ty['t'].get('p', '').endswith('Formatter'):
        return
    if isinstance(v, tuple) and v and v[0] == 'dl':
        env.ints['ord'] = v[1]
        env.ints['dl.at'] = v[2]
        return
    if k == 'ref':
        return install(env, ty['t'], n, v)
    if k == 'int':
        env.ints[n] = v
        return
    if k == 'bool':
        env.bools[n] = v
        return
    if k == 'adt':
        p = ty['p']
        if p.endswith('BigInt'):
            env.ints[n] = v
        elif p == MONO:
            env.ints[n + '.x'], env.ints[n + '.y'], env.ints[n + '.q'] = v[:3]
            env.vars[n] = v[3]
        elif p == TERM:
            env.ints[n + '.c'] = v[0]
            install(env, {'k': 'adt', 'p': MONO}, n, v[1])
        elif p == POLY:
            env.pols[n] = env.pols['q:' + n] = v
        elif p == SV:
            env.vars[n] = v
        elif p == ECP:
            env.ints[n + '.x'], env.ints[n + '.y'], env.ints[n + '.z'] = v
        elif p == EC:
            env.ints[n + '.a'], env.ints[n + '.b'], env.ints[n + '.p'] = v[:3]
            if len(v) > 3:
                env.lists[n] = v[3]
        elif p == 'term_builder::TermBuilder':
            env.ints[n + '.c'] = v[0]
            install(env, {'k': 'adt', 'p': MONO}, n, v[1])
        elif p == 'subscripted_variable::SubscriptedVariableConverter':
            env.ints[n + '.p'] = v
        elif p.endswith('vec::Vec') or p == 'elliptic_curve::ECPointVec':
            env.lists[n] = v
            if v and isinstance(v[0], list):
                env.ints[n + '.rows'], env.ints[n + '.cols'] = len(v), len(v[0])
        else:
            raise Unsupported('value of %s' % p)
        return
    raise Unsupported('value of type %s' % k)


SMALL = [0, 1, -1, 2, -2, 3, 5, -7, 10, 12]


class DictRng(random.Random):
    """random numbers with a dictionary: the constants the derived case distinctions mention"""
    pool = ()
    emax = 16       # exponents from the dictionary go up to here

    def randint(self, lo, hi):
        if self.pool and self.random() < .12:
            c = [v for v in self.pool if lo <= v <= hi]
            if c:
                return c[int(self.random() * len(c))]
        return lo + int(self.random() * (hi - lo + 1))

    def pick(self, xs, lo, hi):
        """an element of xs, or a dictionary constant in [lo, hi]"""
        if self.pool and self.random() < .2:
            c = [v for v in self.pool if lo <= v <= hi]
            if c:
                return c[int(self.random() * len(c))]
        return self.choice(xs)

    def prime(self, xs, hi=64):
        """an element of xs, or a prime near a dictionary constant"""
        if self.pool and self.random() < .2:
            c = [v for v in self.pool if 2 < v <= hi]
            if c:
                n = c[int(self.random() * len(c))]
                while any(n % d == 0 for d in range(2, int(n ** .5) + 1)):
                    n += 1
                return n
        return self.choice(xs)


def harvest(outs, want=None):
    """integer constants in the derived cases (conditions and values), and their neighbours"""
    acc = set()
    seen = set()

    def go(k):
        if isinstance(k, P):
            if id(k) in seen:
                return
            seen.add(id(k))
            keep.append(k)
            lead = 0
            for m, c in k.t.items():
                if m == ():
                    num(c)
                    c0 = c
                else:
                    num(c)
                    lead = max(lead, abs(c))
                for a, e in m:
                    if isinstance(e, P):
                        go(e)
                    elif e > 1:
                        num(e)
                    go(nf.atom_key(a))
            c0 = k.t.get((), 0)
            if lead > 1 and c0:
                num(c0 / lead if c0 % lead == 0 else c0 // lead)
        elif isinstance(k, (tuple, frozenset, list)):
            if id(k) in seen:
                return
            seen.add(id(k))
            keep.append(k)
            if len(k) == 3 and isinstance(k[0], str) and k[0] == 'cast':
                # values that do not fit
                for c in evalnf.cast_range(k[2]):
                    num(c)
            for x in k:
                go(x)
        elif isinstance(k, V0):
            try:
                k = k.key()
            except NotImplementedError:
                return
            go(k)

    def num(c):
        c = int(c)
        if abs(c) > 1:
            for d in (c - 1, c, c + 1):
                acc.add(d)
                acc.add(-d)
    keep = []
    for o in outs:
        for k, v in o.st.facts.lits:
            go(k)
        if want and o.kind == 'ret':
            try:
                go(want(o))
            except Unsupported:
                pass
    return tuple(sorted(acc))


def correlate(rng, conc, tys):
    """make a later polynomial or term share monomials with an earlier one"""
    def kind(t):
        while t.get('k') == 'ref':
            t = t['t']
        return t.get('p')
    ks = [kind(t) for t in tys]
    for j in range(1, len(conc)):
        if ks[j] not in (POLY, TERM) or rng.random() > .4:
            continue
        i = rng.choice(range(j))
        if ks[i] == POLY:
            src = sorted(conc[i].items(), key=repr)
        elif ks[i] == TERM:
            src = [(conc[i][1], conc[i][0])]
        else:
            continue
        if not src:
            continue

        def co(c):
            return rng.choice([c, -c, -c, rng.randint(-4, 4)])
        if ks[j] == TERM:
            k, c = rng.choice(src)
            conc[j] = (co(c), k)
        else:
            d = dict(conc[j]) if rng.random() < .4 else {}
            full = rng.random() < .5
            for k, c in src:
                if full or rng.random() < .6:
                    d[k] = co(c)
            conc[j] = {k: c for k, c in d.items() if c}


def g_int(rng, lo=-30, hi=30):
    return rng.pick(SMALL, -10 ** 6, 10 ** 6) if rng.random() < .4 else rng.randint(lo, hi)


def g_index(rng):
    return rng.randint(0, 3) if rng.random() < .8 else rng.pick([4, 7, 9, 10, 11, 16, 20, 100], 0, 2000)


def g_var(rng):
    return None if rng.random() < .5 else (g_index(rng), g_index(rng))


def g_exp(rng, emin, emax):
    """an exponent; sometimes one the derived conditions mention"""
    return rng.pick([rng.randint(emin, emax)], min(emin, 0), rng.emax) if rng.random() < .15 else rng.randint(emin, emax)


def g_mono(rng, emax=5, emin=0, var=True):
    return (g_exp(rng, emin, emax), g_exp(rng, emin, emax), rng.choice([0, 0, g_exp(rng, emin, emax)]),
            g_var(rng) if var else None)


def g_term(rng, **kw):
    return (g_int(rng), g_mono(rng, **kw))


def g_poly(rng, n=None, var=False, emax=4, emin=0, x=True, y=True, q=True, cmax=12):
    n = rng.choice([0, 1, 1, 2, 3, 4, 5]) if n is None else n
    d = {}
    for _ in range(n):
        k = (g_exp(rng, emin, emax) if x else 0, g_exp(rng, emin, emax) if y and rng.random() < .6 else 0,
             g_exp(rng, emin, emax) if q and rng.random() < .4 else 0, g_var(rng) if var and rng.random() < .5 else None)
        c = rng.choice([1, -1, rng.randint(-cmax, cmax)])
        if c:
            d[k] = c
    return d


def default_gen(rng, ty):
    k = ty.get('k')
    if k == 'ref':
        return default_gen(rng, ty['t'])
    if k == 'int':
        v = g_int(rng)
        return abs(v) if ty['n'][0] == 'u' else v
    if k == 'bool':
        return rng.random() < .5
    p = ty.get('p', '')
    if p.endswith('BigInt'):
        return g_int(rng)
    if p == MONO:
        return g_mono(rng)
    if p in (TERM, 'term_builder::TermBuilder'):
        return g_term(rng)
    if p == POLY:
        return g_poly(rng, var=rng.random() < .3)
    if p == SV:
        return g_var(rng)
    raise Unsupported('generator for %s' % ty)


# operations that treat terms one by one: exponents of any size
WIDE = {'tmul', 'tdiv', 'tneg', 'topol', 'tfrom', 'tget', 'builder', 'order', 'lead', 'tmod', 'pmod', 'eval', 'meval', 'deriv', 'tderiv',
        'trunc', 'extract', 'has', 'temap', 'display', 'ring', 'pzero'}


class Spec:
    """expect(*concrete args) -> value | PANIC | ANY | predicate"""

    def __init__(self, group, sel, expect, gens=None, pre=None, mut=(), args=None, assume=None, n=300,
                 floor=1, title=None, roles=True, off=(), steps=40000, setup=None, post=None, apps=None, colls=None,
                 view=None, optional=False, corr=False, loop=None):
        self.__dict__.update(locals())
        del self.__dict__['self']


class Result:
    __slots__ = ('item', 'status', 'points', 'unknown', 'detail', 'outs', 'loops', 'wall', 'groups', 'why', 'panics', 'unfolded')

    def __init__(self, item):
        self.item = item
        self.status = 'undecided'
        self.points = self.unknown = 0
        self.detail = None
        self.outs = 0
        self.loops = []
        self.wall = 0
        self.groups = set()
        self.why = {}
        self.panics = self.unfolded = 0


NAMES = 'abcdefgh'


class SEnv(Env):
    def __init__(self):
        Env.__init__(self)
        self.lists = {}


def eqv(got, exp):
    if callable(exp):
        return exp(got)
    if isinstance(exp, (list, tuple)) and isinstance(got, (list, tuple)):
        return len(got) == len(exp) and all(eqv(g, e) for g, e in zip(got, exp))
    return got == exp


def unq(v):
    return isinstance(v, dict) and '?' in v


def has_unq(v):
    if unq(v):
        return True
    if isinstance(v, (tuple, list)):
        return any(has_unq(x) for x in v)
    return False


def strip_unq(v):
    if unq(v):
        return {k: c for k, c in v.items() if k != '?'}
    if isinstance(v, tuple):
        return tuple(strip_unq(x) for x in v)
    if isinstance(v, list):
        return [strip_unq(x) for x in v]
    return v


def verify(ctx, it, spec, tier):
    """decide one item against its specification"""
    R = verify1(ctx, it, spec, tier, False)
    if R.status in ('partial', 'undecided') and any('Opaque' in w or 'zero entries' in w or 'several outcomes' in w for w in R.why):
        # values carried into an early exit have no closed form: unfold those loops
        R2 = verify1(ctx, it, spec, tier, True)
        if R2.status == 'refuted' or R2.status == 'partial' and R2.unknown < R.unknown:
            return R2
    return R


def verify1(ctx, it, spec, tier, retry):
    R = Result(it)
    t0 = time.time()
    import signal

    def late(*a):
        raise Budget('time')
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(ctx.limit)
    try:
        _verify(ctx, it, spec, tier, R, retry)
    except (Unsupported, Budget, EvalUnknown, NeedFork) as e:
        R.status = 'undecided'
        if R.points >= 30 and not R.unknown and isinstance(e, Budget):
            R.status = 'agrees'
        else:
            R.why[('%s %s' % (type(e).__name__, e))[:200]] = 1
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        R.status = 'undecided'
        R.why['internal %s %s %s:%s' % (type(e).__name__, str(e)[:120], tb.filename.split('/')[-1], tb.lineno)] = 1
        if ctx.debug:
            traceback.print_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    R.wall = time.time() - t0
    return R


def _verify(ctx, it, spec, tier, R, retry=False):
    I = ctx.interp(spec, it)
    I.retry = retry
    st = St()
    tys = [it.body.locals[i + 1]['ty'] for i in range(it.body.argc)]
    if spec.setup:
        spec.setup(I, st)
    args = []
    for i, ty in enumerate(tys):
        mk = (spec.args or {}).get(i)
        args.append(mk(I, st, ty, NAMES[i]) if mk else sym.by_type(I, st, ty, NAMES[i]))
    if spec.assume:
        spec.assume(I, st, args)
    st0 = st.copy()
    I.top = it.key
    I.contract = spec.loop
    outs = I.run_fn(it, args, st)
    R.outs = len(outs)
    R.loops = list(I.loops_done)
    R.groups = set(I.roles_used)
    for k, c in I.used.items():
        ctx.used[k] = ctx.used.get(k, 0) + c
    for o in outs:
        if o.kind == 'unk':
            R.why[str(o.why)[:160]] = R.why.get(str(o.why)[:160], 0) + 1

    def want(o):
        vs = [o.v]
        for i in spec.mut:
            a = args[i]
            vs.append(I.read(o.st, a.cell, a.path))
        return vs
    n = spec.n * (12 if tier == 'thorough' else 3)
    rng = DictRng(zlib.crc32(it.path.encode()) ^ ctx.seed)
    if spec.group in WIDE:
        rng.emax = 70000
    rng.pool = harvest(outs, want)
    done = 0
    tries = 0
    outside = 0
    while done < n and tries < n * 6:
        tries += 1
        env = SEnv()
        env.loops = I.unfolds
        env.apps.update(ctx.apps)
        if spec.apps:
            env.apps.update(spec.apps)
        env.colls['vec'] = sym.vec_elems
        env.colls.update(ctx.colls)
        if spec.colls:
            env.colls.update(spec.colls)
        conc = []
        g = spec.gens
        if callable(g):
            conc = g(rng)
        else:
            for i, ty in enumerate(tys):
                conc.append(g[i](rng) if g and i in g else default_gen(rng, ty))
        conc = list(conc)
        if spec.corr:
            correlate(rng, conc, tys)
        if spec.pre and not spec.pre(*conc):
            continue
        for i, ty in enumerate(tys):
            install(env, ty, NAMES[i], conc[i])
        try:
            exp = spec.expect(*conc)
        except PanicV:
            exp = PANIC
        done += 1
        if exp is ANY:
            continue
        if I.recs and done <= 60:
            cyc = runs_away(I, env, tys, conc)
            if cyc:
                R.points += 1
                R.status = 'refuted'
                R.detail = dict(args=repr(conc)[:1500], expected='the recursion ends', derived='the recursive calls return to %s' % (cyc,),
                                path=it.path)
                return
        if I.loopvc:
            import contracts
            if isinstance(spec.loop, contracts.Fold):
                ok, got, o = contracts.check_fold(I, env, outs, want, conc, spec, rng, judge, R)
            else:
                try:
                    ok, got, o = (contracts.check_scan if isinstance(spec.loop, contracts.Scan) else contracts.check_while)(I, env, outs, want, exp, spec, conc, judge, R)
                except EvalUnknown as e:
                    ok, got = None, 'unresolved: %s' % e
        else:
            ok, got, o = judge(env, outs, want, exp, spec, R)
        if ok is None:
            R.unknown += 1
            R.why[str(got)[:160]] = R.why.get(str(got)[:160], 0) + 1
            if ('outside its specified domain' in str(got) or 'never ends' in str(got)) and exp is not PANIC:
                outside += 1
                if outside >= 2:
                    R.status = 'refuted'
                    R.detail = dict(args=repr(conc)[:1500], expected=repr(exp)[:1500], derived=str(got), path=it.path)
                    return
            continue
        R.points += 1
        if exp is PANIC:
            R.panics += 1
        if not ok:
            R.status = 'refuted'
            R.detail = dict(args=repr(conc)[:1500], expected=repr(exp if not callable(exp) else 'value satisfying the specified relation')[:1500],
                            derived=repr(got)[:1500], path=path_text(o, it))
            return
    if R.points and R.unfolded:
        R.status = 'partial'
        R.why['loops without closed form, unfolded at %d valuations only' % R.unfolded] = 1
    elif R.points and not R.unknown:
        R.status = 'agrees'
    elif R.points:
        R.status = 'partial'


class _Call:
    def __init__(self, st):
        self.st = st


def runs_away(I, env, tys, conc):
    """an argument tuple from which the recursive calls lead back to itself, if there is one"""
    seen = set()
    path = []
    cls = Env2 = type(env)
    budget = [400]

    def go(args):
        key = repr([sorted(a.items(), key=repr) if isinstance(a, dict) else a for a in args])
        if key in path:
            return args
        if key in seen or budget[0] <= 0:
            return None
        budget[0] -= 1
        seen.add(key)
        path.append(key)
        e = cls()
        e.apps, e.colls = env.apps, env.colls
        for i, ty in enumerate(tys):
            install(e, ty, NAMES[i], args[i])
        for s2, vs in I.recs:
            try:
                rs = evalnf.outcome_values(e, _Call(s2), lambda o: vs)
            except EvalUnknown:
                continue
            for nx in rs:
                nx = [v[0] if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], dict) else v for v in nx]
                if any(isinstance(v, (list, tuple)) for v in nx):
                    continue
                r = go(nx)
                if r is not None:
                    return r
        path.pop()
        return None
    return go(list(conc))


def path_text(o, it):
    if o is None:
        return it.path
    return '%s: %s' % (it.path, repr(o.st.facts)[:600])


def judge(env, outs, want, exp, spec, R):
    """(True/False/None, derived value, outcome)"""
    hits = []
    unk = None
    env.ucache = {}
    for o in outs:
        try:
            if o.kind == 'ret':
                for vals in evalnf.outcome_values(env, o, want):
                    v = vals[0] if not spec.mut else tuple(vals)
                    hits.append((v, o))
            else:
                r = evalnf.outcome_values(env, o, lambda o: [])
                if r:
                    hits.append((PANIC if o.kind == 'panic' else None, o))
        except EvalUnknown as e:
            unk = e
    env.ucache = None
    if any(v is None and o.kind == 'unk' for v, o in hits):
        return None, 'unresolved path: %s' % [o.why for v, o in hits if o.kind == 'unk'][0], None
    if unk is not None:
        return None, 'unresolved: %s' % unk, None
    if not hits:
        return None, 'no outcome applies', None
    verdicts = set()
    bad = None
    for v, o in hits:
        if exp is PANIC or v is PANIC:
            ok = exp is PANIC and v is PANIC
        else:
            vv = spec.view(v) if spec.view else v
            if has_unq(vv):
                vv2 = strip_unq(vv)
                ok = eqv(vv2, exp)
                if ok:
                    ok = None
            else:
                ok = eqv(vv, exp)
        verdicts.add(ok)
        if ok is False:
            bad = (v, o)
    if verdicts == {True}:
        R.unfolded += any(k[:2] == ('b', 'uph') for v, o in hits for k, _ in o.st.facts.lits)
        return True, hits[0][0], hits[0][1]
    if verdicts == {False}:
        return False, bad[0], bad[1]
    if None in verdicts and False not in verdicts:
        return None, 'presence of zero coefficients not determined', None
    return None, 'several outcomes apply', None
