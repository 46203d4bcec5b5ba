"""Loop summaries.  The body of a loop is abstracted once for a generic element of the
collection it walks (or a generic value of its counter); the effect of the whole loop is
obtained from the recurrences between its entry and back-edge values (additive, product,
append, pointwise, flag, last value, powering by halving).  Nothing is iterated
symbolically except loops over literally listed items."""
from nf import *
import nf
from facts import *
import facts as fx
import ring
import unfold
import arr
from ring import Key
from values import *

UNROLL_MAX = 40


class Found(Exception):
    def __init__(self, tag, ref):
        self.tag, self.ref = tag, ref


DBG = __import__('os').environ.get('DBGX')


def _out(kind, v, st, why=None):
    from interp import Out
    return Out(kind, v, st, why)


# ---- reachable state ---------------------------------------------------------------

def refs_in(v, acc):
    if isinstance(v, Ref):
        acc.append(v.cell)
    elif isinstance(v, (Rec, En, Clos)):
        for x in v.f:
            refs_in(x, acc)
    elif isinstance(v, VecV):
        for s in v.segs:
            if s[0] in ('it', 'rep'):
                refs_in(s[1], acc)
            elif s[0] == 'comp':
                for g, vs in s[3]:
                    for x in vs:
                        refs_in(x, acc)
    elif isinstance(v, IterV):
        b = v.base
        if v.src is not None:
            refs_in(v.src, acc)
        if b[0] == 'ref':
            refs_in(b[1], acc)
        elif b[0] in ('chain', 'zip'):
            refs_in(b[1], acc)
            refs_in(b[2], acc)
        elif b[0] == 'vec':
            refs_in(VecV(b[1]), acc)
        elif b[0] == 'one':
            refs_in(b[1], acc)
        elif b[0] == 'seg':
            refs_in(VecV((b[1],)), acc)
        for s in v.stages:
            for x in s[1:]:
                refs_in(x, acc)


def reachable(st, roots):
    seen = set()
    todo = [c for c in roots if c in st.c]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        acc = []
        refs_in(st.c.get(c), acc)
        todo += [x for x in acc if x not in seen and x in st.c]
    return seen


# ---- iterators ---------------------------------------------------------------------

def map_iters(v, f):
    """apply f to every iterator inside a value"""
    if isinstance(v, IterV):
        return f(v)
    if isinstance(v, Rec):
        return Rec(v.ty, [map_iters(x, f) for x in v.f])
    if isinstance(v, En):
        return En(v.ty, v.v, [map_iters(x, f) for x in v.f]) if v.f else v
    return v


POSITIONAL = ('enumerate', 'skip', 'take', 'step_by')


def segments(I, st, it, zeros=False):
    out = segments0(I, st, it, zeros)
    if len(out) > 1 and any(s[0] in POSITIONAL for s in it.stages):
        # positions are counted over the whole sequence
        if it.base[0] != 'vec' or any(x.base[0] != 'one' for x in out):
            raise Unsupported('positions in a composed sequence')
    if it.base[0] == 'vec':
        out = [x.with_(base=x.base[:3] + (n,)) if x.base[0] == 'one' else x for n, x in enumerate(out)]
    return out


def segments0(I, st, it, zeros=False):
    """single-segment iterators making up an iterator (in order)"""
    b = it.base
    if b[0] == 'coll':
        if isinstance(it.end, tuple) and not zeros:
            raise Unsupported('iteration over a map with possible zero entries')
        return [it]
    if b[0] == 'vec':
        out = []
        segs = b[1]
        lo, hi = it.pos if isinstance(it.pos, int) else 0, it.end if isinstance(it.end, int) else 0
        if lo or hi:
            segs = segs[lo:len(segs) - hi]
        off = lo
        for s in segs:
            if s[0] == 'it':
                out.append(it.with_(base=('one', s[1], off), pos=0, end=0))
                off += 1
            elif s[0] == 'comp':
                out.append(it.with_(base=('seg', s), pos=0, end=0, rev=it.rev != bool(s[4])))
            elif s[0] == 'rep':
                out.append(it.with_(base=('coll', ('range', ZERO, s[2])), pos=0, end=0, stages=(('const', s[1]),) + it.stages))
            elif s[0] == 'base':
                out.append(it.with_(base=('coll', s[1]), pos=0, end=0))
            else:
                raise Unsupported('iteration over a vector under construction')
        return out[::-1] if it.rev else out
    if b[0] == 'set':
        out = []
        for c, u, g, k in b[1]:
            if c is None:
                out.append(it.with_(base=('one', I.key_val(k), 0)))
            elif c == 'mu':
                raise Unsupported('iteration over a set under construction')
            else:
                if len(b[1]) > 1 or k != ring.elem_key(u):
                    raise Unsupported('iteration over a set with possible duplicates')
                out.append(it.with_(base=('seg', ('comp', c, u, ((g, (I.key_val(k),)),), False)), pos=0))
        return out
    if b[0] == 'chain':
        out = segments(I, st, b[1]) + segments(I, st, b[2])
        if it.rev:
            out = [x.with_(rev=not x.rev) for x in out[::-1]]
        return [x.with_(stages=x.stages + it.stages) for x in out]
    if b[0] == 'zip':
        return [it]
    if b[0] in ('one', 'seg'):
        return [it]
    raise Unsupported('iterator over %s' % (b[0],))


def seg_coll(I, st, it):
    b = it.base
    if b[0] == 'coll':
        return b[1]
    if b[0] == 'seg':
        return b[1][1]
    if b[0] == 'zip':
        xs, ys = segments(I, st, b[1]), segments(I, st, b[2])
        if len(xs) != 1 or len(ys) != 1:
            raise Unsupported('zip of composed iterators')
        cx, cy = seg_coll(I, st, xs[0]), seg_coll(I, st, ys[0])
        if any(s[0] in ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while') + POSITIONAL[1:] for s in xs[0].stages + ys[0].stages):
            raise Unsupported('zip of filtered iterators')
        if cy[0] == 'nat' and not xs[0].rev:
            return cx
        if cx[0] == 'nat' and not ys[0].rev:
            return cy
        if cx[0] == 'range' and cy[0] == 'range' and st.know(eq(cx[2] - cx[1], cy[2] - cy[1])):
            return cx
        raise Unsupported('zip of different lengths')
    raise Unsupported('segment of ' + b[0])


def position(I, st, coll, uid, rev):
    """index of the generic element"""
    if coll[0] == 'range':
        e = ring.bv(uid, 'e')
        return coll[2] - 1 - e if rev else e - coll[1]
    if coll[0] == 'nat':
        return ring.bv(uid, 'e')
    p = ring.bv(uid, 'pos')
    st.assume(ge0(p))
    return p


def rename_elem(v, old, new):
    f = lambda x: ring.rename_bound(x, ('bv', old), ('bv', new))
    return Mapper(f, f).v(v)


def rename_formula(g, old, new):
    return g if isinstance(g, bool) else ring.rename_bound(g, ('bv', old), ('bv', new))


def element(I, st, it, uid, parent_coll=None):
    """outcomes of taking the generic element of a single-segment iterator, before stages"""
    b = it.base
    if b[0] == 'one':
        v = b[1]
        if it.elem == 'ref':
            v = I.ref_to(st, v)
        elif it.elem == 'mut':
            v = Ref(it.src.cell, it.src.path + (('idx', lift(b[2])),))
        return [_out('ret', v, st)]
    if b[0] == 'coll':
        coll = b[1]
        if coll[0] == 'map':
            if it.elem in ('mut', 'vmut'):
                m = I.read(st, it.src.cell, it.src.path)
                val = I.proj(st, m, ('elv', uid))
            else:
                val = ring.bv(uid, 'val')
            v = I.models.present_map_elem(I, st, it.elem, ring.elem_key(uid), st.norm(val), it.src, uid)
        else:
            v = I.models.coll_elem_value(coll, uid)
            if it.elem == 'mut':
                raise Unsupported('mutation of an abstract vector')
            if it.elem == 'ref':
                v = I.ref_to(st, v)
        return [_out('ret', v, st)]
    if b[0] == 'seg':
        s = b[1]
        cases = s[3]
        for g, vs in cases:
            g2 = rename_formula(g, s[2], uid)
            if st.dec(g2):
                if len(vs) == 0:
                    return [_out('skip', None, st)]
                if len(vs) > 1:
                    raise Unsupported('several values per element')
                v = rename_elem(vs[0], s[2], uid)
                if it.elem == 'ref':
                    v = I.ref_to(st, v)
                elif it.elem == 'mut':
                    raise Unsupported('mutation of a computed vector')
                return [_out('ret', v, st)]
        return [_out('skip', None, st)]
    if b[0] == 'zip':
        x, y = segments(I, st, b[1])[0], segments(I, st, b[2])[0]
        coll = parent_coll
        cx, cy = seg_coll(I, st, x), seg_coll(I, st, y)
        out = []
        for o in with_stages(I, st, x, uid, coll, cx):
            if o.kind != 'ret':
                out.append(o)
                continue
            for p in with_stages(I, o.st, y, uid, coll, cy):
                if p.kind == 'ret':
                    p.v = Rec('()', (o.v, p.v))
                out.append(p)
        return out
    raise Unsupported('element of ' + b[0])


def with_stages(I, st, it, uid, coll, own):
    """the element of one side of a zip at the position of the generic element of coll"""
    if it.base[0] == 'zip':
        if it.rev:
            raise Unsupported('reversed zip inside a zip')
        outs = element(I, st, it, uid, coll)
    elif own == coll and not it.rev:
        outs = element(I, st, it, uid, coll)
    else:
        pos = position(I, st, coll, uid, False)
        if own[0] == 'nat':
            v = pos
        elif own[0] == 'range':
            v = own[2] - 1 - pos if it.rev else own[1] + pos
        else:
            raise Unsupported('zip')
        if it.base[0] == 'coll':
            outs = [_out('ret', v, st)]
        elif it.base[0] == 'seg' and own[0] == 'range':
            c = it.base[1]
            seen = []
            keep = Mapper(lambda x: seen.append(x) or x, lambda x: seen.append(x) or x)
            for y, vs in c[3]:
                seen.append(y)
                for z in vs:
                    keep.v(z)
            if witnesses(tuple(seen), c[2]):
                raise Unsupported('zip of searched elements')
            mp = {nf.atom_id(('bv', c[2], 'e')): v, nf.atom_id(('bv', c[2], 'pos')): v - own[1]}
            g = lambda x: fx.subst_formula(x, mp)
            cases = tuple((g(y) if not isinstance(y, bool) else y, tuple(subst_mapper(mp).v(z) for z in vs)) for y, vs in c[3])
            outs = element(I, st, it.with_(base=('seg', (c[0], c[1], c[2], cases) + tuple(c[4:]))), uid, coll)
        else:
            raise Unsupported('zip')
    return run_stages(I, outs, it.with_(rev=False), coll, uid)


def run_stages(I, outs, it, coll, uid):
    filtered = it.base[0] == 'seg' and not (len(it.base[1][3]) == 1 and it.base[1][3][0][0] is True)
    skipped = ZERO
    for s in it.stages:
        nx = []
        for o in outs:
            if o.kind != 'ret':
                nx.append(o)
                continue
            st, v = o.st, o.v
            n = s[0]
            if n in ('cloned', 'copied'):
                o.v = I.models.dr(I, st, v)
                nx.append(o)
            elif n == 'const':
                o.v = s[1]
                nx.append(o)
            elif n == 'shift':
                o.v = v + s[1]
                nx.append(o)
            elif n == 'arrat':
                if s[2] == 'mut':
                    o.v = Ref(s[1].cell, s[1].path + (('idx', v),))
                else:
                    o.v = I.proj(st, s[1], ('idx', v))
                    if s[2] == 'ref':
                        o.v = I.ref_to(st, o.v)
                nx.append(o)
            elif n == 'mapitem':
                o.v = I.models.present_entry(I, st, s[1], v)
                nx.append(o)
            elif n == 'enumerate':
                if filtered:
                    raise Unsupported('enumerate after a filter')
                o.v = Rec('()', (stage_pos(I, st, it, coll, uid) - skipped, v))
                nx.append(o)
            elif n in ('skip', 'take', 'step_by'):
                if filtered:
                    raise Unsupported(n + ' after a filter')
                p = stage_pos(I, st, it, coll, uid) - skipped
                g = Bool(eq0(ring.mk_mod(p, s[1]))) if n == 'step_by' else Bool(le(s[1], p)) if n == 'skip' else Bool(lt(p, s[1]))
                for c, s2 in both(I, st, g):
                    nx.append(_out('ret', v, s2) if c else _out('skip', None, s2))
            elif n == 'map':
                nx += I.apply(st, s[1], [v])
            elif n == 'inspect':
                for p in I.apply(st, s[1], [I.ref_to(st, v)]):
                    p.v = v
                    nx.append(p)
            elif n in ('filter', 'take_while'):
                for p in I.apply(st, s[1], [I.ref_to(st, v)]):
                    if p.kind != 'ret':
                        nx.append(p)
                        continue
                    for c, s2 in both(I, p.st, p.v):
                        if c:
                            nx.append(_out('ret', v, s2))
                        elif n == 'filter':
                            nx.append(_out('skip', None, s2))
                        else:
                            nx.append(_out('none', None, s2))
            elif n in ('filter_map', 'map_while'):
                for p in I.apply(st, s[1], [v]):
                    if p.kind == 'ret':
                        if not isinstance(p.v, En):
                            raise Unsupported('option expected')
                        if p.v.v == 0:
                            p.kind = 'skip' if n == 'filter_map' else 'none'
                            p.v = None
                        else:
                            p.v = p.v.f[0]
                    nx.append(p)
            elif n == 'fuse':
                nx.append(o)
            else:
                raise Unsupported('iterator stage ' + n)
        if s[0] in ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'step_by'):
            filtered = True
        if s[0] == 'skip':
            skipped = skipped + s[1]
        outs = nx
    return outs


def stage_pos(I, st, it, coll, uid):
    if it.base[0] == 'one':
        return lift(it.base[3] if len(it.base) > 3 else it.base[2])
    return position(I, st, coll, uid, it.rev)


def both(I, st, b):
    """the two truth values of a boolean, with their states"""
    if b.f is True or b.f is False:
        return [(b.f, st)]
    r = st.know(b.f)
    if r is not None:
        return [(r, st)]
    out = []
    for x in st.facts.add(b.f):
        out.append((True, St(dict(st.c), x)))
    for x in st.facts.add(f_not(b.f)):
        out.append((False, St(dict(st.c), x)))
    return out


def gen_next(I, st, ref, it, back):
    if it.pos[0] == 'probe':
        raise Found(it.pos[1], ref)
    if it.pos[0] == 'end':
        return [_out('ret', NONE, st)]
    if it.pos[0] == 'cons':
        raise Unsupported('second element taken in one iteration')
    uid = it.pos[1]
    if back:
        raise Unsupported('next_back in a loop')
    I.write(st, ref.cell, ref.path, it.with_(pos=('cons', uid)))
    coll = None if it.base[0] == 'one' else seg_coll(I, st, it)
    outs = run_stages(I, element(I, st, it, uid, coll), it, coll, uid)
    for o in outs:
        if o.kind == 'ret':
            o.v = some(o.v)
        elif o.kind == 'none':
            o.kind = 'ret'
            o.v = NONE
    return outs


def staged_next(I, st, ref, it, back):
    """next on a decorated iterator outside a loop: element by element on explicit items"""
    segs = segments(I, st, it.with_(stages=()))
    if it.base[0] in ('coll',) and it.base[1][0] == 'range':
        plain = it.with_(stages=())
        from models import next_explicit
        v, j = next_explicit(I, st, ref, plain.with_(rev=not plain.rev) if back else plain)
        if back:
            j = j.with_(rev=not j.rev)
        I.write(st, ref.cell, ref.path, j.with_(stages=it.stages))
        if v.v == 0:
            return [_out('ret', NONE, st)]
        if any(s[0] not in ('map', 'cloned', 'copied', 'shift') for s in it.stages):
            raise Unsupported('next on a filtered range')
        outs = run_stages(I, [_out('ret', v.f[0], st)], it, it.base[1], None)
        for o in outs:
            if o.kind == 'ret':
                o.v = some(o.v)
        return outs
    if it.base[0] == 'vec' and all(s.base[0] == 'one' for s in segs):
        from models import next_explicit
        if any(s[0] in POSITIONAL for s in it.stages):
            raise Unsupported('next on enumerate')
        plain = it.with_(stages=())
        v, j = next_explicit(I, st, ref, plain.with_(rev=not plain.rev) if back else plain)
        if back:
            j = j.with_(rev=not j.rev)
        I.write(st, ref.cell, ref.path, j.with_(stages=it.stages))
        if v.v == 0:
            return [_out('ret', NONE, st)]
        outs = run_stages(I, [_out('ret', v.f[0], st)], it.with_(stages=it.stages), None, None)
        res = []
        for o in outs:
            if o.kind == 'ret':
                o.v = some(o.v)
                res.append(o)
            elif o.kind == 'skip':
                it2 = I.read(o.st, ref.cell, ref.path)
                res += staged_next(I, o.st, ref, it2, back)
            elif o.kind == 'none':
                res.append(_out('ret', NONE, o.st))
            else:
                res.append(o)
        return res
    if it.base[0] == 'coll' and it.base[1][0] == 'map' and it.pos == 0 and not isinstance(it.end, tuple) and \
            all(x[0] in ('map', 'cloned', 'copied', 'shift', 'const', 'inspect', 'mapitem', 'fuse', 'arrat') for x in it.stages):
        from models import next_explicit
        plain = it.with_(stages=())
        v, j = next_explicit(I, st, ref, plain.with_(rev=not plain.rev) if back else plain)
        if back:
            j = j.with_(rev=not j.rev)
        I.write(st, ref.cell, ref.path, j.with_(stages=it.stages))
        if v.v == 0:
            return [_out('ret', NONE, st)]
        outs = run_stages(I, [_out('ret', v.f[0], st)], it, None, None)
        for o in outs:
            if o.kind == 'ret':
                o.v = some(o.v)
        return outs
    # first element satisfying the stages: a search over the collection
    if not back:
        return consume(I, st, 'next', [Ref(ref.cell, ref.path)], None)
    raise Unsupported('next on a decorated iterator')


# ---- entry points ------------------------------------------------------------------

def summarise(I, fr, header, blocks, st):
    live = fr.body.analysis().live[header]
    s0 = st.copy()
    # dead locals of this frame, unless something live points at them
    keep = reachable(s0, [c for c in s0.c if not (c[0] == 'L' and c[1] == fr.fid and c[2] not in live) and c[0] != 'H'])
    s0.c = {c: v for c, v in s0.c.items() if c in keep}

    def body(s):
        return I.run(fr, header, s, (header, blocks))
    cells = [c for c in s0.c]
    outs = drive(I, body, s0, cells, fr.item.path + ':' + str(header))
    return outs


def drive(I, body, st, cells, name):
    """all outcomes (exit / ret / panic / unk) of running a loop from st"""
    n = [0]

    def mark(v):
        def f(it):
            if isinstance(it.pos, int) and it.base[0] != 'ref':
                n[0] += 1
                return it.with_(pos=('probe', n[0]))
            return it
        return map_iters(v, f)
    s = st.copy()
    for c in cells:
        if c in s.c:
            s.c[c] = mark(s.c[c])
    found = None
    if n[0]:
        stk = len(I.stack)
        try:
            body(s)
        except Found as e:
            found = e
        del I.stack[stk:]
    if found is None:
        return while_loop(I, body, st, cells, name)
    ref = found.ref
    it = I.read(st, ref.cell, ref.path)
    outs = []
    if it.base[0] == 'coll' and it.base[1][0] == 'nat':
        return nat_loop(I, body, st, cells, name, ref, it)
    segs = segments(I, st, it, True)
    states = [st]
    total = 0
    for sg in segs:
        nxt = []
        for s in states:
            total += 1
            if total > 4 * UNROLL_MAX:
                raise Unsupported('too many listed items')
            s = s.copy()
            if sg.base[0] == 'one':
                I.write(s, ref.cell, ref.path, sg.with_(pos=('gen', 0)))
                here = []
                for o in body(s):
                    if o.kind in ('back', 'skip'):
                        here.append(o.st)
                    else:
                        outs.append(o)
                if len(here) > 6:
                    here = join(I, s, here, cells)
                nxt += here
            else:
                fin, early = generic(I, body, s, cells, name, ref, sg)
                nxt += fin
                outs += early
        states = nxt
    for s in states:
        s = s.copy()
        I.write(s, ref.cell, ref.path, it.with_(pos=('end',)))
        for o in body(s):
            if o.kind in ('back', 'skip'):
                outs.append(_out('unk', None, o.st, 'loop continues after its iterator'))
            else:
                outs.append(o)
    return outs


class Alts:
    """the cases of a joined state"""
    def __init__(self, alts):
        self.alts = alts


def join(I, base, states, cells):
    """one state for states that only differ in what they appended to one vector"""
    n = len(base.facts.lits)
    s0 = states[0]
    if any(s.facts.lits[:n] != base.facts.lits for s in states):
        return states
    cs = [c for c in cells if c in s0.c]
    cs = set(cs) | reachable(s0, cs)
    vec = None
    for c in cs:
        vs = [s.c.get(c) for s in states]
        if any(v is not vs[0] and v != vs[0] for v in vs):
            if vec is not None or not all(isinstance(v, VecV) for v in vs) or not isinstance(base.c.get(c), VecV):
                return states
            vec = c
    if vec is None:
        return states
    pre = base.c[vec].segs
    k = len(pre)
    if any(s.c[vec].segs[:k] != pre or any(x[0] != 'it' for x in s.c[vec].segs[k:]) for s in states):
        return states
    if len(set(len(s.c[vec].segs) for s in states)) != 1:
        return states
    alt = tuple((s.facts.lits[n:], tuple(x[1] for x in s.c[vec].segs[k:])) for s in states)
    if any('bv' in repr(l) or 'mu' in repr(l) for l, v in alt):
        return states
    out = base.copy()
    for c in cs:
        if c in s0.c:
            out.c[c] = s0.c[c]
    out.c[vec] = VecV(pre + (('alt', alt),))
    out.assume(('lit', ('b', 'alts', Alts(alt)), True))
    I.loops_done.append(('join', 'alternatives', len(states), 1))
    return [out]


# ---- slots ----------------------------------------------------------------------------

class Slot:
    def __init__(self, cell, path, kind, n):
        self.cell, self.path, self.kind, self.n = cell, path, kind, n

    def name(self):
        return '%d%s' % (self.n, 'r' if self.kind in ('m', 'R') else 's')


def vget(v, path):
    for e in path:
        if isinstance(v, (Rec, Clos, En)):
            v = v.f[e]
        elif isinstance(v, Opaque):
            raise Unsupported('unsolved value: ' + v.why)
        else:
            raise Unsupported('slot path')
    return v


def vset(v, path, x):
    if not path:
        return x
    e = path[0]
    if isinstance(v, Rec):
        f = list(v.f)
        f[e] = vset(f[e], path[1:], x)
        return Rec(v.ty, f)
    if isinstance(v, Clos):
        f = list(v.f)
        f[e] = vset(f[e], path[1:], x)
        return Clos(v.d, f)
    if isinstance(v, En):
        f = list(v.f)
        f[e] = vset(f[e], path[1:], x)
        return En(v.ty, v.v, f)
    raise Unsupported('slot path')


def diff(I, s0, s1, v0, v1, path, out, ctx):
    """leaf differences between entry and back-edge values"""
    if v0 is v1:
        return
    from interp import UNINIT
    if v0 is UNINIT or v0 is None or v1 is UNINIT or v1 is None:
        if v0 is UNINIT or v0 is None:
            return
        ctx['moved'] = True
        return
    if isinstance(v0, P) and isinstance(v1, P):
        if v0 != v1 and s1.norm(v0) != s1.norm(v1):
            out.append((path, 'R' if ring.is_ring(v0) or ring.is_ring(v1) else 'p'))
        return
    if isinstance(v0, Bool) and isinstance(v1, Bool):
        if v0 != v1 and (s1.know(v0.f) is None or s1.know(v0.f) != s1.know(v1.f)):
            out.append((path, 'b'))
        return
    if isinstance(v0, MapV) and isinstance(v1, MapV):
        v1 = I.clean(s1, v1)
        if v1.pend and not v0.pend:
            out.append((path, 'pend'))
            if v1.r != v0.r:
                raise Unsupported('map changed while its values are updated')
            return
        if v0.r != v1.r and s1.norm(v0.r) != s1.norm(v1.r):
            out.append((path, 'm'))
        elif v1.zf is not True and v0.zf is True or len(v1.dirty) > len(v0.dirty):
            out.append((path, 'mz'))
        elif v1.rem != v0.rem:
            out.append((path, 'mrem'))
        return
    if isinstance(v0, VecV) and isinstance(v1, VecV):
        if v0 != v1:
            k = len(v0.segs)
            new = v1.segs[:k] != v0.segs
            out.append((path, 'A' if new and len(v0.segs) and arr.depth(v0) and arr.depth(v1) == arr.depth(v0)
                        and s1.norm(I.vec_len(v0) - I.vec_len(v1)).is_zero() else 'v'))
        return
    if isinstance(v0, (VecV, ArrV)) and isinstance(v1, (VecV, ArrV)):
        if v0 != v1:
            out.append((path, 'A'))
        return
    if isinstance(v0, StrV) and isinstance(v1, StrV):
        if v0 != v1:
            out.append((path, 's'))
        return
    if isinstance(v0, SetV) and isinstance(v1, SetV):
        if v0 != v1:
            out.append((path, 'set'))
        return
    if isinstance(v0, IterV) and isinstance(v1, IterV):
        if v0 != v1:
            if isinstance(v1.pos, tuple) and v1.pos[0] == 'cons' and v1.with_(pos=0) == v0.with_(pos=0):
                return
            raise Unsupported('second iterator advanced in the loop')
        return
    if isinstance(v0, Rec) and isinstance(v1, Rec) and v0.ty == v1.ty and len(v0.f) == len(v1.f):
        for i in range(len(v0.f)):
            diff(I, s0, s1, v0.f[i], v1.f[i], path + (i,), out, ctx)
        return
    if isinstance(v0, Clos) and isinstance(v1, Clos) and v0.d == v1.d:
        for i in range(len(v0.f)):
            diff(I, s0, s1, v0.f[i], v1.f[i], path + (i,), out, ctx)
        return
    if isinstance(v0, En) and isinstance(v1, En) and v0.ty == v1.ty and v0.v == v1.v and len(v0.f) == len(v1.f):
        for i in range(len(v0.f)):
            diff(I, s0, s1, v0.f[i], v1.f[i], path + (i,), out, ctx)
        return
    if v0 == v1:
        return
    if isinstance(v0, (Opaque, Text)):
        return
    if isinstance(v1, Opaque):
        raise Unsupported('loop-carried value is not known: ' + v1.why)
    if isinstance(v1, Text):
        raise Unsupported('loop-carried text')
    if isinstance(v0, Ref) and isinstance(v1, Ref):
        raise Unsupported('reference reassigned in a loop')
    out.append((path, 'x'))


def mu_atom(uid, slot):
    return atom(('mu', uid, slot.name()))


def mu_lit(uid, slot):
    return ('lit', ('b', 'mu', uid, slot.name()), True)


def mu_value(I, uid, slot, v0, zf):
    k = slot.kind
    if k in ('p', 'R'):
        return mu_atom(uid, slot)
    if k == 'm':
        return MapV(mu_atom(uid, slot), zf, (), None, v0.rem)
    if k == 'b':
        return Bool(mu_lit(uid, slot))
    if k == 'v':
        return VecV((('mu', uid, slot.name()),))
    if k == 'A':
        return ArrV(mu_atom(uid, slot), slot.dims)
    if k == 's':
        return StrV((('mu', uid, slot.name()),))
    if k == 'set':
        return SetV((('mu', uid, slot.name(), None),))
    raise Unsupported('loop-carried value of kind ' + k)


def has_mu(x, uid):
    """does a value / formula mention a loop-carried atom of uid?"""
    if isinstance(x, P) or isinstance(x, tuple):
        return ring.mentions(x, 'mu', uid) or _blit(x, uid)
    def test(y):
        if isinstance(y, tuple) and len(y) >= 2 and y[0] == 'mu':
            return y[1] == uid
        return ring.mentions(y, 'mu', uid) or _blit(y, uid)
    return value_mentions(x, test)


def _blit(x, uid):
    """boolean literal ('b','mu',uid,..) occurring in a formula"""
    if isinstance(x, tuple):
        if len(x) == 4 and (x[0] == 'b' and x[1] in ('mu', 'mue') and x[2] == uid or x[0] == 'mu' and x[1] == uid):
            return True
        return any(_blit(y, uid) for y in x if isinstance(y, tuple))
    return False


class Fix:
    """result of abstracting a loop body"""
    pass


def all_lits(facts, base):
    n = len(base.lits)
    if facts.lits[:n] == base.lits:
        return [('lit', k, v) for k, v in facts.lits[n:]]
    have = set(base.lits)
    return [('lit', k, v) for k, v in facts.lits if (k, v) not in have]


def fixpoint(I, body, s, cells, uid, setup=None, pre=None):
    """abstract the body for generic loop-carried values"""
    slots = {}
    invs = {}       # slot -> set of candidate names
    zfs = {}
    extra = []      # additional facts about the carried values
    outs = None
    for rnd in range(14):
        S = s.copy()
        for (c, p), sl in slots.items():
            v0 = vget(s.c[c], p)
            S.c[c] = vset(S.c[c], p, mu_value(I, uid, sl, v0, zfs.get((c, p), True)))
            for inv in invs.get((c, p), ()):
                S.assume(inv_formula(inv, mu_atom(uid, sl)))
        if setup:
            setup(S)
        for f in extra:
            S.assume(f)
        outs = body(S)
        for o in outs:
            if o.kind == 'unk':
                raise Unsupported(o.why or 'loop body')
        backs = [o for o in outs if o.kind in ('back', 'skip')]
        new = []
        again = False
        for o in backs:
            for c in cells:
                if c not in S.c:
                    continue
                d = []
                ctx = {}
                diff(I, S, o.st, S.c[c], o.st.c.get(c), (), d, ctx)
                for path, kind in d:
                    if (c, path) in slots:
                        if kind in ('m', 'mz'):
                            m = I.clean(o.st, vget(o.st.c[c], path))
                            if (m.dirty or m.zf is not True) and zfs.get((c, path), True) is True:
                                zfs[(c, path)] = False
                                again = True
                        if kind == 'R' and slots[(c, path)].kind == 'p':
                            slots[(c, path)].kind = 'R'
                            again = True
                        continue
                    if kind in ('pend', 'mrem'):
                        continue
                    if kind == 'mz':
                        kind = 'm'
                    if (c, path, kind) not in new:
                        new.append((c, path, kind))
        if new:
            for c, path, kind in new:
                if kind == 'x':
                    raise Unsupported('loop-carried alternative (%s)' % (type(vget(s.c[c], path)).__name__,))
                if (c, path) in slots:
                    if kind == 'R':
                        slots[(c, path)].kind = 'R'
                    continue
                v0 = vget(s.c[c], path)
                sl = Slot(c, path, kind, len(slots))
                if kind == 'A':
                    sl.dims = arr.to_arr(I, s, v0).dims
                slots[(c, path)] = sl
                if kind == 'p':
                    invs[(c, path)] = [i for i in ('ge1', 'ge0') if s.know(inv_formula(i, v0)) is True]
                if kind == 'm':
                    m = I.clean(s, v0)
                    if m.dirty or m.zf is not True:
                        zfs[(c, path)] = False
            continue
        if again:
            continue
        # the invariants have to be preserved
        drop = False
        for (c, p), sl in slots.items():
            for inv in list(invs.get((c, p), ())):
                for o in backs:
                    v = vget(o.st.c[c], p)
                    if o.st.know(inv_formula(inv, v)) is not True:
                        invs[(c, p)].remove(inv)
                        drop = True
                        break
        if drop:
            continue
        F = Fix()
        F.S, F.outs, F.backs, F.slots, F.invs, F.zfs = S, outs, backs, slots, invs, zfs
        if pre and not extra:
            extra = pre(F)
            if extra:
                continue
        return F
    raise Unsupported('no stable loop abstraction')


def inv_formula(n, v):
    return ge0(v) if n == 'ge0' else ge0(v - 1)


# ---- generic iteration over a collection ----------------------------------------------------

def fresh_lookup_facts(I, s, F, uid, coll, ordered):
    """coef(mu, K(u)) = coef(init, K(u)) when the keys written so far differ from K(u)"""
    res = []
    for (c, p), sl in F.slots.items():
        if sl.kind != 'm':
            continue
        mu = mu_atom(uid, sl)
        init = vget(s.c[c], p).r
        looks = {}
        for o in F.outs:
            ats = set()
            for k, v in o.st.facts.lits:
                acc = set()
                lit_atoms(k, acc)
                ats |= acc
            if c in o.st.c and o.kind in ('back', 'skip'):
                m = vget(o.st.c[c], p)
                if isinstance(m, MapV):
                    m.r.atoms(True, ats)
            for a in ats:
                k = nf.atom_key(a)
                if k[0] == 'coef' and k[1] == mu:
                    looks.setdefault(a, (k, []))[1].append(o.st)
        if not looks:
            continue
        # keys written by the body
        writes = []
        okk = True
        for o in F.backs:
            m = vget(o.st.c[c], p)
            d = o.st.norm(m.r - mu)
            ks = written_keys(I, o.st, m.r - mu, mu)
            if ks is None:
                okk = False
                break
            writes += [(w, o.st) for w in ks]
        if not okk:
            continue
        for a, (k, users) in looks.items():
            if all(distinct(I, s, F, uid, coll, k, w, wst, ust) for w, wst in writes for ust in users):
                from interp import coef_of
                v = coef_of(init, k[2], k[3], k[4], k[5], None)
                res.append(eq(atom(k), v))
    return res


def written_keys(I, st, d, mu):
    """(x,y,q,vk) of the explicit monomials of a difference"""
    out = []
    for m, c in d.t.items():
        sc, rr = ring.split_mono(m)
        ex = ring.explicit_key(rr)
        if ex is None:
            return None
        x, y, q, vs = ex
        if not vs:
            vk = ('e',)
        elif len(vs) == 1 and vs[0][1] == 1:
            k = nf.atom_key(vs[0][0])
            vk = ('ij', k[1], k[2]) if k[0] == 'V' else ('K', k[1])
        else:
            return None
        if (x, y, q, vk) not in out:
            out.append((x, y, q, vk))
    return out


def distinct(I, s, F, uid, coll, k, w, wst, ust):
    """the key looked up for one element is not written for another element"""
    u2 = ring.fresh()
    ren = lambda x: ring.rename_bound(x, ('bv', uid), ('bv', u2))
    st = St({}, F.S.facts)
    # facts on the paths that look the key up, and those of the other element
    for kk, v in ust.facts.lits:
        if not has_mu(kk, uid):
            try:
                st.assume(('lit', kk, v))
            except (NeedFork, Infeasible):
                pass
    lits = [('lit', kk, v) for kk, v in wst.facts.lits if not has_mu(kk, uid)]
    try:
        for l in lits:
            st.assume(rename_formula(l, uid, u2))
    except (NeedFork, Infeasible):
        pass
    wx, wy, wq = ren(w[0]), ren(w[1]), ren(w[2])
    wv = w[3]
    if wv[0] == 'ij':
        wv = ('ij', ren(wv[1]), ren(wv[2]))
    elif wv[0] == 'K':
        wv = ('K', ring._replace_tuple(wv[1], lambda t: ('bv', u2, t[2]) if len(t) == 3 and t[0] == 'bv' and t[1] == uid else None))
    same = f_and(eq(k[2], wx), eq(k[3], wy), eq(k[4], wq), I.var_eq(k[5], wv))
    if coll[0] == 'range':
        diffs = [f_not(eq(ring.bv(uid, 'e'), ring.bv(u2, 'e')))]
    elif coll[0] == 'map':
        kv1, kv2 = ('K', ('bv', uid, 'kv')), ('K', ('bv', u2, 'kv'))
        diffs = [f_not(f_and(eq(ring.bv(uid, 'kx'), ring.bv(u2, 'kx')), eq(ring.bv(uid, 'ky'), ring.bv(u2, 'ky')),
                             eq(ring.bv(uid, 'kq'), ring.bv(u2, 'kq')), I.var_eq(kv1, kv2)))]
    else:
        return False
    for f1 in st.facts.add(same):
        for f2 in f1.add(diffs[0]):
            if DBG: print('rem', f2)
            # a remaining possibility
            return False
    return True


def generic(I, body, s, cells, name, ref, it):
    """summary of iterating over one abstract collection: (final states, other outcomes)"""
    uid = ring.fresh()
    coll = seg_coll(I, s, it)
    coll = norm_coll(s, coll)
    if it.base[0] == 'coll':
        it = it.with_(base=('coll', coll))
    zero_vals = coll[0] == 'map' and isinstance(it.end, tuple) and it.base[0] == 'coll'
    if not zero_vals and coll[0] in ('map', 'range', 'vec'):
        ne = ring.nonempty(coll)
        if ne is False or ne is not True and s.know(ne) is False:
            return [s.copy()], []
    I.models.reg_elem(uid, coll)
    s = s.copy()
    I.write(s, ref.cell, ref.path, it.with_(pos=('gen', uid)))
    ccells = [c for c in cells if c != ref.cell] + [ref.cell]
    base = s.copy()
    I.models.elem_facts(I, base, coll, uid)
    if coll[0] == 'map' and not zero_vals:
        base.assume(f_not(eq0(ring.bv(uid, 'val'))))
    base_n = base
    F = fixpoint(I, body, base_n, ccells, uid, pre=lambda F: fresh_lookup_facts(I, base_n, F, uid, coll, None))
    rev = it.rev
    sol = solve(I, F, F.S, s, uid, coll, rev, zero_vals)
    if zero_vals and any(o.kind not in ('back', 'skip') for o in F.outs):
        raise Unsupported('exit from a loop over a map with possible zero entries')
    fin, early = finish(I, F, F.S, s, uid, coll, rev, sol)
    if I.contract is not None and not rev and (sol['todo'] or any(o.kind == 'unk' for o in early)):
        import contracts
        r = contracts.list_hook(I, s, F, coll, uid, name)
        if r is not None:
            return r
    if sol['todo'] or any(o.kind == 'unk' for o in early) or unfold.inside(F.outs, base.facts) or I.retry and early:
        r = unfold.install(I, s, F, coll, rev, uid, name)
        if r is not None:
            return [r[0]], r[1]
    I.loops_done.append((name, coll[0], len(F.backs), len(F.slots)))
    return fin, early


def norm_coll(s, coll):
    if coll[0] == 'map':
        return ('map', s.norm(coll[1]))
    if coll[0] == 'range':
        return ('range', s.norm(coll[1]), s.norm(coll[2]))
    return coll


def nonmu_guard(o, base, uid):
    """conjunction of the decisions taken that do not depend on carried values"""
    fs, mu = [], False
    for l in all_lits(o.st.facts, base.facts):
        if has_mu(l, uid):
            mu = True
        else:
            fs.append(l)
    return f_and(*fs), mu


class Unsolved(Exception):
    pass


def disjoint(base, g1, g2):
    f = f_and(g1, g2)
    if f is False:
        return True
    return not base.facts.add(f)


def cover(gs):
    """simplify the disjunction of mutually exclusive guards"""
    gs = [g for g in gs if g is not False]
    # merge pairs g&l, g&!l
    sets = []
    for g in gs:
        if g is True:
            return True
        if g[0] == 'lit':
            sets.append(frozenset([(g[1], g[2])]))
        elif g[0] == 'and' and all(x[0] == 'lit' for x in g[1]):
            sets.append(frozenset((x[1], x[2]) for x in g[1]))
        else:
            return f_or(*gs)
    ch = True
    while ch:
        ch = False
        for i in range(len(sets)):
            for j in range(len(sets)):
                if i == j:
                    continue
                a, b = sets[i], sets[j]
                if a <= b:
                    sets = [x for n, x in enumerate(sets) if n != j]
                    ch = True
                    break
                for k, v in a:
                    # a = A & l, b contains A & !l : drop !l from b
                    if (k, not v) in b and (a - {(k, v)}) <= (b - {(k, not v)}):
                        nb = b - {(k, not v)}
                        sets = [nb if n == j else x for n, x in enumerate(sets)]
                        ch = True
                        break
                if ch:
                    break
            if ch:
                break
    if any(not x for x in sets):
        return True
    return f_or(*[f_and(*[('lit', k, v) for k, v in sorted(x, key=repr)]) for x in sets])


def nlits(g):
    if isinstance(g, bool):
        return 0
    if g[0] == 'lit':
        return 1
    return sum(nlits(x) for x in g[1])


DONTCARE = []      # guards under which the loop is left early (do not occur on completion)


def cover_dc(gs):
    a = cover(gs)
    if DONTCARE and DONTCARE[-1] and a is not True:
        b = cover(list(gs) + DONTCARE[-1])
        if nlits(b) < nlits(a):
            return b
        # drop single literals whose removal only adds don't-care cases
    return a


def generalise(v, st):
    """value with the unknowns decided empty written out (they are 1 there)"""
    if not isinstance(v, P) or not ring.is_ring(v):
        return None
    f = ONE
    for k, b in st.facts.lits:
        if b and k[:2] == ('b', 'empty'):
            f = f * atom(('Vs', k[2]))
    return v * f if f != ONE else None


def group_cases(base, cases, same):
    """cases: (guard, mu?, value, st).  Merge the cases with equal value; cases whose guards
    overlap must agree"""
    best = None
    alt = [generalise(v, st) for g, mu, v, st in cases]
    tries = [[c[2] for c in cases]]
    if any(x is not None for x in alt):
        tries.append([x if x is not None else c[2] for x, c in zip(alt, cases)])
    err = None
    for vals in tries:
        try:
            gr = group_cases1(base, [(c[0], c[1], v, c[3]) for c, v in zip(cases, vals)], same)
        except Unsolved as e:
            err = e
            continue
        if best is None or len(gr) <= len(best):
            best = gr
    if best is None:
        raise err
    return best


def group_cases1(base, cases, same):
    groups = []
    for g, mu, v, st in cases:
        for gr in groups:
            how = None
            if same(gr[1], v, st, []):
                how = gr[1]
            elif all(same(v, gr[1], x, []) for x in gr[3]):
                how = v
            if how is not None:
                gr[0].append(g)
                gr[1] = how
                gr[2] = gr[2] or mu
                gr[3].append(st)
                break
        else:
            groups.append([[g], v, mu, [st]])
    if len(groups) == 1:
        # every iteration that completes does this
        return [(True, groups[0][1])]
    for i in range(len(groups)):
        for j in range(i):
            if groups[i][2] or groups[j][2]:
                for a in groups[i][0]:
                    for b in groups[j][0]:
                        if not disjoint(base, a, b):
                            raise Unsolved('cases depend on the running value')
    return [(cover_dc(gr[0]), gr[1]) for gr in groups]


def solve(I, F, base, s, uid, coll, rev, zero_vals=False):
    """closed forms of the carried values: slot -> (final value, prefix value or None)"""
    sol = {}
    todo = dict(F.slots)
    dc = []
    for o in F.outs:
        if o.kind not in ('back', 'skip'):
            g, mu = nonmu_guard(o, base, uid)
            if not mu and g is not False:
                dc.append(quantify(g, uid))
    DONTCARE.append([g for g in dc if g is not False])
    try:
        return solve1(I, F, base, s, uid, coll, rev, zero_vals, sol, todo)
    finally:
        DONTCARE.pop()


def quantify(g, uid):
    """bind the witnesses introduced inside the loop body"""
    if isinstance(g, bool):
        return g
    from interp import ELEMS
    ws = set()
    _wits(g, ws)
    for w in sorted((w for w in ws if isinstance(w, int) and w > uid), reverse=True):
        if w in ELEMS:
            g = ring.mk_ex(ELEMS[w], w, g)
            if isinstance(g, bool):
                return g
    return g


def _wits(x, acc):
    if isinstance(x, P):
        for a in x.atoms():
            _wits(nf.atom_key(a), acc)
    elif isinstance(x, (tuple, frozenset)):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'bv':
            acc.add(x[1])
        for y in x:
            if isinstance(y, (P, tuple, frozenset)):
                _wits(y, acc)


def solve1(I, F, base, s, uid, coll, rev, zero_vals, sol, todo):
    # flags first: literals about them are rewritten
    prog = True
    pref = {}        # atom id of mu -> prefix closed form
    blits = {}       # boolean literal key -> formula
    why = {}
    while todo and prog:
        prog = False
        for key, sl in list(todo.items()):
            try:
                r = solve_slot(I, F, base, s, uid, coll, rev, key, sl, pref, blits, zero_vals)
            except Unsolved as e:
                why[key] = str(e)
                continue
            if r[0] is None:
                # only its emptiness is known so far
                k = ('b', 'mue', uid, sl.name())
                if k not in blits:
                    blits[k] = r[2]
                    prog = True
                why[key] = 'appended value depends on carried values'
                continue
            sol[key] = r[0]
            if r[1] is not None:
                if sl.kind in ('p', 'R', 'm', 'A'):
                    pref[nf.atom_id(('mu', uid, sl.name()))] = r[1]
                elif sl.kind == 'b':
                    blits[('b', 'mu', uid, sl.name())] = r[1]
            if len(r) > 2 and r[2] is not None:
                blits[('b', 'mue', uid, sl.name())] = r[2]
            del todo[key]
            prog = True
    for key in todo:
        sol[key] = Opaque('loop-carried: ' + why.get(key, '?'))
    # maps updated in place and removals
    sol['pend'] = pend_updates(I, F, base, s, uid, coll, rev)
    sol['pref'] = pref
    sol['blits'] = blits
    sol['todo'] = todo
    return sol


def sub_state(pref, blits):
    return subst_mapper(pref, blits) if (pref or blits) else None


def cases_of(I, F, base, uid, key, sl, pref, blits):
    """(guard, mu?, new value, facts) for every back edge, after replacing the solved values"""
    mp = sub_state(pref, blits)
    out = []
    for o in F.backs:
        c, p = key
        v = vget(o.st.c[c], p)
        if isinstance(v, MapV):
            v = I.clean(o.st, v)
        if isinstance(v, (P,)):
            v = o.st.norm(v)
        elif isinstance(v, MapV):
            v = MapV(o.st.norm(v.r), v.zf, v.dirty, v.pend, v.rem)
        fs = []
        mu = False
        dead = False
        facts = base.facts
        for l in all_lits(o.st.facts, base.facts):
            if mp:
                l = mp.formula(l)
                if l is True:
                    continue
                if l is False:
                    dead = True
                    break
            if has_mu(l, uid):
                mu = True
            else:
                fs.append(l)
        if dead:
            continue
        if mp:
            v = mp.v(v)
        g = f_and(*fs)
        if g is False:
            continue
        if sl.kind in ('p', 'R', 'm', 'b') and g is not True and witnesses(g, uid) and not witnesses(val_parts(v), uid):
            # chosen elements of inner searches that only matter for the condition
            g = quantify(g, uid)
        out.append((g, mu, v, o.st))
    return out


def val_parts(v):
    return (v,) if isinstance(v, P) else (v.r,) if isinstance(v, MapV) else (v.f,) if isinstance(v, Bool) and not isinstance(v.f, bool) else ()


def witnesses(x, uid):
    """elements chosen by searches inside the loop body"""
    from interp import ELEMS
    ws = set()
    _wits(x, ws)
    return sorted(w for w in ws if isinstance(w, int) and w > uid and w in ELEMS)


def solve_slot(I, F, base, s, uid, coll, rev, key, sl, pref, blits, zero_vals):
    c, p = key
    init = vget(s.c[c], p)
    cases = cases_of(I, F, base, uid, key, sl, pref, blits)
    if zero_vals and sl.kind not in ('p', 'R', 'm'):
        raise Unsolved('entries that may be zero contribute')
    if sl.kind in ('p', 'R'):
        return solve_num(I, base, s, uid, coll, rev, mu_atom(uid, sl), init, cases, zero_vals)
    if sl.kind == 'm':
        cs = [(g, mu, v.r, st) for g, mu, v, st in cases]
        total, pf = solve_num(I, base, s, uid, coll, rev, mu_atom(uid, sl), init.r, cs, zero_vals)
        zf = F.zfs.get(key, True)
        rem = None
        if zf is False and not init.rem and not init.pend:
            zf = written(I, s, init, [(g, mu, v) for g, mu, v, st in
                                      cases_of(I, F, base, uid, key, sl, pref, blits)], coll, uid)
        # zero entries: the keys removed in the loop
        return MapV(total, zf, (), None, init.rem if zf is True else init.rem), pf
    if sl.kind == 'b':
        if any(witnesses((g,) + val_parts(v), uid) for g, m, v, st in cases):
            raise Unsolved('value depends on a searched element')
        return solve_bool(I, base, s, uid, coll, rev, sl, init, cases)
    if sl.kind == 'A':
        return arr.solve_array(I, base, s, uid, coll, rev, sl, init, cases, Unsolved, has_mu, disjoint)
    if sl.kind in ('v', 's', 'set'):
        return solve_append(I, base, s, uid, coll, rev, sl, init, cases)
    raise Unsolved('kind ' + sl.kind)


def written(I, s, init, cases, coll, uid):
    """the keys a loop stores at, when it does nothing else to the entries"""
    init = I.clean(s, init)
    w = init.zf if isinstance(init.zf, Written) else Written(init.zf is True, ()) if isinstance(init.zf, bool) else None
    if w is None:
        return False
    w = w.with_([((), k) for k, _ in init.dirty])
    for g, mu, v in cases:
        if v.rem or v.pend or v.zf is True:
            return False
        if isinstance(v.zf, tuple):
            return False
        parts = [((), k) for k, _ in v.dirty]
        if isinstance(v.zf, Written):
            if v.zf.base is not False:
                return False
            parts += list(v.zf.parts)
        if mu and parts:
            return False
        w = w.with_([(((coll, uid, g),) + bs, k) for bs, k in parts])
        if any(has_mu(x, uid) for bs, k in parts for x in [(k.x, k.y, k.q, k.i, k.j, k.e)]):
            return False
    return w


def count_form(coll):
    if coll[0] == 'range':
        return coll[2] - coll[1]
    return None


def prefix_coll(coll, uid, rev):
    if coll[0] != 'range':
        return None
    e = ring.bv(uid, 'e')
    return ('range', e + 1, coll[2]) if rev else ('range', coll[1], e)


def ren_uid(x, u1, u2):
    if isinstance(x, bool):
        return x
    return ring.rename_bound(x, ('bv', u1), ('bv', u2))


def solve_num(I, base, s, uid, coll, rev, mu, init, cases, zero_vals):
    mid = mu.as_atom()

    def norm_in(st, x):
        return st.norm(x)
    # additive: a delta valid in every case
    def additive():
        cs = []
        for g, m, v, st in cases:
            d = v - mu
            if mentions_id(d, mid):
                d = st.norm(d)
                if mentions_id(d, mid):
                    return None
            if has_mu(d, uid):
                return None
            cs.append((g, m, d, st))

        def same(a, b, st, sts):
            return a == b or st.norm(a - b).is_zero()
        return group_cases(base, cs, same)
    gr = additive()
    if gr is not None:
        if zero_vals:
            v0 = {nf.atom_id(('bv', uid, 'val')): ZERO}
            for g, d in gr:
                if not nf.subst(d, v0).is_zero() and not (isinstance(g, tuple) and
                                                          not base.facts.add(f_and(g, eq0(ring.bv(uid, 'val'))))):
                    raise Unsolved('entries that may be zero contribute')
        return close_sum(I, base, s, uid, coll, rev, init, gr)
    if any(witnesses((g, v), uid) for g, m, v, st in cases):
        raise Unsolved('value depends on a searched element')
    # affine: v = a*mu + b
    aff = []
    modp = None
    reds = [v.as_atom() is not None and (nf.atom_key(v.as_atom())[:2] == ('rapp', 'trunc') or
                                         nf.atom_key(v.as_atom())[0] == 'mod') for g, m, v, st in cases]
    for g, m, v, st in cases:
        w = v
        at = v.as_atom()
        if v == mu:
            aff.append((g, m, ONE, ZERO, st))
            continue
        if at is not None and nf.atom_key(at)[:2] == ('rapp', 'trunc'):
            k = nf.atom_key(at)
            if modp is not None and modp != ('trunc', k[3]):
                raise Unsolved('different truncations')
            if has_mu(k[3], uid) or ring.mentions(k[3], 'bv', uid):
                raise Unsolved('truncation order changes')
            modp = ('trunc', k[3])
            a, b = linear_in(k[2], mid)
            if a is None or has_mu(a, uid) or has_mu(b, uid):
                aff = None
                break
            aff.append((g, m, a, b, st))
            continue
        if at is not None and nf.atom_key(at)[0] == 'mod':
            k = nf.atom_key(at)
            if modp is not None and modp != k[2]:
                raise Unsolved('different moduli')
            if has_mu(k[2], uid) or ring.mentions(k[2], 'bv', uid):
                raise Unsolved('modulus changes')
            modp = k[2]
            w = ring.strip_deep(k[1], modp)
        a, b = linear_in(w, mid)
        if a is None or has_mu(a, uid) or has_mu(b, uid):
            aff = None
            break
        aff.append((g, m, a, b, st))
    if aff is not None and modp is not None and any(v != mu and red is False for (g, m, v, st), red in zip(cases, reds)):
        raise Unsolved('a step without the reduction')
    if aff is not None:
        def same2(x, y, st, sts):
            return all(p == q or st.norm(p - q).is_zero() for p, q in zip(x, y))
        gr = group_cases(base, [(g, m, (a, b), st) for g, m, a, b, st in aff], same2)
        r = close_affine(I, base, s, uid, coll, rev, init, gr, modp)
        if r is not None:
            return r
    # last value
    if cases and all(not has_mu(v, uid) and not m for g, m, v, st in cases):
        gr = group_cases(base, [(g, m, v, st) for g, m, v, st in cases], lambda a, b, st, sts: a == b or st.norm(a - b).is_zero())
        if len(gr) == 1 and gr[0][0] is True:
            v = gr[0][1]
            if not ring.mentions(v, 'bv', uid):
                last = v
            elif coll[0] == 'range':
                last = nf.subst(v, {nf.atom_id(('bv', uid, 'e')): coll[1] if rev else coll[2] - 1})
            elif coll[0] == 'map':
                u2 = ('ext', 'first' if rev else 'last', coll[1])
                I.models.reg_elem(u2, coll)
                last = ring.rename_bound(v, ('bv', uid), ('bv', u2))
            else:
                raise Unsolved('last value')
            ne = ring.nonempty(coll)
            k = s.know(ne)
            if k is True:
                return last, None
            if k is False:
                return init, None
            raise NeedFork(ne)
    # running extremum
    r = extremum(I, base, s, uid, coll, mu, init, cases)
    if r is not None:
        return r
    raise Unsolved('recurrence')


def extremum(I, base, s, uid, coll, mu, init, cases):
    keep = [c for c in cases if c[2] == mu]
    take = [c for c in cases if c[2] != mu]
    if not take or not keep:
        return None
    f = take[0][2]
    if any(c[2] != f for c in take) or has_mu(f, uid):
        return None
    # taken exactly when mu < f (or f < mu)
    for name, lt_ in (('max', lt(mu, f)), ('min', lt(f, mu))):
        okk = all(st.know(lt_) is True or st.know(eq(mu, f)) is True for g, m, v, st in take) and \
            all(st.know(lt_) is False for g, m, v, st in keep)
        if okk:
            a = mk_ext(name, coll, uid, True, f, init)
            return a, None
    return None


def mk_ext(name, coll, uid, guard, body, init):
    n = 1 + ring.bb_level(coll, guard if isinstance(guard, tuple) else (), body, init)
    g = guard if isinstance(guard, bool) else ring.canon_guard(ring.rename_bound(guard, ('bv', uid), ('bb', n)))
    b = ring.rename_bound(body, ('bv', uid), ('bb', n))
    return atom((name, coll, g, b, n, init))


def mentions_id(p, aid):
    return aid in p.atoms()


def linear_in(p, aid):
    """p = a*atom + b with a, b free of the atom"""
    a, b = ZERO, ZERO
    for m, c in p.t.items():
        e = 0
        rest = []
        for x, k in m:
            if x == aid:
                e = k
            else:
                rest.append((x, k))
        if e == 0:
            b = b + P({m: c})
        elif e == 1:
            a = a + P({tuple(rest): c})
        else:
            return None, None
    if mentions_id(a, aid) or mentions_id(b, aid):
        return None, None
    return a, b


def close_sum(I, base, s, uid, coll, rev, init, gr):
    total = init
    for g, d in gr:
        total = total + sum_over(coll, uid, g, d)
    pf = None
    if coll[0] == 'range':
        u2 = ring.fresh()
        pc = prefix_coll(coll, uid, rev)
        if all(g is True or not _free_pos(g) for g, d in gr):
            pf = init
            for g, d in gr:
                pf = pf + sum_over(pc, u2, ren_uid(g, uid, u2), ren_uid(d, uid, u2))
    elif all(not ring.mentions(d, 'bv', uid) for g, d in gr) and len([1 for g, d in gr if not d.is_zero()]) == 1:
        g, d = [x for x in gr if not x[1].is_zero()][0]
        if g is True and not ring.mentions(d, 'bv', uid):
            pf = init + d * ring.bv(uid, 'pos')
    elif all(d.is_zero() for g, d in gr):
        pf = init
    return total, pf


def _free_pos(g):
    return _blit_first(g)


def _blit_first(x):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'b' and x[1] == 'first':
            return True
        return any(_blit_first(y) for y in x if isinstance(y, tuple))
    return False


def sum_over(coll, uid, g, d):
    """guarded sum; a guard that only bounds the index narrows the range"""
    from interp import ELEMS
    ws = witnesses((g, d), uid)
    if ws:
        # a search over a range ends at one element for each round: sum over that element too
        if any(ELEMS[w][0] != 'range' for w in ws):
            raise Unsolved('value depends on a searched element')
        for w in ws[::-1]:
            d = ring.mk_sum(ELEMS[w], w, g, d)
            g = True
    if coll[0] == 'range' and isinstance(g, tuple):
        g, coll, pin = narrow(coll, uid, g)
        if pin is not None:
            return nf.subst(d, {nf.atom_id(('bv', uid, 'e')): pin}) if g is True else ring.mk_sum(coll, uid, g, d)
    return ring.mk_sum(coll, uid, g, d)


def narrow(coll, uid, g):
    return g, coll, None


def qnonneg(I, st, r):
    """every q exponent in r is known to be non-negative"""
    for m in r.t:
        for a, e in m:
            if not ring.atom_is_ring(a):
                continue
            k = nf.atom_key(a)
            h = k[0]
            if h in ('X', 'Y', 'V', 'Vs'):
                continue
            if h == 'Q':
                if isinstance(e, int) and e >= 0 or isinstance(e, P) and st.know(ge0(e)) is True:
                    continue
                return False
            if not (isinstance(e, int) and e >= 0):
                # powers of polynomials have non-negative exponents
                if not (isinstance(e, P) and st.know(ge0(e)) is True):
                    return False
            if h == 'mod' and qnonneg(I, st, k[1]):
                continue
            if h == 'rapp' and k[1] in ('e4', 'delta1', 'delta1_inverse', 'jq'):
                continue
            if h == 'rapp' and k[1] == 'trunc' and qnonneg(I, st, k[2]):
                continue
            if h == 'rapp' and k[1] == 'titer' and qnonneg(I, st, k[2]) and qnonneg(I, st, k[3]):
                continue
            if h in ('Sum', 'Prod') and k[1][0] == 'range':
                u = ring.fresh()
                s2 = st.copy()
                try:
                    I.models.elem_facts(I, s2, k[1], u)
                except Infeasible:
                    continue
                if qnonneg(I, s2, ring.rename_bound(k[3], ('bb', k[4]), ('bv', u))):
                    continue
            return False
    return True


def close_affine(I, base, s, uid, coll, rev, init, gr, modp):
    """mu' = a mu + b"""
    def modded(x):
        if isinstance(modp, tuple):
            return ring.mk_trunc(x, modp[1])
        return ring.mk_mod(x, modp) if modp is not None else x
    if isinstance(modp, tuple):
        N = modp[1]
        if not all(a == ONE and b.is_zero() or qnonneg(I, base, a) and qnonneg(I, base, b) for g, (a, b) in gr):
            a, b = gr[0][1]
            pc = prefix_coll(coll, uid, rev)
            n = count_form(coll)
            if len(gr) == 1 and gr[0][0] is True and b.is_zero() and not ring.mentions(a, 'bv', uid) and n is not None:
                f = lambda k: atom(('rapp', 'titer', init, a, k, N))
                return f(n), f(pc[2] - pc[1]) if pc else None
            return None
        # the truncated products form a quotient ring; the start value must be truncated
        at = init.as_atom()
        if not (init.const() is not None and s.know(ge0(N)) is True or
                at is not None and nf.atom_key(at)[:2] == ('rapp', 'trunc') and nf.atom_key(at)[3] == N):
            if not all(not (a == ONE and b.is_zero()) for g, (a, b) in gr):
                return None
            ne = ring.nonempty(coll)
            k = s.know(ne)
            if k is None:
                raise NeedFork(ne)
            if k is False:
                return init, None
    elif modp is not None:
        # the reduced form is reached once the loop has run (identity cases only keep it)
        ok = s.know(eq(init, ring.mk_mod(init, modp))) is True
        if not ok:
            allmod = all(not (a == ONE and b.is_zero()) for g, (a, b) in gr)
            ne = ring.nonempty(coll)
            k = s.know(ne)
            if not allmod:
                # an identity step may leave the unreduced start value
                return None
            if k is None:
                raise NeedFork(ne)
            if k is False:
                return init, None
    if all(b.is_zero() for g, (a, b) in gr):
        # product
        cst = [(g, a) for g, (a, b) in gr]
        if len(cst) == 1 and cst[0][0] is True and not ring.mentions(cst[0][1], 'bv', uid):
            n = count_form(coll)
            a = cst[0][1]
            if n is not None:
                pf = None
                pc = prefix_coll(coll, uid, rev)
                return modded(init * power(a, n)), modded(init * power(a, pc[2] - pc[1]))
            n = ring.mk_sum(coll, uid, True, ONE)
            return modded(init * power(a, n)), None
        r = init
        pr = init
        u2 = ring.fresh()
        pc = prefix_coll(coll, uid, rev)
        for g, a in cst:
            if a == ONE:
                continue
            r = r * mk_prod(coll, uid, g, a)
            if pc:
                pr = pr * mk_prod(pc, u2, ren_uid(g, uid, u2), ren_uid(a, uid, u2))
        return modded(r), modded(pr) if pc else None
    if coll[0] == 'range' and len(gr) == 1 and gr[0][0] is True:
        a, b = gr[0][1]
        if not ring.mentions(a, 'bv', uid):
            n = coll[2] - coll[1]
            e = ring.bv(uid, 'e')
            after = (e - coll[1]) if rev else (coll[2] - 1 - e)
            tot = init * power(a, n) + ring.mk_sum(coll, uid, True, b * power(a, after))
            return modded(tot), None
    return None


def mk_prod(coll, uid, guard, body):
    if guard is False or body == ONE:
        return ONE
    s = body.single()
    if s is not None:
        # split into factors
        r = ONE
        if s[0] != 1:
            r = r * _prod_atom(coll, uid, guard, lift(s[0]))
        for a, e in s[1]:
            f = P({((a, e),): 1})
            if isinstance(e, int) and e > 1:
                r = r * power(_prod_atom(coll, uid, guard, P({((a, 1),): 1})), e)
            else:
                r = r * _prod_atom(coll, uid, guard, f)
        return r
    return _prod_atom(coll, uid, guard, body)


def _prod_atom(coll, uid, guard, body):
    if not ring.mentions(body, 'bv', uid):
        if guard is True and coll[0] == 'range':
            return power(body, coll[2] - coll[1])
        return power(body, ring.mk_sum(coll, uid, guard, ONE))
    if guard is True:
        s = body.single()
        if s is not None and s[0] == 1 and len(s[1]) == 1 and isinstance(s[1][0][1], P) and not ring._ment_atom(s[1][0][0], 'bv', uid):
            # base constant, exponent varies
            return power(P({((s[1][0][0], 1),): 1}), ring.mk_sum(coll, uid, True, s[1][0][1]))
    n = 1 + ring.bb_level(coll, guard if isinstance(guard, tuple) else (), body)
    g = guard if isinstance(guard, bool) else ring.canon_guard(ring.rename_bound(guard, ('bv', uid), ('bb', n)))
    b = ring.rename_bound(body, ('bv', uid), ('bb', n))
    return atom(('Prod', coll, g, b, n))


def mk_prod0(coll, guard, body, n=None):
    u = ring.fresh()
    if n is None:
        n = ring.bb_level(coll, guard if isinstance(guard, tuple) else (), body)
    g = guard if isinstance(guard, bool) else ring.rename_bound(guard, ('bb', n), ('bv', u))
    b = ring.rename_bound(body, ('bb', n), ('bv', u))
    return mk_prod(coll, u, g, b)


nf.rebuild['Prod'] = mk_prod0


def first_lit(uid):
    return ('lit', ('b', 'first', uid), True)


def solve_bool(I, base, s, uid, coll, rev, sl, init, cases):
    me = mu_lit(uid, sl)
    st_true, st_false = [], []
    keep = []
    for g, m, v, st in cases:
        f = v.f
        k = st.know(f)
        if k is True and f != me and st.know(me) is not True:
            st_true.append((g, m))
        elif k is False and f != me and st.know(me) is not False:
            st_false.append((g, m))
        elif f == me or (k is not None and k == st.know(me)):
            keep.append((g, m))
        elif k is True:
            st_true.append((g, m))
        elif k is False:
            st_false.append((g, m))
        else:
            # general formula f without mu : or / and forms
            raise Unsolved('flag recurrence')
    if st_true and st_false:
        raise Unsolved('flag set both ways')
    i = s.know(init.f)
    sets = st_true or st_false
    val = bool(st_true)
    gs = cover([g for g, m in sets])
    kg = cover([g for g, m in keep]) if keep else False
    # unconditional setting: the flag tells the first iteration
    lits_only_mu = all(m or True for g, m in sets)
    full = cover([g for g, m in sets] + [g for g, m in keep]) is True and all(
        disjoint(base, a, b) is False for a, _ in sets[:1] for b, _ in keep) if keep else gs is True
    if gs is True and (not keep or True) and all_set(base, sets, keep, me, cases, val):
        if i is not None and i != val:
            ne = ring.nonempty(coll)
            fin = f_xor(ne, not val) if True else None
            final = ne if val else f_not(ne)
            return bval(final), (first_lit(uid) if not val else f_not(first_lit(uid)))
        if i is not None and i == val:
            return bval(val), val
    # conditional
    for g, m in sets:
        for k, m2 in keep:
            if not disjoint(base, g, k) and (m or m2):
                # decisions depend on the flag itself: allowed when the flag only gates
                if not gate_only(g, k):
                    raise Unsolved('flag depends on carried values')
    ex = ring.mk_ex(coll, uid, gs)
    fin = f_or(init.f, ex) if val else f_and(init.f, f_not(ex))
    return bval(fin), None


def gate_only(g, k):
    return True


def all_set(base, sets, keep, me, cases, val):
    """in every iteration the flag ends up as val"""
    for g, m, v, st in cases:
        k = st.know(v.f)
        if k is None or k != val:
            return False
    return True


def solve_append(I, base, s, uid, coll, rev, sl, init, cases):
    tag = ('mu', uid, sl.name())
    cs = []
    nonempty_all = True
    for g, m, v, st in cases:
        segs = v.segs if isinstance(v, VecV) else v.parts
        hd = tag if sl.kind != 'set' else ('mu', uid, sl.name(), None)
        if not segs or segs[0] != hd:
            if sl.kind == 's' and hd in segs:
                # prepended text: walk in the other direction
                raise Unsolved('prepended text')
            raise Unsolved('vector rebuilt')
        add = segs[1:]
        cs.append((g, m, add, st))
    def has(x):
        return any(isinstance(y, tuple) and y[:2] == ('mu', uid) for y in x)
    for g, m, add, st in cs:
        v = VecV(add) if sl.kind == 'v' else SetV(add) if sl.kind == 'set' else StrV(add)
        if has_mu(v, uid):
            raise Unsolved('appended value depends on carried values')
    # emptiness literal
    mue = None
    empty_init = not (init.segs if sl.kind == 'v' else init.parts)
    if empty_init and sl.kind in ('s', 'v') and all(any(p[0] in ('s', 'd', 'it') for p in add) for g, m, add, st in cs):
        mue = first_lit(uid)
    for g, m, add, st in cs:
        if m:
            pass
    groups = []
    for g, m, add, st in cs:
        for gr in groups:
            if gr[1] == add:
                gr[0].append(g)
                gr[2] = gr[2] or m
                break
        else:
            groups.append([[g], add, m])
    for i in range(len(groups)):
        for j in range(i):
            if groups[i][2] or groups[j][2]:
                for a in groups[i][0]:
                    for b in groups[j][0]:
                        if not disjoint(base, a, b):
                            if mue is not None:
                                return None, None, mue
                            raise Unsolved('appended value depends on carried values')
    groups = [(cover_dc(gr[0]), gr[1]) for gr in groups]
    if sl.kind == 'set':
        parts = []
        for g, add in groups:
            for c, u, g2, k in add:
                if c is not None:
                    raise Unsolved('nested set')
                parts.append((coll, uid, f_and(g, g2), k))
        return SetV(init.parts + tuple(parts)), None
    if sl.kind == 'v':
        cc = []
        for g, add in groups:
            vs = []
            for x in add:
                if x[0] != 'it':
                    raise Unsolved('nested vector segments')
                vs.append(x[1])
            if vs:
                cc.append((g, tuple(vs)))
        if not cc:
            return init, None, mue
        if len(cc) == 1 and coll[0] != 'map' and coll[0] != 'range' and coll[0] != 'nat':
            pass
        return VecV(init.segs + (('comp', coll, uid, tuple(cc), rev),)), None, mue
    cc = [(g, tuple(add)) for g, add in groups if add]
    return StrV(init.parts + (('comp', coll, uid, tuple(cc), rev),)), None, mue


def pend_updates(I, F, base, s, uid, coll, rev):
    """maps whose values are rewritten one by one"""
    res = {}
    for o in F.backs:
        for c, v in o.st.c.items():
            if c not in s.c:
                continue
            def walk(v, path):
                if isinstance(v, MapV):
                    if v.pend and v.pend[0] == uid:
                        res.setdefault((c, path), None)
                elif isinstance(v, Rec):
                    for i, x in enumerate(v.f):
                        walk(x, path + (i,))
            walk(v, ())
    out = {}
    for c, path in res:
        cases = []
        for o in F.backs:
            m = vget(o.st.c[c], path)
            if m.pend and m.pend[0] == uid:
                nv = o.st.norm(m.pend[1])
            else:
                nv = ring.bv(uid, 'val')
            g, mu = nonmu_guard(o, base, uid)
            if mu or has_mu(nv, uid):
                raise Unsupported('value update depends on carried values')
            cases.append((g, mu, nv, o.st))
        gr = group_cases(base, cases, lambda a, b, st, sts: a == b or st.norm(a - b).is_zero())
        tot = ZERO
        zeros = []
        for g, nv in gr:
            tot = tot + ring.mk_sum(coll, uid, g, nv * ring.elem_mono(uid))
            for x in base.facts.add(g):
                k = x.decide(eq0(nv))
                if k is True:
                    zeros.append(g)
                elif k is None:
                    zeros.append(f_and(g, eq0(nv)))
        zg = f_or(*zeros)
        m0 = vget(s.c[c], path)
        zf = m0.zf
        if zg is not False:
            zf = ('zeros', coll, uid, zg, gr[0][1] if len(gr) == 1 and gr[0][0] is True else None) if zf is True else False
        out[(c, path)] = MapV(tot, zf, (), None, None)
    return out


def finish(I, F, base, s, uid, coll, rev, sol):
    """final header states and early outcomes"""
    pref, blits = sol['pref'], sol['blits']
    mp = sub_state(pref, blits)
    fin = s.copy()
    for key, sl in F.slots.items():
        c, p = key
        v = sol[key]
        fin.c[c] = vset(fin.c[c], p, v)
    for (c, p), m in sol['pend'].items():
        fin.c[c] = vset(fin.c[c], p, m)
    # removals of the zero entries
    settle_removals(I, F, base, fin, uid, coll)
    early = []
    gone = []
    for o in F.outs:
        if o.kind in ('back', 'skip'):
            continue
        g, mu = nonmu_guard(o, base, uid)
        so = o.st
        if mu:
            # decisions on carried values: replace them by their prefix forms
            ls = all_lits(so.facts, base.facts)
            fs = []
            bad = False
            dead = False
            for l in ls:
                if mp:
                    l = mp.formula(l)
                if l is False:
                    dead = True
                elif has_mu(l, uid):
                    bad = True
                else:
                    fs.append(l)
            if dead:
                continue
            g = f_and(*fs)
            if bad:
                early.append(_out('unk', None, so, 'exit depends on carried values'))
                continue
        if g is False:
            continue
        gone.append(quantify(g, uid))
        # the state at the exit
        try:
            s2 = St(dict(so.c), clean_facts(base.facts, uid))
            s2.assume(g)
            f = [l for l in all_lits(so.facts, base.facts)]
        except Infeasible:
            continue
        if mp:
            s2.c = {c: mp.v(v) for c, v in s2.c.items()}
            v = mp.v(o.v) if isinstance(o.v, V0) or isinstance(o.v, P) else o.v
        else:
            v = o.v
        s2.c = {c: (hide_mu(v0, uid)) for c, v0 in s2.c.items()}
        v = hide_mu(v, uid)
        # nothing earlier left the loop
        pc = prefix_coll(coll, uid, rev)
        if pc is not None:
            u2 = ring.fresh()
            early.append((s2, o, v, u2, pc))
        else:
            early.append((s2, o, v, None, None))
    res = []
    allg = f_or(*gone) if gone else False
    for e in early:
        if not isinstance(e, tuple):
            res.append(e)
            continue
        s2, o, v, u2, pc = e
        if pc is not None:
            try:
                s2.assume(f_not(ring.mk_ex(pc, u2, ren_uid(allg, uid, u2))))
            except Infeasible:
                continue
            except NeedFork:
                pass
        res.append(_out(o.kind, v, s2, o.why))
    fins = [fin]
    if allg is not False:
        nx = f_not(ring.mk_ex(coll, uid, allg))
        fins = []
        for x in fin.facts.add(nx):
            fins.append(St(dict(fin.c), x))
    return fins, res


def clean_facts(facts, uid):
    keep = tuple((k, v) for k, v in facts.lits if not has_mu(k, uid))
    return Facts(keep) if len(keep) != len(facts.lits) else facts


def hide_mu(v, uid):
    if isinstance(v, V0) or isinstance(v, P):
        if isinstance(v, IterV):
            return v
        try:
            if has_mu(v, uid):
                return Opaque('loop-carried at exit')
        except Exception:
            return Opaque('loop-carried at exit')
    return v


def settle_removals(I, F, base, fin, uid, coll):
    done = set()
    for o in F.backs:
        for c, v in o.st.c.items():
            if c not in fin.c:
                continue

            def walk(v, path):
                if isinstance(v, MapV):
                    if (c, path) in done:
                        return
                    if v.rem and v.zf is not True:
                        done.add((c, path))
                    if v.rem and isinstance(v.zf, tuple):
                        zc, zu, zg = v.zf[1], v.zf[2], v.zf[3]
                        ok = zc == coll
                        for b in F.backs:
                            m = vget(b.st.c[c], path)
                            g, mu = nonmu_guard(b, base, uid)
                            zg2 = rename_formula(zg, zu, uid)
                            removed = m.rem and m.rem[-1] == ring.elem_key(uid)
                            none = [f_not(ring.open_ex(k, uid)) for k, t in base.facts.lits if k[0] == 'ex' and not t and k[1] == coll]
                            if not removed and not disjoint(base, f_and(g, *none), zg2):
                                ok = False
                        m0 = vget(fin.c[c], path)
                        fin.c[c] = vset(fin.c[c], path, MapV(m0.r, True if ok else False, m0.dirty, None, None))
                elif isinstance(v, Rec):
                    for i, x in enumerate(v.f):
                        walk(x, path + (i,))
            walk(v, ())


# ---- loops without an iterator -----------------------------------------------------------

def try_unroll(I, body, st):
    """a loop whose conditions are decided: follow it"""
    states = [st]
    outs = []
    for n in range(UNROLL_MAX):
        nxt = []
        for s in states:
            rs = body(s.copy())
            for o in rs:
                if o.kind in ('back', 'skip'):
                    nxt.append(o.st)
                else:
                    outs.append(o)
        if not nxt:
            return outs
        if n >= 2 and any(o.kind in ('exit',) for o in outs) and len(outs) >= n:
            return None
        if len(nxt) > 6:
            return None
        states = nxt
    return None


def while_loop(I, body, st, cells, name):
    s0 = I.steps
    try:
        r = try_unroll(I, body, st)
    except Unsupported:
        r = None
    if r is not None and not any(o.kind == 'unk' for o in r):
        I.loops_done.append((name, 'unrolled', len(r), 0))
        return r
    uid = ring.fresh()
    F = fixpoint(I, body, st, cells, uid)
    if unfold.inside(F.outs, st.facts):
        return havoc_loop(I, body, st, cells, name, uid, F)
    # a counter with a bound?
    for key, sl in F.slots.items():
        if sl.kind != 'p':
            continue
        mu = mu_atom(uid, sl)
        ds = set()
        for o in F.backs:
            v = o.st.norm(vget(o.st.c[key[0]], key[1]) - mu)
            ds.add(v)
        if len(ds) != 1:
            continue
        d = ds.pop().const()
        if d is None or d == 0:
            continue
        hi = bound_of(F, st, uid, mu, d)
        if hi is None:
            continue
        r = counter_loop(I, body, st, cells, name, key, sl, d, hi)
        if r is not None:
            return r
    r = halving_loop(I, body, st, cells, name, uid, F)
    if r is not None:
        return r
    r = search_loop(I, body, st, cells, name)
    if r is not None:
        return r
    return havoc_loop(I, body, st, cells, name, uid, F)


def search_loop(I, body, st, cells, name):
    """a loop left by a condition on state that is a function of the iteration number"""
    if I.retry:
        return None
    uid = ring.fresh()
    coll = ('nat',)
    I.models.reg_elem(uid, coll)
    try:
        s = st.copy()
        base = s.copy()
        I.models.elem_facts(I, base, coll, uid)
        F = fixpoint(I, body, base, cells, uid)
        if not F.backs:
            return None
        sol = solve(I, F, F.S, s, uid, coll, False)
        if any(isinstance(v, Opaque) for v in sol.values()):
            return None
        fin, early = finish(I, F, F.S, s, uid, ('range', ZERO, atom(('inf',))), False, sol)
    except (Unsolved, Unsupported):
        return None
    I.loops_done.append((name, 'search', len(F.backs), len(F.slots)))
    return early


def bound_of(F, st, uid, mu, d):
    """loop-invariant bound implied on every back edge: value at which the counter stops"""
    mid = mu.as_atom()
    common = None
    for o in F.backs:
        bs = set()
        for k, v in o.st.facts.lits:
            if k[0] == 'lt0':
                p = k[1]
                a, b = linear_in(p, mid)
                if a is None or a.const() not in (1, -1) or has_mu(b, uid):
                    continue
                a = a.const()
                # v: a*mu + b < 0 ; not v: a*mu + b >= 0
                if v and a == 1 and d > 0:
                    bs.add(-b)              # mu < -b
                elif v and a == -1 and d < 0:
                    bs.add(b)               # mu > b
                elif not v and a == -1 and d > 0:
                    bs.add(b + 1)           # mu <= b
                elif not v and a == 1 and d < 0:
                    bs.add(-b - 1)          # mu >= -b
            elif k[0] == 'eq0' and not v:
                a, b = linear_in(k[1], mid)
                if a is None or a.const() not in (1, -1) or has_mu(b, uid):
                    continue
                h = -b if a.const() == 1 else b
                bs.add(('ne', h))
        common = bs if common is None else common & bs
    if not common:
        return None
    best = [b for b in common if not isinstance(b, tuple)]
    if best:
        return sorted(best, key=lambda p: nf.show(p))[0]
    return sorted(common, key=lambda p: nf.show(p[1]))[0]


def counter_loop(I, body, st, cells, name, key, sl, d, hi):
    c, p = key
    init = vget(st.c[c], p)
    ne = isinstance(hi, tuple)
    if ne:
        hi = hi[1]
        # stops only when it meets the bound exactly
        if abs(d) != 1 or st.know(le(init, hi) if d > 0 else le(hi, init)) is not True:
            return None
    uid = ring.fresh()
    outs = []
    run_f = lt(init, hi) if d > 0 else lt(hi, init)
    k = st.know(run_f)
    skip = run = None
    if k is None:
        # bound not reached at entry / already reached
        run = [St(dict(st.c), x) for x in st.facts.add(le(init, hi) if d > 0 else le(hi, init))]
        skip = [St(dict(st.c), x) for x in st.facts.add(lt(hi, init) if d > 0 else lt(init, hi))]
    elif k:
        run, skip = [st], []
    else:
        run, skip = [], [st]
    for s in skip:
        for o in body(s.copy()):
            if o.kind in ('back', 'skip'):
                return None
            outs.append(o)
    for s in run:
        if d == 1:
            coll, rev = ('range', init, hi), False
            cur = ring.bv(uid, 'e')
            end = hi
        elif d == -1:
            coll, rev = ('range', hi + 1, init + 1), True
            cur = ring.bv(uid, 'e')
            end = hi
        else:
            n = ring.mk_fdiv((hi - init + d - 1) if d > 0 else (init - hi - d - 1), lift(abs(d)))
            coll, rev = ('range', ZERO, n), False
            cur = init + ring.bv(uid, 'e').scale(d)
            end = init + n.scale(d)
        coll = norm_coll(s, coll)
        I.models.reg_elem(uid, coll)
        s = s.copy()
        base = s.copy()
        base.c[c] = vset(base.c[c], p, cur)
        I.models.elem_facts(I, base, coll, uid)
        if d > 0:
            base.assume(lt(cur, hi))
        else:
            base.assume(lt(hi, cur))
        ocells = [x for x in cells]

        def body2(S):
            outs2 = body(S)
            for o in outs2:
                if o.kind in ('back', 'skip'):
                    v = vget(o.st.c[c], p)
                    if not o.st.norm(v - cur - d).is_zero():
                        raise Unsupported('counter')
                    o.st.c[c] = vset(o.st.c[c], p, cur)
            return outs2
        F = fixpoint(I, body2, base, ocells, uid, pre=lambda F: fresh_lookup_facts(I, base, F, uid, coll, None))
        sol = solve(I, F, F.S, s, uid, coll, rev)
        fins, early = finish(I, F, F.S, s, uid, coll, rev, sol)
        if sol['todo'] or any(o.kind == 'unk' for o in early) or unfold.inside(F.outs, base.facts):
            return None
        I.loops_done.append((name, 'counter', len(F.backs), len(F.slots)))
        outs += early
        for f in fins:
            f.c[c] = vset(f.c[c], p, f.norm(end))
            for o in body(f.copy()):
                if o.kind in ('back', 'skip'):
                    outs.append(_out('unk', None, o.st, 'counter loop does not stop at its bound'))
                else:
                    outs.append(o)
    return outs


def nat_loop(I, body, st, cells, name, ref, it):
    """unbounded iteration left by a condition on the index"""
    if I.retry:
        return None
    uid = ring.fresh()
    coll = ('nat',)
    I.models.reg_elem(uid, coll)
    s = st.copy()
    I.write(s, ref.cell, ref.path, it.with_(pos=('gen', uid)))
    base = s.copy()
    I.models.elem_facts(I, base, coll, uid)
    F = fixpoint(I, body, base, cells, uid)
    e = ring.bv(uid, 'e')
    # bound on the index valid on every back edge
    common = None
    for o in F.backs:
        bs = set()
        for k, v in o.st.facts.lits:
            if k[0] != 'lt0':
                continue
            a, b = linear_in(k[1], e.as_atom())
            if a is None or a.const() not in (1, -1) or has_mu(b, uid):
                continue
            a = a.const()
            if v and a == 1:
                bs.add(-b)
            elif not v and a == -1:
                bs.add(b + 1)
        common = bs if common is None else common & bs
    if common:
        hi = sorted(common, key=lambda p: nf.show(p))[0]
        sh = it.with_(base=('coll', ('range', ZERO, hi)))
        outs = []
        for s in [St(dict(st.c), x) for x in st.facts.add(ge0(hi))]:
            fin, early = generic(I, body, s, cells, name, ref, sh)
            outs += early
            for f in fin:
                # the next index is the bound itself
                f = f.copy()
                I.write(f, ref.cell, ref.path, sh.with_(base=('one', hi, 0), pos=('gen', 0)))
                for o in body(f):
                    if o.kind in ('back', 'skip'):
                        outs.append(_out('unk', None, o.st, 'unbounded loop'))
                    else:
                        outs.append(o)
        for s in [St(dict(st.c), x) for x in st.facts.add(lt0(hi))]:
            I.write(s, ref.cell, ref.path, sh.with_(base=('one', ZERO, 0), pos=('gen', 0)))
            for o in body(s):
                outs.append(o if o.kind not in ('back', 'skip') else _out('unk', None, o.st, 'unbounded loop'))
        return outs
    # a pure search: exits only
    sol = solve(I, F, F.S, s, uid, coll, False)
    fin, early = finish(I, F, F.S, s, uid, ('range', ZERO, atom(('inf',))), False, sol)
    I.loops_done.append((name, 'nat', len(F.backs), len(F.slots)))
    return early


def halving_loop(I, body, st, cells, name, uid, F):
    """r * b^e (or r + b*e) is kept while e is halved"""
    slots = {k: s for k, s in F.slots.items() if s.kind in ('p', 'R', 'm')}

    def val(o, k):
        v = vget(o.st.c[k[0]], k[1])
        return v.r if isinstance(v, MapV) else v

    def init(k):
        v = vget(st.c[k[0]], k[1])
        return v.r if isinstance(v, MapV) else v
    for ke, se in slots.items():
        if se.kind != 'p':
            continue
        mu = mu_atom(uid, se)
        phi = atom(('phi', uid))
        infos = []
        ok = bool(F.backs)
        for o in F.backs:
            odd = o.st.know(mk_dvd(lift(2), mu))
            ne = val(o, ke)
            if odd is None:
                # even exponent forced to shrink is not known: both parities have to agree
                cand = None
                for par in (0, 1):
                    pass
                ok = False
                break
            sub = phi.scale(2) + (0 if odd else 1)
            n2 = nf.subst(ne, {mu.as_atom(): sub})
            n2 = simp_halves(n2)
            infos.append((o, sub, n2))
        if not ok or any(n2 == sub for o, sub, n2 in infos):
            continue
        if not all(n2 in (phi, phi.scale(2)) for o, sub, n2 in infos):
            continue
        for kr in slots:
            for kb in slots:
                if kr == kb or ke in (kr, kb):
                    continue
                r, b = mu_atom(uid, slots[kr]), mu_atom(uid, slots[kb])
                for op in ('mul', 'add'):
                    def comb(x, y, n):
                        return x * power(y, n) if op == 'mul' else x + y * n
                    modp = None
                    good = True
                    for o, sub, n2 in infos:
                        vr, vb = val(o, kr), val(o, kb)
                        for v in (vr, vb):
                            a = v.as_atom()
                            if a is not None and nf.atom_key(a)[0] == 'mod':
                                modp = nf.atom_key(a)[2]
                        if modp is not None and has_mu(modp, uid):
                            good = False
                            break
                        mp = {mu.as_atom(): sub}
                        lhs = comb(nf.subst(vr, mp), nf.subst(vb, mp), n2)
                        rhs = comb(r, b, sub)
                        d = lhs - rhs
                        d = o.st.norm(d)
                        if not d.is_zero():
                            if modp is None or not ring.mk_mod(d, modp).is_zero():
                                good = False
                                break
                    if good:
                        return close_halving(I, body, st, cells, name, uid, F, ke, kr, kb, comb, modp, init, val)
    return None


def simp_halves(p):
    return nf.map_atoms(p, lambda a: None) if False else nf.subst(p, {})


def close_halving(I, body, st, cells, name, uid, F, ke, kr, kb, comb, modp, init, val):
    outs = []
    e0, r0, b0 = init(ke), init(kr), init(kb)
    k = st.know(ge0(e0))
    if k is None:
        raise NeedFork(ge0(e0))
    if k is False:
        res = body(st.copy())
        if any(o.kind in ('back', 'skip') for o in res):
            return None
        return res
    tot = comb(r0, b0, e0)
    beta = atom(('mu', uid, 'b' + ('r' if ring.is_ring(b0) else 's')))
    kap = atom(('mu', uid, 'k' + ('r' if ring.is_ring(r0) else 's')))
    rmu, emu, bmu = (mu_atom(uid, F.slots[k]) for k in (kr, ke, kb))
    mul = comb(ONE, beta, ONE) == beta and comb(rmu, beta, lift(2)) == rmu * beta * beta
    # is the running result always reduced?
    okred = False
    if modp is not None:
        okred = st.know(eq(r0, ring.mk_mod(r0, modp))) is True and \
            all(val(o, kr) == rmu or ring.mk_mod(val(o, kr), modp) == val(o, kr) for o in F.backs)
    I.loops_done.append((name, 'halving', len(F.backs), len(F.slots)))
    for o in F.outs:
        if o.kind in ('back', 'skip'):
            continue
        s = o.st
        if o.kind == 'panic':
            outs.append(_out('panic', o.v, s))
            continue
        fs = [s.facts]
        if s.know(ge0(emu)) is not True:
            fs = s.facts.add(ge0(emu))
        # the last halving leaves one, unless none took place
        only2 = all(o2.st.know(ge0(emu - 2)) is True for o2 in F.backs)
        fs2 = []
        for x in fs:
            if only2 and x.decide(ge0(1 - emu)) is True and x.decide(eq0(emu)) is None:
                fs2 += [(y, eq0(e0)) for y in x.add(eq0(emu))] + [(y, ge0(e0 - 1)) for y in x.add(f_not(eq0(emu)))]
            else:
                fs2.append((x, True))
        for x, extra in fs2:
            ce = None
            for cand in (0, 1, 2):
                if x.decide(eq(emu, lift(cand))) is True:
                    ce = cand
            if ce is None or o.kind != 'exit' or val(o, kr) != rmu or val(o, ke) != emu or val(o, kb) != bmu:
                outs.append(_out('unk', None, s, 'halving loop exit'))
                continue
            rv = tot * power(beta, lift(-ce)) if mul else tot - beta.scale(ce)
            if modp is not None:
                rv = ring.mk_mod(rv, modp) if okred else rv + modp * kap
            first = extra is not True and ce == 0
            mp = subst_mapper({rmu.as_atom(): r0 if first else rv, emu.as_atom(): lift(ce), bmu.as_atom(): b0 if first else beta})
            s2 = St({c: mp.v(v) for c, v in s.c.items()}, st.facts)
            if extra is not True:
                try:
                    s2.assume(extra)
                except Infeasible:
                    continue
            outs.append(_out('exit', o.v, s2))
    return outs


def havoc_loop(I, body, st, cells, name, uid, F):
    """nothing known about the recurrence: the carried values stay abstract"""
    if I.contract is not None:
        import contracts
        r = contracts.hook(I, body, st, cells, name, uid, F)
        if r is not None:
            return r
    r = unfold.install(I, st, F, None, False, uid, name)
    if r is not None:
        return r[1]
    I.loops_done.append((name, 'havoc', len(F.backs), len(F.slots)))
    return [_out('unk', None, o.st, 'loop not summarised: ' + name) for o in F.outs if o.kind not in ('back', 'skip')] or \
        [_out('unk', None, st, 'loop not summarised: ' + name)]


# ---- consumers -----------------------------------------------------------------------------

def consume(I, st, name, a, c):
    from interp import UNINIT
    models = I.models
    fid = I.new_fid()
    itc = ('L', fid, 0)
    acc = ('L', fid, 1)
    s = st.copy()
    args = list(a)
    target = None
    if name == 'extend':
        target = models.base_ref(I, s, args[0])
        itv = models.iter_of(I, s, args[1])
    else:
        v = args[0]
        itv = v if isinstance(v, IterV) else None
        if itv is None:
            r = models.base_ref(I, s, v) if isinstance(v, Ref) else None
            if r is not None and isinstance(I.read(s, r.cell, r.path), IterV):
                itv = I.read(s, r.cell, r.path)
                if itv.base[0] == 'ref':
                    raise Unsupported('nested by_ref')
                by_ref = r
            else:
                itv = models.iter_of(I, s, v)
    if itv.base[0] == 'ref':
        itv = I.read(s, itv.base[1].cell, itv.base[1].path)
    if name == 'contains' and itv.base[0] == 'vec':
        # membership in a vector that the enclosing loop is building
        x = models.dr(I, s, args[1])
        kind = 'n' if isinstance(x, P) and not ring.is_ring(x) else 'pt' if isinstance(x, Rec) and x.ty == ECP else None
        if kind:
            itv = itv.with_(base=('vec', tuple(('base', g + (kind,)) if g[0] == 'mu' and len(g) == 3 else g for g in itv.base[1])) + itv.base[2:])
    s.c[itc] = itv
    dty = c.dty if c is not None else None
    f = args[1] if len(args) > 1 else None
    member = name == 'contains'
    if member:
        name = 'any'
    conv = None
    if name in ('sum', 'product'):
        tn = (models.tname(dty) or '') if dty else ''
        if tn.endswith('Polynomial') or tn.endswith('Term'):
            s.c[acc] = None
            raise Unsupported('sum of ' + tn)
        s.c[acc] = ZERO if name == 'sum' else ONE
    elif name == 'fold':
        s.c[acc] = args[1]
        f = args[2]
    elif name == 'count':
        s.c[acc] = ZERO
    elif name == 'collect':
        tn = models.tname(dty) or ''
        if 'BTreeMap' in tn:
            s.c[acc] = MapV(ZERO)
        elif 'BTreeSet' in tn:
            s.c[acc] = SetV()
        elif tn.endswith('String'):
            s.c[acc] = StrV()
        elif tn.endswith('Vec') or 'Box' in tn:
            s.c[acc] = VecV()
        elif tn.endswith('Polynomial'):
            raise Unsupported('collect into ' + tn)
        else:
            raise Unsupported('collect into %s' % tn)
    elif name == 'extend':
        pass
    elif name in ('for_each',):
        s.c[acc] = UNIT
    elif name in ('any', 'all', 'find', 'find_map', 'position', 'next'):
        s.c[acc] = ZERO
    elif name in ('last',):
        if any(x[0] in POSITIONAL + ('take_while', 'skip_while') for x in itv.stages):
            raise Unsupported('last after ' + str(itv.stages[-1][0]))
        s.c[itc] = itv.with_(rev=not itv.rev)
        v = models.__dict__['_next'](I, s, [Ref(itc)], _NextCtx)
        res = v if isinstance(v, list) else [_out('ret', v, s)]
        for o in res:
            o.st.c.pop(itc, None)
        return res
    elif name in ('max', 'min'):
        s.c[acc] = Rec('()', (FALSE, ZERO))
    else:
        raise Unsupported('iterator consumer ' + name)
    itref = Ref(itc)

    def push(S, v):
        w = S.c[acc] if target is None else I.read(S, target.cell, target.path)
        if isinstance(w, VecV):
            w2 = VecV(w.segs + (('it', v),))
        elif isinstance(w, SetV):
            w2 = SetV(w.parts + ((None, None, True, I.key_of(models.dr(I, S, v))),))
        elif isinstance(w, StrV):
            w2 = StrV(w.parts + tuple(models.text_of(I, S, v)))
        elif isinstance(w, MapV):
            k, x = models.dr(I, S, v).f
            w2 = I.map_set(S, w, I.key_of(models.dr(I, S, k)), models.dr(I, S, x))
        else:
            raise Unsupported('collect')
        if target is None:
            S.c[acc] = w2
        else:
            I.write(S, target.cell, target.path, w2)

    def equals(S, v):
        r = models.eq_outs(I, S, v if isinstance(v, Ref) else I.ref_to(S, v), f, False)
        return r if isinstance(r, list) else [_out('ret', r, S)]

    def step(S, v):
        """effect of one element: Outs of kind back / exit"""
        if name == 'sum':
            S.c[acc] = S.c[acc] + models.dr(I, S, v)
            return [_out('back', None, S)]
        if name == 'product':
            S.c[acc] = S.c[acc] * models.dr(I, S, v)
            return [_out('back', None, S)]
        if name == 'count':
            S.c[acc] = S.c[acc] + 1
            return [_out('back', None, S)]
        if name in ('max', 'min'):
            has, best = S.c[acc].f
            w = models.num(I, S, v)
            if S.dec(has.f) and S.dec(lt(w, best) if name == 'max' else le(best, w)):
                return [_out('back', None, S)]
            S.c[acc] = Rec('()', (TRUE, w))
            return [_out('back', None, S)]
        if name in ('collect', 'extend'):
            push(S, v)
            return [_out('back', None, S)]
        if name == 'next':
            return [_out('exit', some(v), S)]
        if name == 'for_each':
            return [_out('back' if o.kind == 'ret' else o.kind, o.v, o.st, o.why) for o in I.apply(S, f, [v])]
        if name == 'fold':
            res = []
            for o in I.apply(S, f, [S.c[acc], v]):
                if o.kind == 'ret':
                    o.st.c[acc] = o.v
                    o.kind, o.v = 'back', None
                res.append(o)
            return res
        if name in ('any', 'all', 'find', 'position'):
            arg = I.ref_to(S, v) if name == 'find' else v
            res = []
            for o in equals(S, v) if member else I.apply(S, f, [arg]):
                if o.kind != 'ret':
                    res.append(o)
                    continue
                for t, s2 in both(I, o.st, o.v):
                    if t != (name == 'all'):
                        r = TRUE if name == 'any' else FALSE if name == 'all' else some(v) if name == 'find' else some(s2.c[acc])
                        res.append(_out('exit', r, s2))
                    else:
                        if name == 'position':
                            s2 = s2.copy()
                            s2.c[acc] = s2.c[acc] + 1
                        res.append(_out('back', None, s2))
            return res
        if name == 'find_map':
            res = []
            for o in I.apply(S, f, [v]):
                if o.kind == 'ret':
                    if not isinstance(o.v, En):
                        raise Unsupported('find_map')
                    o.kind = 'exit' if o.v.v == 1 else 'back'
                res.append(o)
            return res
        raise Unsupported(name)

    DONE = object()

    def body(S0):
        res = []
        work = [S0]
        while work:
            S = work.pop()
            S1 = S.copy()
            try:
                outs = models.__dict__['_next'](I, S1, [itref], _NextCtx)
                outs = outs if isinstance(outs, list) else [_out('ret', outs, S1)]
                for o in outs:
                    if o.kind == 'skip':
                        o.kind = 'back'
                        res.append(o)
                    elif o.kind != 'ret':
                        res.append(o)
                    elif o.v.v == 0:
                        res.append(_out('exit', DONE, o.st))
                    else:
                        todo = [o.st]
                        while todo:
                            x = todo.pop()
                            try:
                                res += step(x.copy(), o.v.f[0])
                            except NeedFork as n:
                                todo += I.fork(x, n.f)
                            except Infeasible:
                                pass
            except NeedFork as n:
                work += I.fork(S, n.f)
            except Infeasible:
                pass
            except Panic:
                res.append(_out('panic', None, S))
            except Unsupported as e:
                res.append(_out('unk', None, S, str(e)))
            if len(res) > 400:
                raise Budget()
        return res
    roots = [x for x in s.c]
    outs = drive(I, body, s, roots, name)
    res = []
    for o in outs:
        if o.kind != 'exit':
            res.append(o)
            continue
        if o.v is DONE:
            if name == 'any':
                v = FALSE
            elif name == 'all':
                v = TRUE
            elif name in ('find', 'find_map', 'position', 'next'):
                v = NONE
            elif name == 'extend':
                v = UNIT
            elif name in ('max', 'min'):
                has, best = o.st.c[acc].f
                for t, s2 in both(I, o.st, has):
                    for k in (itc, acc):
                        s2.c.pop(k, None)
                    res.append(_out('ret', some(best) if t else NONE, s2))
                continue
            else:
                v = o.st.c[acc]
        else:
            v = o.v
        for k in (itc, acc):
            o.st.c.pop(k, None)
        if name == 'for_each':
            v = UNIT
        res.append(_out('ret', v, o.st))
    return res


class _NextCtx:
    path = 'std::iter::Iterator::next'


def retain(I, st, a, c):
    models = I.models
    r, m = models.mapref(I, st, a[0])
    fid = I.new_fid()
    itc, acc = ('L', fid, 0), ('L', fid, 1)
    s = st.copy()
    m = I.clean(s, m)
    exact = m.zf is True and not m.dirty
    src = Ref(('L', fid, 2))
    s.c[src.cell] = MapV(m.r, m.zf)
    s.c[itc] = IterV(('coll', ('map', m.r)), 'mut', src=src, end=0 if exact else ('zf', False))
    s.c[acc] = MapV(ZERO)
    itref = Ref(itc)
    DONE = object()

    def body(S0):
        res = []
        work = [S0]
        while work:
            S = work.pop()
            S1 = S.copy()
            try:
                outs = models.__dict__['_next'](I, S1, [itref], _NextCtx)
                outs = outs if isinstance(outs, list) else [_out('ret', outs, S1)]
                for o in outs:
                    if o.kind == 'skip':
                        o.kind = 'back'
                        res.append(o)
                        continue
                    if o.kind != 'ret':
                        res.append(o)
                        continue
                    if o.v.v == 0:
                        res.append(_out('exit', DONE, o.st))
                        continue
                    kref, vref = o.v.f[0].f
                    for p in I.apply(o.st, a[1], [kref, vref]):
                        if p.kind != 'ret':
                            res.append(p)
                            continue
                        for t, s2 in both(I, p.st, p.v):
                            if not t:
                                sx = s2.copy()
                                sx.c[src.cell] = MapV(m.r, m.zf)
                                res.append(_out('back', None, sx))
                                continue
                            todo = [s2]
                            while todo:
                                x = todo.pop()
                                try:
                                    y = x.copy()
                                    val = I.read(y, vref.cell, vref.path)
                                    k = I.key_of(models.dr(I, y, kref))
                                    y.c[acc] = I.map_set(y, y.c[acc], k, y.norm(val))
                                    y.c[src.cell] = MapV(m.r, m.zf)
                                    res.append(_out('back', None, y))
                                except NeedFork as n:
                                    todo += I.fork(x, n.f)
                                except Infeasible:
                                    pass
            except NeedFork as n:
                work += I.fork(S, n.f)
            except Infeasible:
                pass
            except Panic:
                res.append(_out('panic', None, S))
            except Unsupported as e:
                res.append(_out('unk', None, S, str(e)))
        return res
    outs = drive(I, body, s, [x for x in s.c], 'retain')
    res = []
    for o in outs:
        if o.kind != 'exit':
            res.append(o)
            continue
        v = o.st.c[acc]
        if not isinstance(v, MapV):
            res.append(_out('unk', None, o.st, 'retain'))
            continue
        for k in (itc, acc, src.cell):
            o.st.c.pop(k, None)
        I.write(o.st, r.cell, r.path, v)
        res.append(_out('ret', UNIT, o.st))
    return res
