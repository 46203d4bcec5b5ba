"""Abstract interpreter over MIR (trace-partitioned; loops are summarised in loops.py)."""
from nf import *
import nf
from facts import *
import facts as fx
import ring
from ring import Key
from values import *
import mir
import arr

INT_RANGE = {'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
             'i128': (-2**127, 2**127 - 1), 'isize': (-2**63, 2**63 - 1), 'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1),
             'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'u128': (0, 2**128 - 1), 'usize': (0, 2**64 - 1)}
BIG = 'num_bigint::BigInt'
UNINIT = Opaque('uninit')


class Out:
    __slots__ = ('kind', 'v', 'st', 'why')

    def __init__(self, kind, v, st, why=None):
        self.kind, self.v, self.st, self.why = kind, v, st, why

    def __repr__(self):
        return 'Out(%s,%r,%r)' % (self.kind, self.v, self.st.facts)


class Frame:
    __slots__ = ('fid', 'item', 'body', 'depth')

    def __init__(self, fid, item, body, depth):
        self.fid, self.item, self.body, self.depth = fid, item, body, depth


class Interp:
    def __init__(self, crate, roles=None, peel=0, max_steps=60000):
        self.crate = crate
        self.roles = roles or {}
        self.peel = peel
        self.steps = 0
        self.max_steps = max_steps
        self.nf = 0
        self.heap = 0
        self.used = {}          # items analysed -> count
        self.loops_done = []    # (item, header, how)
        self.unk = []
        self.stack = []
        self.roles_used = set()
        self.top = None         # the item being verified, and its calls to itself
        self.recs = []
        self.no_role = set()    # role names switched off (the item being verified)
        self.calls = 0
        self.contract = None    # contract for a loop without a closed form
        self.loopvc = []
        self.unfolds = {}
        self.retry = False        # loops that are left early are unfolded
        import models
        import loops
        self.models = models
        self.loops = loops

    # -- cells -----------------------------------------------------------------------
    def new_cell(self, st, v):
        self.heap += 1
        c = ('H', self.heap)
        st.c[c] = v
        return c

    def ref_to(self, st, v):
        return Ref(self.new_cell(st, v))

    def read(self, st, cell, path):
        v = st.c.get(cell)
        if v is None:
            raise Unsupported('uninitialised cell %s' % (cell,))
        for i, e in enumerate(path):
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if isinstance(e, int):
            if isinstance(v, (Rec, Clos)):
                if e < 3 and isinstance(v, Rec) and v.ty == ECP and len(v.f) == 4:
                    return atom(('dl', 'xyz'[e], v.f[3]))
                return v.f[e]
            if isinstance(v, En):
                return v.f[e]
            if isinstance(v, Ref):
                return v            # Box internals
            raise Unsupported('field of %s' % type(v).__name__)
        if e[0] == 'key':
            if isinstance(v, MapV):
                return self.map_get(st, v, e[1])
        if e[0] == 'elv':
            if isinstance(v, MapV):
                if v.pend and v.pend[0] == e[1]:
                    return v.pend[1]
                return ring.bv(e[1], 'val')
        if e[0] == 'idx':
            if isinstance(v, ArrV):
                return arr.get(self, st, v, e[1])
            if isinstance(v, VecV):
                return self.vec_get(st, v, e[1])
            if isinstance(v, Rec):
                c = st.norm(e[1]).const()
                if c is None:
                    raise Unsupported('symbolic array index')
                if not 0 <= c < len(v.f):
                    raise Panic()
                return v.f[c]
        raise Unsupported('projection %s of %s' % (e, type(v).__name__))

    def write(self, st, cell, path, val):
        if not path:
            st.c[cell] = val
            return
        v = st.c.get(cell)
        if v is UNINIT or v is None:
            if v is UNINIT:
                st.c[cell] = val
                return
            raise Unsupported('write to uninitialised')
        st.c[cell] = self.upd(st, v, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if isinstance(e, int):
            if isinstance(v, Rec):
                f = list(v.f)
                if len(f) == 4 and v.ty == ECP and e < 3:
                    f = [self.proj(st, v, i) for i in range(3)]
                f[e] = self.upd(st, f[e], path[1:], val)
                return Rec(v.ty, f)
            if isinstance(v, Clos):
                f = list(v.f)
                f[e] = self.upd(st, f[e], path[1:], val)
                return Clos(v.d, f)
            if isinstance(v, En):
                f = list(v.f)
                f[e] = self.upd(st, f[e], path[1:], val)
                return En(v.ty, v.v, f)
            raise Unsupported('field write')
        if e[0] == 'key' and isinstance(v, MapV):
            if len(path) > 1:
                raise Unsupported('deep key')
            return self.map_set(st, v, e[1], val)
        if e[0] == 'elv' and isinstance(v, MapV):
            if len(path) > 1:
                raise Unsupported('deep key')
            return MapV(v.r, v.zf, v.dirty, (e[1], val), v.rem)
        if e[0] == 'idx':
            if isinstance(v, VecV) and any(s[0] not in ('it', 'rep') for s in v.segs) and arr.depth(v):
                v = arr.to_arr(self, st, v)
            if isinstance(v, ArrV):
                if any(x[0] != 'idx' for x in path):
                    raise Unsupported('array write')
                return arr.put(self, st, v, [x[1] for x in path], val)
            if isinstance(v, VecV):
                old = self.vec_get(st, v, e[1])
                return self.vec_set(st, v, e[1], self.upd(st, old, path[1:], val))
            if isinstance(v, Rec):
                c = st.norm(e[1]).const()
                if c is None:
                    raise Unsupported('symbolic array index')
                f = list(v.f)
                f[c] = self.upd(st, f[c], path[1:], val)
                return Rec(v.ty, f)
        raise Unsupported('write through %s' % (e,))

    # -- maps ------------------------------------------------------------------------
    def key_of(self, v):
        if isinstance(v, Rec) and v.ty == MONO:
            sv = v.f[3]
            if not isinstance(sv, Rec):
                raise Unsupported('unknown record')
            e = sv.f[2]
            return Key(v.f[0], v.f[1], v.f[2], sv.f[0], sv.f[1], e.f)
        raise Unsupported('not a monomial key')

    def key_val(self, k):
        return Rec(MONO, (k.x, k.y, k.q, Rec(SV, (k.i, k.j, bval(k.e)))))

    def varkey(self, st, k):
        """canonical form of the unknown of a key"""
        e = k.e
        if isinstance(e, tuple):
            d = st.know(e)
            if d is None:
                # symbolic unknown: same source for all three components
                if e[0] == 'lit' and e[2] and e[1][:2] == ('b', 'empty'):
                    K = e[1][2]
                    if k.i == atom(('vi', K)) and k.j == atom(('vj', K)):
                        return ('K', K)
                raise NeedFork(e)
            e = d
        if e is True:
            return ('e',)
        a, b = k.i.as_atom(), k.j.as_atom()
        if a is not None and b is not None:
            ka, kb = nf.atom_key(a), nf.atom_key(b)
            if ka[0] == 'vi' and kb[0] == 'vj' and ka[1] == kb[1]:
                return ('K', ka[1])
        return ('ij', k.i, k.j)

    def vmono(self, st, k):
        vk = self.varkey(st, k)
        if vk[0] == 'e':
            return ONE
        if vk[0] == 'ij':
            return ring.vij(vk[1], vk[2])
        return atom(('Vs', vk[1]))

    def mono(self, st, k):
        return power(ring.X, k.x) * power(ring.Y, k.y) * power(ring.Q, k.q) * self.vmono(st, k)

    def var_eq(self, a, b):
        """formula: unknowns a, b (varkeys) are equal"""
        if a == b:
            return True

        def emp(v):
            return True if v[0] == 'e' else False if v[0] == 'ij' else ('lit', ('b', 'empty', v[1]), True)

        def ij(v):
            return (v[1], v[2]) if v[0] == 'ij' else (atom(('vi', v[1])), atom(('vj', v[1])))
        ea, eb = emp(a), emp(b)
        both = f_and(ea, eb)
        if a[0] == 'e' or b[0] == 'e':
            return both
        (i1, j1), (i2, j2) = ij(a), ij(b)
        return f_or(both, f_and(f_not(ea), f_not(eb), eq(i1, i2), eq(j1, j2)))

    def key_eq(self, st, a, b):
        return f_and(eq(a.x, b.x), eq(a.y, b.y), eq(a.q, b.q), self.var_eq(self.varkey(st, a), self.varkey(st, b)))

    def coef(self, st, r, k):
        """coefficient of the ring element r at key k"""
        if r.is_zero():
            return ZERO
        vk = self.varkey(st, k)
        return coef_of(r, k.x, k.y, k.q, vk, st)

    def map_get(self, st, m, k):
        for dk, dv in m.dirty:
            if st.dec(self.key_eq(st, dk, k)):
                return dv
        return self.coef(st, m.r, k)

    def map_has(self, st, m, k):
        for dk, dv in m.dirty:
            if st.dec(self.key_eq(st, dk, k)):
                return True
        c = st.norm(self.coef(st, m.r, k))
        if m.pend:
            raise Unsupported('lookup in a map under update')
        z = eq0(c)
        if m.zf is True:
            return f_not(z)
        if m.zf is False or isinstance(m.zf, Written):
            # may be stored although zero
            if st.know(z) is False:
                return True
            raise Unsupported('presence of a possibly zero entry')
        # zeros exactly at the listed keys
        if st.know(z) is False:
            return True
        _, zc, zu, zg, _nv = m.zf
        if k.e and isinstance(k.e, tuple) and k.e[0] == 'lit' and k.e[1][:2] == ('b', 'empty') and k.e[1][2][0] == 'bv':
            u = k.e[1][2][1]
            if ELEMS.get(u) == zc and k == ring.elem_key(u) and k not in (m.rem or ()):
                g = zg if isinstance(zg, bool) else ring.rename_bound(zg, ('bv', zu), ('bv', u))
                if st.know(g) is True:
                    return True
        raise NeedFork(z) if st.know(z) is None else Unsupported('presence of a zero entry')

    def map_set(self, st, m, k, v):
        """store v at key k (present afterwards)"""
        if m.pend:
            raise Unsupported('write in a map under update')
        if not isinstance(v, P):
            raise Unsupported('map value')
        old = None
        dirty = []
        for dk, dv in m.dirty:
            if old is None and st.dec(self.key_eq(st, dk, k)):
                old = dv
            else:
                dirty.append((dk, dv))
        if old is None:
            old = self.coef(st, m.r, k)
        r = m.r + (v - old) * self.mono(st, k)
        zf = m.zf
        if st.know(eq0(v)) is not False:
            dirty.append((k, v))
        return MapV(r, zf, dirty, None, m.rem)

    def map_remove(self, st, m, k):
        if m.pend:
            raise Unsupported('remove in a map under update')
        old = None
        dirty = []
        for dk, dv in m.dirty:
            if old is None and st.dec(self.key_eq(st, dk, k)):
                old = dv
            else:
                dirty.append((dk, dv))
        if old is None:
            old = self.coef(st, m.r, k)
        old = st.norm(old)
        rem = m.rem
        if m.zf is not True:
            rem = (rem or ()) + (k,)
        return MapV(m.r - old * self.mono(st, k), m.zf, dirty, None, rem), old

    def clean(self, st, m):
        """settle the dirty entries: drop those known to be non-zero"""
        if not isinstance(m, MapV) or not m.dirty:
            return m
        d = [(k, v) for k, v in m.dirty if st.know(eq0(v)) is not False]
        return MapV(m.r, m.zf, d, m.pend, m.rem) if len(d) != len(m.dirty) else m

    def map_zero(self, st, m):
        """formula: the map stores nothing"""
        m = self.clean(st, m)
        if m.dirty:
            for k, v in m.dirty:
                if st.dec(eq0(v)):
                    return False      # a zero entry is stored
            m = MapV(m.r, m.zf)
        if m.pend:
            raise Unsupported('length of a map under update')
        z = ring.mk_rz(st.norm(m.r))
        if m.zf is True:
            return z
        if st.know(z) is False:
            return False
        raise Unsupported('emptiness of a map with possible zero entries')

    def map_len(self, st, m):
        if st.dec(self.map_zero(st, m)):
            return ZERO
        r = st.norm(m.r)
        s = r.single()
        if s is not None:
            sc, rr = ring.split_mono(s[1])
            if ring.explicit_key(rr) is not None:
                return ONE
        L = atom(('len', ('map', r)))
        st.assume(ge0(L - 1))
        return L

    # -- vectors ---------------------------------------------------------------------
    def seg_len(self, s):
        if s[0] == 'it':
            return ONE
        if s[0] == 'rep':
            return s[2]
        if s[0] == 'base':
            return atom(('len', s[1]))
        if s[0] == 'comp':
            tot = ZERO
            for g, vs in s[3]:
                tot = tot + ring.mk_sum(s[1], s[2], g, lift(len(vs)))
            return tot
        if s[0] == 'mu':
            return atom(('nat', s))
        if s[0] == 'alt':
            return lift(len(s[1][0][1]))
        raise Unsupported('segment')

    def vec_len(self, v):
        if isinstance(v, ArrV):
            return v.dims[0]
        t = ZERO
        for s in v.segs:
            t = t + self.seg_len(s)
        return t

    def vec_get(self, st, v, i):
        i = st.norm(i)
        off = ZERO
        for s in v.segs:
            n = self.seg_len(s)
            if st.dec(lt(i, off + n)):
                if off.is_zero() and st.know(lt0(i)) is not False:
                    if st.dec(lt0(i)):
                        raise Panic()
                if s[0] == 'it':
                    return s[1]
                if s[0] == 'rep':
                    return s[1]
                if s[0] == 'base':
                    return self.models.vec_elem(self, st, s[1], i - off)
                if s[0] == 'comp' and len(s[3]) == 1 and s[3][0][0] is True and len(s[3][0][1]) == 1 and s[1][0] == 'range':
                    e = s[1][1] + (i - off) if not s[4] else s[1][2] - 1 - (i - off)
                    return subst_mapper({nf.atom_id(('bv', s[2], 'e')): e}).v(s[3][0][1][0])
                raise Unsupported('element of a comprehension')
            off = off + n
        raise Panic()

    def vec_set(self, st, v, i, val):
        i = st.norm(i)
        off = ZERO
        out = []
        done = False
        for s in v.segs:
            if done:
                out.append(s)
                continue
            n = self.seg_len(s)
            if st.dec(lt(i, off + n)):
                done = True
                if s[0] == 'it':
                    out.append(('it', val))
                elif s[0] == 'rep':
                    k = i - off
                    if not st.know(eq0(k)):
                        out.append(('rep', s[1], k))
                    out.append(('it', val))
                    rest = n - k - 1
                    if not st.know(eq0(rest)):
                        out.append(('rep', s[1], rest))
                else:
                    raise Unsupported('vector write')
            else:
                out.append(s)
            off = off + n
        if not done:
            raise Panic()
        return VecV(out)

    # -- places and operands -----------------------------------------------------------
    def place(self, fr, st, pl):
        cell, path = ('L', fr.fid, pl['l']), ()
        for e in pl['p']:
            h = e[0]
            if h == 'deref':
                v = self.read(st, cell, path)
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                elif isinstance(v, Opaque):
                    raise Unsupported('deref of ' + v.why)
                else:
                    raise Unsupported('deref of %s' % type(v).__name__)
            elif h == 'field':
                if st.c.get(cell) is UNINIT:
                    continue
                v = None
                path = path + (e[1],)
            elif h == 'downcast':
                continue
            elif h == 'index':
                i = self.read(st, ('L', fr.fid, e[1]), ())
                path = path + (('idx', i),)
            elif h == 'cindex':
                if e[2]:
                    raise Unsupported('index from end')
                path = path + (('idx', lift(e[1])),)
            else:
                raise Unsupported('projection ' + h)
        return cell, path

    def operand(self, fr, st, o):
        for k in ('copy', 'move'):
            if k in o:
                c, p = self.place(fr, st, o[k])
                return self.read(st, c, p)
        return self.const(fr, st, o['const'])

    def const(self, fr, st, c):
        ty = c.get('ty') or {}
        if 'promoted' in c:
            it = self.crate.items.get(c['of'])
            if it is None:
                raise Unsupported('promoted')
            outs = self.run_body(Frame(self.new_fid(), it, it.promoted[c['promoted']], 0), st, keep=True)
            if len(outs) != 1 or outs[0].kind != 'ret':
                raise Unsupported('promoted')
            st.c = outs[0].st.c
            st.facts = outs[0].st.facts
            return outs[0].v
        k = ty.get('k')
        if 'int' in c:
            n = int(c['int'])
            if k == 'bool':
                return bval(n != 0)
            if k == 'int':
                lo, hi = INT_RANGE.get(ty['n'], (None, None))
                if hi is not None and n > hi:
                    n -= (hi - lo + 1)
                return lift(n)
            if k == 'char':
                return lift(n)
            if k == 'adt' and ty['p'] == ORD:
                return ordv({255: 0, -1: 0, 0: 1, 1: 2}[n])
            return lift(n)
        for bk in ('bytes', 'ptrbytes'):
            if bk in c:
                b = c[bk]
                try:
                    s = bytes(b) if isinstance(b, list) else bytes.fromhex(b)
                except Exception:
                    s = b.encode('latin1') if isinstance(b, str) else b''
                if bk == 'ptrbytes':
                    return self.ref_to(st, Rec('bytes', (s,)))
                return Rec('bytes', (s,)) if not _is_str(ty) else self.ref_to(st, StrV((('s', s.decode('utf8', 'replace')),)))
        if 'zst' in c:
            if k == 'fndef':
                return FnV(ty)
            if k == 'closure':
                return Clos(ty['d'])
            if k == 'tuple':
                return UNIT
            if k == 'adt':
                return Rec(ty['p'], ())
            return FnV(ty) if ty.get('p') or ty.get('path') else UNIT
        if 'static' in c:
            raise Unsupported('static')
        raise Unsupported('constant %s' % list(c))

    def new_fid(self):
        self.nf += 1
        return self.nf

    # -- rvalues ---------------------------------------------------------------------
    def rvalue(self, fr, st, r):
        if 'use' in r:
            return self.operand(fr, st, r['use'])
        if 'ref' in r or 'rawptr' in r:
            c, p = self.place(fr, st, r.get('ref') or r.get('rawptr'))
            return Ref(c, p)
        if 'bin' in r:
            a = self.operand(fr, st, r['a'])
            b = self.operand(fr, st, r['b'])
            return self.binop(st, r['bin'], a, b, r.get('ty'))
        if 'un' in r:
            a = self.operand(fr, st, r['a'])
            if r['un'] == 'Not' and isinstance(a, Bool):
                return bval(f_not(a.f))
            if r['un'] == 'Neg' and isinstance(a, P):
                return -a
            if r['un'] == 'PtrMetadata' and isinstance(a, Ref):
                v = self.read(st, a.cell, a.path)
                if isinstance(v, (VecV, ArrV)):
                    return self.vec_len(v)
                if isinstance(v, Rec):
                    return lift(len(v.f))
            if isinstance(a, Opaque) and a.why == 'address':
                return a
            raise Unsupported('unary ' + r['un'])
        if 'cast' in r:
            return self.cast(st, r['kind'], self.operand(fr, st, r['cast']), r.get('from'), r['ty'])
        if 'discr' in r:
            c, p = self.place(fr, st, r['discr'])
            v = self.read(st, c, p)
            if isinstance(v, En):
                return lift(self.discr(v))
            raise Unsupported('discriminant of %s' % type(v).__name__)
        if 'agg' in r:
            ops = [self.operand(fr, st, o) for o in r['ops']]
            a = r['agg']
            if a['k'] == 'tuple':
                return Rec('()', ops)
            if a['k'] == 'array':
                return Rec('[]', ops)
            if a['k'] == 'closure':
                return Clos(a['d'], ops)
            p = a['p']
            ad = self.crate.adts.get(p)
            if p in (OPT, RES, ORD) or (ad and ad.get('enum')):
                return En(p, a['v'], ops)
            if p == ECP and len(ops) == 3:
                # all coordinates of one multiple: the multiple itself
                ks = [nf.atom_key(o.as_atom()) if isinstance(o, P) and o.as_atom() is not None else ('',) for o in ops]
                if [k[:2] for k in ks] == [('dl', 'x'), ('dl', 'y'), ('dl', 'z')] and ks[0][2] == ks[1][2] == ks[2][2]:
                    return Rec(ECP, (nf.ZERO,) * 3 + (ks[0][2],))
            return Rec(p, ops)
        if 'repeat' in r:
            v = self.operand(fr, st, r['repeat'])
            n = r.get('n')
            return Rec('[]', [v] * int(n)) if n is not None and int(n) <= 64 else VecV((('rep', v, lift(int(n))),))
        raise Unsupported('rvalue %s' % list(r)[0])

    def discr(self, v):
        if v.ty == ORD:
            return (255, 0, 1)[v.v]
        ad = self.crate.adts.get(v.ty)
        if ad and ad.get('discrs'):
            d = ad['discrs']
            if v.v < len(d):
                return int(d[v.v]) if not isinstance(d[v.v], list) else int(d[v.v][1])
        return v.v

    def binop(self, st, op, a, b, ty):
        if isinstance(a, Bool) and isinstance(b, Bool):
            if op == 'BitAnd':
                return bval(f_and(a.f, b.f))
            if op == 'BitOr':
                return bval(f_or(a.f, b.f))
            if op in ('BitXor', 'Ne'):
                return bval(f_xor(a.f, b.f))
            if op == 'Eq':
                return bval(f_not(f_xor(a.f, b.f)))
            raise Unsupported('bool ' + op)
        if isinstance(a, En) and isinstance(b, En) and op in ('Eq', 'Ne'):
            return bval((a == b) == (op == 'Eq'))
        if isinstance(a, Opaque) and a.why == 'address' or isinstance(b, Opaque) and b.why == 'address':
            return Opaque('address')
        if not (isinstance(a, P) and isinstance(b, P)):
            raise Unsupported('operands of ' + op)
        o = op
        over = o.endswith('WithOverflow')
        if over:
            o = o[:-len('WithOverflow')]
        if o.endswith('Unchecked'):
            o = o[:-len('Unchecked')]
        if o == 'Add':
            v = a + b
        elif o == 'Sub':
            v = a - b
        elif o == 'Mul':
            v = a * b
        elif o == 'Div':
            v = self.tdiv(st, a, b)
        elif o == 'Rem':
            v = a - b * self.tdiv(st, a, b)
        elif o == 'Shr':
            c = b.const()
            if c is None or not 0 <= c < 128:
                raise Unsupported('shift')
            v = ring.mk_fdiv(a, lift(2 ** int(c)))
        elif o == 'Shl':
            c = b.const()
            if c is None or not 0 <= c < 128:
                raise Unsupported('shift')
            v = a.scale(2 ** int(c))
        elif o == 'BitAnd' and (b.const() == 1 or a.const() == 1):
            x = a if b.const() == 1 else b
            v = x - ring.mk_fdiv(x, lift(2)).scale(2)
        elif o == 'Eq':
            return bval(eq(a, b))
        elif o == 'Ne':
            return bval(f_not(eq(a, b)))
        elif o == 'Lt':
            return bval(lt(a, b))
        elif o == 'Le':
            return bval(le(a, b))
        elif o == 'Gt':
            return bval(lt(b, a))
        elif o == 'Ge':
            return bval(le(b, a))
        elif o == 'Cmp':
            if st.dec(lt(a, b)):
                return ordv(0)
            return ordv(1 if st.dec(eq(a, b)) else 2)
        else:
            raise Unsupported('binop ' + op)
        if over:
            # machine arithmetic is treated as exact; unsigned subtraction below zero
            # and signed overflow are the documented assumption
            if o == 'Sub' and ty and ty.get('n', 'i')[0] == 'u':
                if st.dec(lt0(v)):
                    raise Panic()
            return Rec('()', (v, FALSE))
        return v

    def tdiv(self, st, a, b):
        """truncating division; becomes floor division when the sign is known"""
        if st.know(eq0(b)) is True:
            raise Panic()
        cb = b.const()
        if cb is not None and cb > 0 and st.know(lt0(a)) is False:
            return ring.mk_fdiv(a, b)
        return ring.mk_tdiv(a, b)

    def cast(self, st, kind, v, fty, ty):
        if kind == 'IntToInt':
            if isinstance(v, Bool):
                return ONE if st.dec(v.f) else ZERO
            if isinstance(v, En):
                return lift(self.discr(v))
            if not isinstance(v, P):
                raise Unsupported('cast')
            return self.int_cast(st, v, fty.get('n'), ty.get('n'))
        if 'Transmute' in kind and ty.get('k') == 'int' and isinstance(v, (Ref, Opaque)):
            return Opaque('address')
        if 'Transmute' in kind or 'Ptr' in kind or 'Unsize' in kind or 'Pointer' in kind:
            return v
        raise Unsupported('cast ' + kind)

    def int_cast(self, st, v, a, b):
        ra, rb = INT_RANGE.get(a), INT_RANGE.get(b)
        if rb is None:
            raise Unsupported('cast to %s' % b)
        c = v.const()
        if c is not None:
            n = rb[1] - rb[0] + 1
            return lift((int(c) - rb[0]) % n + rb[0])
        if ra and rb[0] <= ra[0] and ra[1] <= rb[1]:
            return v
        lo_ok = (ra and ra[0] >= rb[0]) or st.know(lt0(v - rb[0])) is False
        hi_ok = (ra and ra[1] <= rb[1]) or st.know(lt0(rb[1] - v)) is False
        if lo_ok and hi_ok:
            return v
        if lo_ok and rb[1] >= 2**31 - 1:
            # counts and indices: assumed below 2^31
            return v
        return atom(('cast', v, b))

    # -- running -----------------------------------------------------------------------
    def run_fn(self, item, args, st, depth=0):
        """outcomes of calling a local item"""
        if item.body is None:
            raise Unsupported('no body: ' + item.path)
        self.used[item.path] = self.used.get(item.path, 0) + 1
        fr = Frame(self.new_fid(), item, item.body, depth)
        if len(args) != item.body.argc:
            raise Unsupported('arity of ' + item.path)
        s = st.copy()
        for i, a in enumerate(args):
            s.c[('L', fr.fid, i + 1)] = a
        self.stack.append(item.key)
        if self.stack.count(item.key) > 3 or len(self.stack) > 40:
            self.stack.pop()
            raise Unsupported('recursion in ' + item.path)
        try:
            return self.run_body(fr, s)
        finally:
            self.stack.pop()

    def run_body(self, fr, st, keep=False):
        outs = self.run(fr, 0, st, None)
        if not keep:
            for o in outs:
                if o.kind in ('ret', 'panic', 'unk'):
                    o.st.c = {c: v for c, v in o.st.c.items() if not (c[0] == 'L' and c[1] == fr.fid)}
        return outs

    def run(self, fr, bb, st, loop):
        """explore from block bb; loop = (header, blocks) restricts to a loop body"""
        outs = []
        work = [(bb, 0, st, True)]
        body = fr.body
        an = body.analysis()
        if an.irreducible:
            return [Out('unk', None, st, 'irreducible control flow')]
        while work:
            b, i, st, fresh = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget()
            if i == 0:
                if loop and b == loop[0] and not fresh:
                    outs.append(Out('back', None, st))
                    continue
                if loop and b not in loop[1]:
                    outs.append(Out('exit', b, st))
                    continue
                if b in an.loops and not (loop and b == loop[0]):
                    try:
                        res = self.loops.summarise(self, fr, b, an.loops[b], st)
                    except NeedFork as nfk:
                        for s2 in self.fork(st, nfk.f):
                            work.append((b, 0, s2, False))
                        continue
                    except Infeasible:
                        continue
                    except Unsupported as e:
                        outs.append(Out('unk', None, st, str(e)))
                        continue
                    for o in res:
                        if o.kind == 'exit':
                            work.append((o.v, 0, o.st, False))
                        else:
                            outs.append(o)
                    continue
            if b in an.doomed:
                outs.append(Out('panic', None, st))
                continue
            bl = body.blocks[b]
            s = st.copy()
            try:
                n = len(bl['st'])
                while i < n:
                    stm = bl['st'][i]
                    v = self.rvalue(fr, s, stm['r'])
                    c, p = self.place(fr, s, stm['p'])
                    self.write(s, c, p, v)
                    i += 1
                    st = s.copy()
                t = bl['t']
                k = t['k']
                if k == 'goto' or k == 'drop':
                    work.append((t['t'], 0, s, False))
                elif k == 'return':
                    outs.append(Out('ret', s.c.get(('L', fr.fid, 0), UNIT), s))
                elif k == 'unreachable':
                    pass
                elif k == 'assert' and 'PointerDereference' in str(t.get('msg')):
                    work.append((t['t'], 0, s, False))
                elif k == 'assert':
                    c = self.operand(fr, s, t['c'])
                    f = c.f if t['e'] else f_not(c.f)
                    if s.dec(f):
                        work.append((t['t'], 0, s, False))
                    else:
                        outs.append(Out('panic', None, s))
                elif k == 'switch':
                    d = self.operand(fr, s, t['d'])
                    work.append((self.switch(s, d, t), 0, s, False))
                elif k == 'call':
                    res = self.call(fr, s, t)
                    for o in res:
                        if o.kind == 'ret':
                            if t.get('t') is None:
                                outs.append(Out('panic', None, o.st))
                                continue
                            c, p = self.place(fr, o.st, t['dst'])
                            self.write(o.st, c, p, o.v)
                            work.append((t['t'], 0, o.st, False))
                        elif o.kind == 'skip':
                            # a filtered-out element: the iteration has no effect
                            if not loop:
                                outs.append(Out('unk', None, o.st, 'filter outside a loop'))
                            else:
                                work.append((loop[0], 0, o.st, False))
                        else:
                            outs.append(o)
                else:
                    outs.append(Out('unk', None, s, 'terminator ' + k))
            except NeedFork as nfk:
                for s2 in self.fork(st, nfk.f):
                    work.append((b, i, s2, True) if i == 0 else (b, i, s2, False))
                # re-entering the header after a fork must not count as a back edge
            except Infeasible:
                continue
            except Panic:
                outs.append(Out('panic', None, st))
            except Unsupported as e:
                outs.append(Out('unk', None, st, '%s (%s)' % (e, self.where(fr, b, i))))
        return outs

    def where(self, fr, b, i):
        bl = fr.body.blocks[b]
        if i < len(bl['st']):
            return bl['st'][i].get('s', '')
        return bl['t'].get('s', '')

    def fork(self, st, f):
        res = []
        for x in st.facts.add(f):
            res.append(St(dict(st.c), x))
        for x in st.facts.add(f_not(f)):
            res.append(St(dict(st.c), x))
        return res

    def switch(self, st, d, t):
        if isinstance(d, Bool):
            tv = st.dec(d.f)
            for v, b in t['v']:
                if bool(int(v)) == tv:
                    return b
            return t['o']
        if isinstance(d, P):
            for v, b in t['v']:
                if st.dec(eq(d, lift(_sgn(int(v), t.get('ty'))))):
                    return b
            return t['o']
        raise Unsupported('switch')

    def call(self, fr, st, t):
        f = t['f']
        self.calls += 1
        args = [self.operand(fr, st, a) for a in t['args']]
        if 'ptr' in f:
            v = self.operand(fr, st, f['ptr'])
            return self.apply(st, v, args, fr.depth)
        return self.invoke(st, f, args, t.get('argtys') or [], t.get('dty'), fr)

    def invoke(self, st, f, args, argtys, dty, fr=None):
        depth = fr.depth if fr else 0
        rpath = f.get('rpath') or f['path']
        if f.get('rlocal') and f.get('rkey') in self.crate.items:
            it = self.crate.items[f['rkey']]
            gr = self.roles.get(it.path)
            if gr is not None and gr[0] not in self.no_role and it.path not in self.no_role:
                s2 = st.copy()
                r = gr[1](self, s2, args)
                if r is not None:
                    self.roles_used.add(gr[0])
                    if it.key == self.top:
                        self.recs.append((s2, [self.deref_all(s2, a) for a in args]))
                    return r
            if it.kind == 'Closure' and '::call' in f['path'] and len(args) == 2 and isinstance(args[1], Rec):
                args = [args[0]] + list(args[1].f)
                if isinstance(args[0], Clos):
                    # body takes the environment by reference unless FnOnce by value
                    if it.body.locals[1]['ty'].get('k') == 'ref':
                        args[0] = self.ref_to(st, args[0])
            return self.run_fn(it, args, st, depth + 1)
        r = self.models.model(self, st, f, args, argtys, dty, fr)
        if isinstance(r, list):
            return r
        return [Out('ret', r, st)]

    def deref_all(self, st, v):
        while isinstance(v, Ref):
            v = self.read(st, v.cell, v.path)
        return v

    def apply(self, st, fv, args, depth=0):
        """call a closure / function value"""
        if isinstance(fv, Ref):
            inner = self.read(st, fv.cell, fv.path)
            if isinstance(inner, (Clos, FnV)):
                if isinstance(inner, FnV):
                    return self.apply(st, inner, args, depth)
                it = self.crate.items.get(inner.d)
                if it is None:
                    raise Unsupported('closure')
                env = fv if it.body.locals[1]['ty'].get('k') == 'ref' else inner
                return self.run_fn(it, [env] + list(args), st, depth + 1)
        if isinstance(fv, Clos):
            it = self.crate.items.get(fv.d)
            if it is None:
                raise Unsupported('closure')
            env = fv
            if it.body.locals[1]['ty'].get('k') == 'ref':
                env = self.ref_to(st, fv)
            return self.run_fn(it, [env] + list(args), st, depth + 1)
        if isinstance(fv, FnV):
            if 'path' not in fv.info:
                raise Unsupported('function value')
            return self.invoke(st, fv.info, list(args), fv.info.get('argtys') or [], fv.info.get('dty'))
        raise Unsupported('call of %s' % type(fv).__name__)


def _sgn(n, ty):
    if ty and ty.get('k') == 'int':
        lo, hi = INT_RANGE.get(ty['n'], (None, None))
        if hi is not None and n > hi:
            return n - (hi - lo + 1)
    return n


def _is_str(ty):
    return ty.get('k') == 'ref' and ty.get('t', {}).get('k') == 'str' or ty.get('t', {}).get('n') == 'str'


# ---- coefficient extraction --------------------------------------------------------

BYMAP = {}     # map -> uids
ELEMS = {}     # uid -> collection the generic element belongs to


def coef_of(r, x, y, q, vk, st=None):
    """coefficient at (x,y,q,vk); st=None: no case splits, leave what is undecided"""
    for uid in (BYMAP.get(r, ()) if vk[0] == 'K' else ()):
        if vk == ('K', ('bv', uid, 'kv')) and \
                x == ring.bv(uid, 'kx') and y == ring.bv(uid, 'ky') and q == ring.bv(uid, 'kq'):
            return ring.bv(uid, 'val')
    out = ZERO
    rest = {}
    for m, c in r.t.items():
        s, rm = ring.split_mono(m)
        ex = ring.explicit_key(rm)
        if ex is None:
            rest.setdefault(rm, ZERO)
            rest[rm] = rest[rm] + P({s: c})
            continue
        ex_, ey, eq_, vs = ex
        if not vs:
            v2 = ('e',)
        elif len(vs) == 1 and vs[0][1] == 1:
            k = nf.atom_key(vs[0][0])
            v2 = ('ij', k[1], k[2]) if k[0] == 'V' else ('K', k[1])
        else:
            continue
        cond = f_and(eq(ex_, x), eq(ey, y), eq(eq_, q), _veq(v2, vk))
        if st is not None:
            if st.dec(cond):
                out = out + P({s: c})
        elif cond is True:
            out = out + P({s: c})
        elif cond is not False:
            rest.setdefault(rm, ZERO)
            rest[rm] = rest[rm] + P({s: c})
    for rm, c in rest.items():
        v = _own_coef(rm, x, y, q, vk, st) if st is not None and vk[0] == 'K' else None
        out = out + c * (v if v is not None else atom(('coef', P({rm: 1}), x, y, q, vk)))
    return out


def _own_coef(rm, x, y, q, vk, st):
    """coefficient of a sum over a map, whose summand keeps the element's monomial,
    at the monomial of an element of that map"""
    if len(rm) != 1 or rm[0][1] != 1:
        return None
    k = nf.atom_key(rm[0][0])
    if k[0] != 'Sum' or vk[1][0] != 'bv':
        return None
    uid = vk[1][1]
    if ELEMS.get(uid) != k[1] or k[1][0] != 'map':
        return None
    if x != ring.bv(uid, 'kx') or y != ring.bv(uid, 'ky') or q != ring.bv(uid, 'kq'):
        return None
    g, body = ring.open_sum(k, uid)
    own = ring.elem_mono(uid)
    (om, _), = own.t.items()
    tot = ZERO
    for m, c in body.t.items():
        s, r = ring.split_mono(m)
        if P({r: 1}) != own:
            return None
        tot = tot + P({s: c})
    return tot if st.dec(g) else ZERO


def _veq(a, b):
    return Interp.var_eq(None, a, b)


def _rebuild_coef(r, x, y, q, vk):
    return coef_of(r, x, y, q, vk, None)


nf.rebuild['coef'] = _rebuild_coef
