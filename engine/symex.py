"""Symbolic executor for parsed LLVM IR with state merging at post-dominators."""
import sys
from . import term as t
from . import ir
from .term import const, TRUE, FALSE

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class BoundExceeded(Exception):
    pass


class Poison:
    def __repr__(self):
        return 'POISON'


POISON = Poison()


class Ptr:
    """guarded alternatives [(cond, obj, off)]; obj 0 == null, obj may be ('fn',name)"""
    __slots__ = ('alts', 'w')

    def __init__(self, alts):
        self.alts = alts
        self.w = 64


def mkptr(obj, off):
    return Ptr([(TRUE(), obj, off)])


class Obj:
    __slots__ = ('name', 'size', 'cells', 'ro', 'base')

    def __init__(self, name, size, cells=None, ro=False):
        self.name, self.size, self.ro = name, size, ro
        self.cells = cells if cells is not None else [None] * size

    def clone(self):
        return Obj(self.name, self.size, list(self.cells), self.ro)


class State:
    __slots__ = ('env', 'mem', 'own', 'pc', 'ret', 'block', 'asm')

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.pc = self.pc
        s.ret = self.ret
        s.asm = dict(self.asm)
        return s


class Obl:
    """proof obligation: `cond` must be unsatisfiable"""
    __slots__ = ('kind', 'cond', 'what')

    def __init__(self, kind, cond, what):
        self.kind, self.cond, self.what = kind, cond, what


class Exec:
    def __init__(self, mod, max_steps=2000000, unroll=400):
        self.mod = mod
        self.obls = []
        self.steps = 0
        self.blocks = 0
        self.max_steps = max_steps
        self.unroll = unroll
        self.globobj = {}
        self.objn = 1
        self.fns_used = set()
        self.depth = 0
        self.stubs = {}
        self.undefs = 0
        self.accesses = None    # optional recording of (objname, off, n, write, pc)
        self.intr_used = set()

    # ------------------------------------------------------------ objects
    def new_state(self):
        s = State()
        s.env, s.mem, s.own, s.pc, s.ret, s.asm = {}, {}, set(), TRUE(), None, {}
        return s

    def alloc(self, st, name, size, cells=None, ro=False):
        self.objn += 1
        st.mem[self.objn] = Obj(name, size, cells, ro)
        st.own.add(self.objn)
        return self.objn

    def obj_w(self, st, oid):
        o = st.mem[oid]
        if oid not in st.own:
            o = o.clone()
            st.mem[oid] = o
            st.own.add(oid)
        return o

    def global_ptr(self, st, name):
        if name in self.mod.fns or name in self.mod.decls:
            return mkptr(('fn', name), const(0, 64))
        if name not in self.globobj:
            ty, init, isconst = ir.global_init(self.mod, name)
            size = self.mod.size(ty)
            o = Obj(name, size, None, isconst)
            if init is None:
                raise Unsupported('external global ' + name)
            self.objn += 1
            self.globobj[name] = (self.objn, o)
            self._init(st, o.cells, 0, ty, init)
        oid, o = self.globobj[name]
        if oid not in st.mem:
            st.mem[oid] = o
        return mkptr(oid, const(0, 64))

    def _init(self, st, cells, off, ty, v):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k in ('undef', 'poison'):
            return
        if k == 'zero':
            z = const(0, 8)
            for i in range(self.mod.size(ty)):
                cells[off + i] = (z, 0)
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                cells[off + i] = (const(b, 8), 0)
            return
        if ty[0] == 'arr' or ty[0] == 'vec':
            es = self.mod.size(ty[2])
            for i, (et, e) in enumerate(v[1]):
                self._init(st, cells, off + i * es, et, e)
            return
        if ty[0] == 'st':
            for i, (et, e) in enumerate(v[1]):
                fo, ft = self.mod.field_off(ty, i)
                self._init(st, cells, off + fo, ft, e)
            return
        val = self.val(st, v, ty)
        n = self.mod.size(ty)
        if isinstance(val, t.T) and val.w != n * 8:
            val = t.zext(val, n * 8)
        for i in range(n):
            cells[off + i] = (val, i)

    # ------------------------------------------------------------ values
    def undef(self, w, why='undef'):
        self.undefs += 1
        return t.fresh(why, w)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ('i', 'f'):
            return const(0, ty[1])
        if ty[0] == 'ptr':
            return mkptr(0, const(0, 64))
        if ty[0] in ('vec', 'arr'):
            return [self.zero(ty[2]) for _ in range(ty[1])]
        if ty[0] == 'st':
            return [self.zero(e) for e in ty[1]]
        raise Unsupported('zero %r' % (ty,))

    def poison(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ('vec', 'arr'):
            return [self.poison(ty[2]) for _ in range(ty[1])]
        if ty[0] == 'st':
            return [self.poison(e) for e in ty[1]]
        return POISON

    def undef_like(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ('vec', 'arr'):
            return [self.undef_like(ty[2]) for _ in range(ty[1])]
        if ty[0] == 'st':
            return [self.undef_like(e) for e in ty[1]]
        if ty[0] in ('i', 'f'):
            return self.undef(ty[1])
        return POISON

    def val(self, st, v, ty):
        k = v[0]
        if k == 'loc':
            try:
                return st.env[v[1]]
            except KeyError:
                raise Unsupported('undefined local ' + v[1])
        if k == 'int':
            return const(v[1], ty[1])
        if k == 'fp':
            return const(v[1], ty[1])
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            return self.undef_like(ty)
        if k == 'poison':
            return self.poison(ty)
        if k == 'null':
            return mkptr(0, const(0, 64))
        if k == 'agg':
            return [self.val(st, e, et) for et, e in v[1]]
        if k == 'glob':
            return self.global_ptr(st, v[1])
        if k == 'gep':
            base = self.val(st, v[2][0][1], ir.PTR)
            return self.gep(st, v[1], base, [(x, self.val(st, y, x)) for x, y in v[2][1:]])
        if k == 'cast':
            x = self.val(st, v[3], v[2])
            if v[1] in ('bitcast', 'addrspacecast'):
                return x
            if v[1] == 'ptrtoint':
                return self.ptrtoint(st, x, v[4][1])
            if v[1] == 'inttoptr':
                return self.inttoptr(x)
        if k == 'str':
            return [const(b, 8) for b in v[1]]
        if k == 'cbin':
            a, b = self.val(st, v[3], v[2]), self.val(st, v[4], v[2])
            return self.binop(v[1], a, b)
        raise Unsupported('value %r' % (v,))

    def ptrtoint(self, st, p, w):
        # objects live at distinct, 4096-aligned symbolic-free addresses
        r = None
        for c, o, off in reversed(p.alts):
            base = 0 if o == 0 else (o if isinstance(o, int) else hash(o) & 0xffff) << 20
            x = t.add(const(base, 64), off)
            r = x if r is None else t.ite(c, x, r)
        return t.trunc(r, w) if w < 64 else r

    def inttoptr(self, x):
        if x.op == 'const':
            o = x.p >> 20
            return mkptr(o, const(x.p & 0xfffff, 64)) if o else mkptr(0, x)
        raise Unsupported('inttoptr of symbolic value')

    def gep(self, st, bt, base, idx):
        off = const(0, 64)
        ty = bt
        for n, (it, iv) in enumerate(idx):
            if isinstance(iv, Poison):
                return POISON
            if n == 0:
                sz = self.mod.size(ty)
            else:
                ty = self.mod.resolve(ty)
                if ty[0] == 'st':
                    fo, ft = self.mod.field_off(ty, iv.p)
                    off = t.add(off, const(fo, 64))
                    ty = ft
                    continue
                ty = ty[2]
                sz = self.mod.size(ty)
            i64 = t.sext(iv, 64) if iv.w < 64 else t.trunc(iv, 64)
            off = t.add(off, t.mul(i64, const(sz, 64)))
        if isinstance(base, Poison):
            return POISON
        return Ptr([(c, o, t.add(f, off)) for c, o, f in base.alts])

    # ------------------------------------------------------------ memory
    def _stride(self, off):
        """(base, stride) such that off = base + k*stride"""
        if off.op == 'const':
            return off.p, 0
        if off.op == 'add':
            b1, s1 = self._stride(off.args[0])
            b2, s2 = self._stride(off.args[1])
            import math
            return b1 + b2, math.gcd(s1, s2)
        if off.op == 'mul' and off.args[0].op == 'const':
            b, s = self._stride(off.args[1])
            return b * off.args[0].p, s * off.args[0].p if s else 0
        if off.op == 'concat' and off.args[-1].op == 'const':
            z = off.args[-1]
            if z.p == 0:
                return 0, 1 << z.w
        if off.op in ('zext',) and off.args[0].op == 'concat':
            return self._stride(off.args[0])
        if off.op == 'ite':
            b1, s1 = self._stride(off.args[1])
            b2, s2 = self._stride(off.args[2])
            import math
            g = math.gcd(math.gcd(s1, s2), abs(b1 - b2))
            return b1, g
        return 0, 1

    def _candidates(self, off, size, n):
        base, stride = self._stride(off)
        if stride == 0:
            return [off.p] if off.p + n <= size else []
        base %= 1 << 64
        return [x for x in range(base % stride, size - n + 1, stride)]

    def _oob(self, st, o, off, n, write, cond):
        if o == 0 or not isinstance(o, int) or o not in st.mem:
            self.obls.append(Obl('mem', t.and_(st.pc, cond), 'access through null/invalid pointer'))
            return None
        ob = st.mem[o]
        what = '%s of %d bytes outside object %s (size %d)' % ('write' if write else 'read', n, ob.name, ob.size)
        if off.op == 'const':
            if off.p + n > ob.size:
                self.obls.append(Obl('mem', t.and_(st.pc, cond), what + ' at offset %d' % t.sgn(off.p, 64)))
                return None
        else:
            bad = t.ult(const(ob.size - n, 64), off) if ob.size >= n else TRUE()
            bad = t.and_(bad, t.and_(st.pc, cond))
            if bad is not FALSE():
                self.obls.append(Obl('mem', bad, what))
        if write and ob.ro:
            self.obls.append(Obl('mem', t.and_(st.pc, cond), 'write to constant ' + ob.name))
            return None
        if self.accesses is not None:
            self.accesses.append((ob.name, off, n, write, t.and_(st.pc, cond)))
        return ob

    def _rd(self, ob, off, n, oid=None):
        cells = ob.cells
        c0 = cells[off]
        if c0 is not None and c0[1] == 0 and (isinstance(c0[0], Ptr) or c0[0].w == 8 * n):
            x = c0[0]
            for i in range(1, n):
                c = cells[off + i]
                if c is None or c[0] is not x or c[1] != i:
                    break
            else:
                return x
        parts = []
        for i in range(n):
            c = cells[off + i]
            if c is None:
                v = self.undef(8, 'uninit')
                cells[off + i] = (v, 0)
                parts.append(v)
            elif isinstance(c[0], Ptr):
                x = self.ptrtoint(None, c[0], 64)
                parts.append(t.extract(x, 8 * c[1] + 7, 8 * c[1]))
            else:
                parts.append(t.extract(c[0], 8 * c[1] + 7, 8 * c[1]))
        return t.concat(*reversed(parts))

    def load_n(self, st, p, n):
        """raw load of n bytes as a term (or Ptr)"""
        if isinstance(p, Poison):
            self.obls.append(Obl('mem', st.pc, 'load through poison pointer'))
            return self.undef(8 * n)
        r = None
        for c, o, off in reversed(p.alts):
            ob = self._oob(st, o, off, n, False, c)
            if ob is None:
                v = self.undef(8 * n, 'oob')
            elif off.op == 'const':
                v = self._rd(ob, off.p, n)
            else:
                cand = self._candidates(off, ob.size, n)
                v = None
                ys = [self._rd(ob, x, n) for x in cand] if ob.ro and len(cand) > 4 else ()
                if ys and all(not isinstance(y, Ptr) and y.op == 'const' for y in ys):
                    v = t.lut(t.Lut(list(zip(cand, [y.p for y in ys]))), off, 8 * n)
                    cand = ()
                for x in reversed(cand):
                    y = self._rd(ob, x, n)
                    v = y if v is None else self.merge(t.eq(off, const(x, 64)), y, v)
                if v is None:
                    v = self.undef(8 * n, 'oob')
            r = v if r is None else self.merge(c, v, r)
        return r

    def store_n(self, st, p, v, n, cond=None):
        cond = TRUE() if cond is None else cond
        if isinstance(p, Poison):
            self.obls.append(Obl('mem', t.and_(st.pc, cond), 'store through poison pointer'))
            return
        single = len(p.alts) == 1
        for c, o, off in p.alts:
            cc = t.and_(cond, c)
            ob = self._oob(st, o, off, n, True, cc)
            if ob is None:
                continue
            ob = self.obj_w(st, o)
            if off.op == 'const':
                if cc.op == 'const' and cc.p:
                    for i in range(n):
                        ob.cells[off.p + i] = (v, i)
                else:
                    old = self._rd(ob, off.p, n)
                    nv = self.merge(cc, v, old)
                    for i in range(n):
                        ob.cells[off.p + i] = (nv, i)
            else:
                for x in self._candidates(off, ob.size, n):
                    old = self._rd(ob, x, n)
                    nv = self.merge(t.and_(cc, t.eq(off, const(x, 64))), v, old)
                    for i in range(n):
                        ob.cells[x + i] = (nv, i)

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k in ('i', 'f'):
            n = (ty[1] + 7) // 8
            v = self.load_n(st, p, n)
            if isinstance(v, Ptr):
                v = self.ptrtoint(st, v, 64)
            return t.trunc(v, ty[1]) if v.w != ty[1] else v
        if k == 'ptr':
            v = self.load_n(st, p, 8)
            if not isinstance(v, Ptr):
                v = self.inttoptr(v)
            return v
        if k == 'vec':
            et = ty[2]
            es = et[1] if et[0] in 'if' else 64
            if es % 8:
                nb = (es * ty[1] + 7) // 8
                raw = self.load_n(st, p, nb)
                return [t.extract(raw, (i + 1) * es - 1, i * es) for i in range(ty[1])]
            out = []
            # bounds check the access as a whole
            if not isinstance(p, Poison):
                return [self.load(st, Ptr([(c, o, t.add(f, const(i * es // 8, 64))) for c, o, f in p.alts]), et) for i in range(ty[1])]
            return [self.undef(es) for _ in range(ty[1])]
        if k == 'arr':
            es = self.mod.size(ty[2])
            return [self.load(st, Ptr([(c, o, t.add(f, const(i * es, 64))) for c, o, f in p.alts]), ty[2]) for i in range(ty[1])]
        if k == 'st':
            out = []
            for i in range(len(ty[1])):
                fo, ft = self.mod.field_off(ty, i)
                out.append(self.load(st, Ptr([(c, o, t.add(f, const(fo, 64))) for c, o, f in p.alts]), ft))
            return out
        raise Unsupported('load %r' % (ty,))

    def store(self, st, p, v, ty, cond=None):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if isinstance(p, Poison):
            self.obls.append(Obl('mem', st.pc, 'store through poison pointer'))
            return
        if k in ('i', 'f'):
            n = (ty[1] + 7) // 8
            if isinstance(v, Poison):
                v = self.undef(8 * n, 'poison')
            if v.w != 8 * n:
                v = t.zext(v, 8 * n)
            self.store_n(st, p, v, n, cond)
            return
        if k == 'ptr':
            if isinstance(v, Poison):
                v = self.undef(64, 'poison')
            self.store_n(st, p, v, 8, cond)
            return
        if k == 'vec':
            et = ty[2]
            es = et[1] if et[0] in 'if' else 64
            if es % 8:
                v = [self.undef(es) if isinstance(x, Poison) else x for x in v]
                raw = t.concat(*reversed(v))
                nb = (raw.w + 7) // 8
                self.store_n(st, p, t.zext(raw, nb * 8), nb, cond)
                return
            for i in range(ty[1]):
                self.store(st, Ptr([(c, o, t.add(f, const(i * es // 8, 64))) for c, o, f in p.alts]), v[i], et, cond)
            return
        if k in ('arr', 'st'):
            for i in range(ty[1] if k == 'arr' else len(ty[1])):
                if k == 'arr':
                    fo, ft = i * self.mod.size(ty[2]), ty[2]
                else:
                    fo, ft = self.mod.field_off(ty, i)
                self.store(st, Ptr([(c, o, t.add(f, const(fo, 64))) for c, o, f in p.alts]), v[i], ft, cond)
            return
        raise Unsupported('store %r' % (ty,))

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        if len(d.alts) != 1 or len(s.alts) != 1 or d.alts[0][2].op != 'const' or s.alts[0][2].op != 'const':
            # byte-wise with symbolic pointers
            vals = [self.load_n(st, Ptr([(c, o, t.add(f, const(i, 64))) for c, o, f in s.alts]), 1) for i in range(n)]
            for i in range(n):
                self.store_n(st, Ptr([(c, o, t.add(f, const(i, 64))) for c, o, f in d.alts]), vals[i], 1)
            return
        so, sf = s.alts[0][1], s.alts[0][2]
        do, df = d.alts[0][1], d.alts[0][2]
        sob = self._oob(st, so, sf, n, False, TRUE())
        dob = self._oob(st, do, df, n, True, TRUE())
        if sob is None or dob is None:
            return
        cells = sob.cells[sf.p:sf.p + n]
        dob = self.obj_w(st, do)
        dob.cells[df.p:df.p + n] = cells

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poison):
            return b
        if isinstance(b, Poison):
            return a
        if isinstance(a, list):
            return [self.merge(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = self.inttoptr(a)
            if not isinstance(b, Ptr):
                b = self.inttoptr(b)
            if c.op == 'const':
                return a if c.p else b
            nc = t.not_(c)
            alts = [(t.and_(c, x), o, f) for x, o, f in a.alts] + [(t.and_(nc, x), o, f) for x, o, f in b.alts]
            out = []
            for g, o, f in alts:
                for i, (g2, o2, f2) in enumerate(out):
                    if o2 == o and f2 is f:
                        out[i] = (t.or_(g2, g), o, f)
                        break
                else:
                    out.append((g, o, f))
            # merge same object with symbolic offset
            objs = {o for _, o, _ in out}
            if len(objs) == 1 and len(out) > 1:
                r = out[-1][2]
                for g, o, f in reversed(out[:-1]):
                    r = t.ite(g, f, r)
                return Ptr([(TRUE(), out[0][1], r)])
            return Ptr(out)
        return t.ite(c, a, b)

    def merge_states(self, c, a, b):
        """a under c, b otherwise"""
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        s.pc = t.or_(a.pc, b.pc)
        ea, eb = a.env, b.env
        env = dict(ea)
        for k, v in eb.items():
            w = env.get(k)
            if w is None:
                env[k] = v
            elif w is not v:
                env[k] = self.merge(c, w, v)
        s.env = env
        mem = {}
        own = set()
        for k in set(a.mem) | set(b.mem):
            oa, ob = a.mem.get(k), b.mem.get(k)
            if oa is ob or ob is None:
                mem[k] = oa
            elif oa is None:
                mem[k] = ob
            else:
                mem[k] = self.merge_obj(c, oa, ob)
                own.add(k)
        s.mem = mem
        s.own = own
        if a.ret is None:
            s.ret = b.ret
        elif b.ret is None:
            s.ret = a.ret
        else:
            s.ret = self.merge(c, a.ret, b.ret)
        s.asm = {}
        for k in set(a.asm) | set(b.asm):
            x, y = a.asm.get(k), b.asm.get(k)
            s.asm[k] = x if y is None else y if x is None else self.merge(c, x, y)
        return s

    def merge_obj(self, c, oa, ob):
        n = oa.size
        cells = list(oa.cells)
        cb = ob.cells
        i = 0
        while i < n:
            x, y = cells[i], cb[i]
            if x == y:
                i += 1
                continue
            if x is None or y is None:
                cells[i] = x if y is None else y
                i += 1
                continue
            # try whole-value merge
            if x[1] == 0 and y[1] == 0 and x[0].w == y[0].w:
                k = x[0].w // 8
                if all(i + j < n and cells[i + j] == (x[0], j) and cb[i + j] == (y[0], j) for j in range(k)):
                    v = self.merge(c, x[0], y[0])
                    for j in range(k):
                        cells[i + j] = (v, j)
                    i += k
                    continue

            def byte(z):
                if isinstance(z[0], Ptr):
                    return t.extract(self.ptrtoint(None, z[0], 64), 8 * z[1] + 7, 8 * z[1])
                return t.extract(z[0], 8 * z[1] + 7, 8 * z[1])
            cells[i] = (t.ite(c, byte(x), byte(y)), 0)
            i += 1
        return Obj(oa.name, n, cells, oa.ro)

    # ------------------------------------------------------------ control
    def call(self, st, fname, args):
        """execute function; returns (state, retval) or (None, None) if it never returns"""
        fn = self.mod.fns[fname]
        self.fns_used.add(fname)
        self.depth += 1
        if self.depth > 200:
            raise BoundExceeded('call depth')
        saved = st.env
        saved_ret = st.ret
        st.env = {}
        st.ret = None
        for (ty, nm), v in zip(fn.params, args):
            st.env[nm] = v
        blocks = fn.blocks
        st2 = self.region(fn, st, fn.order[0], None, '$exit', 0)
        self.depth -= 1
        if st2 is None:
            return None, None
        r = st2.ret
        st2.env = dict(saved)
        st2.ret = saved_ret
        return st2, r

    def enter(self, fn, st, block, pred):
        """evaluate phis on edge pred->block"""
        ins = fn.blocks[block]
        upd = None
        for x in ins:
            if x.op != 'phi':
                break
            for v, b in x.a:
                if b == pred:
                    if upd is None:
                        upd = []
                    upd.append((x.dst, self.val(st, v, self.mod.resolve(x.ty))))
                    break
            else:
                raise Unsupported('phi without pred')
        if upd:
            for k, v in upd:
                st.env[k] = v

    def region(self, fn, st, block, pred, stop, depth):
        """run from block until edge into `stop`. Returns state or None (dead)."""
        if depth > self.unroll:
            raise BoundExceeded('symbolic branch nesting > %d in %s' % (self.unroll, fn.name))
        cur = block
        while True:
            self.blocks += 1
            for ins in fn.blocks[cur]:
                op = ins.op
                if op == 'phi':
                    continue
                self.steps += 1
                if self.steps > self.max_steps:
                    raise BoundExceeded('steps')
                if op == 'br':
                    if len(ins.a) == 1:
                        nxt = ins.a[0]
                        break
                    c = self.val(st, ins.a[0], ir.I1)
                    if isinstance(c, Poison):
                        self.obls.append(Obl('ub', st.pc, 'branch on poison in ' + fn.name))
                        c = self.undef(1)
                    cases = [(c, ins.a[1])]
                    default = ins.a[2]
                    r = self.branch(fn, st, cur, cases, default, stop, depth)
                elif op == 'switch':
                    v = self.val(st, ins.a[0], ins.ty)
                    if isinstance(v, Poison):
                        v = self.undef(ins.ty[1])
                    cases = [(t.eq(v, const(cv[1], ins.ty[1])), lbl) for cv, lbl in ins.a[2]]
                    default = ins.a[1]
                    r = self.branch(fn, st, cur, cases, default, stop, depth)
                elif op == 'ret':
                    if ins.a:
                        st.ret = self.val(st, ins.a[0], self.mod.resolve(ins.ty))
                    else:
                        st.ret = ()
                    assert stop == '$exit', (fn.name, stop)
                    return st
                elif op == 'unreachable':
                    if st.pc is not FALSE():
                        self.obls.append(Obl('ub', st.pc, 'reaches unreachable code in ' + fn.name))
                    return None
                else:
                    st = self.ins(fn, st, ins)
                    if st is None:
                        return None
                    continue
                # result of branch()
                kind, x = r
                if kind == 'goto':
                    nxt = x
                    break
                if kind == 'done':
                    return x
                st, cur2 = x
                # continue at join block cur2 (phis already evaluated)
                nxt = None
                break
            else:
                raise Unsupported('block without terminator')
            if nxt is None:
                if st is None:
                    return None
                cur = cur2
                continue
            if nxt == stop:
                if nxt != '$exit':
                    self.enter(fn, st, nxt, cur)
                return st
            self.enter(fn, st, nxt, cur)
            cur = nxt

    def branch(self, fn, st, cur, cases, default, stop, depth):
        live = []
        rest = TRUE()
        for c, lbl in cases:
            g = t.and_(rest, c)
            if g.op == 'const' and not g.p:
                continue
            if c.op == 'const' and c.p:
                if not live:
                    return ('goto', lbl)
                live.append((rest, lbl))
                rest = FALSE()
                break
            live.append((g, lbl))
            rest = t.and_(rest, t.not_(c))
        if not (rest.op == 'const' and not rest.p):
            live.append((rest, default))
        # group by label
        grp = {}
        order = []
        for g, lbl in live:
            if lbl in grp:
                grp[lbl] = t.or_(grp[lbl], g)
            else:
                grp[lbl] = g
                order.append(lbl)
        if len(order) == 1:
            return ('goto', order[0])
        join = fn.ipdom.get(cur)
        if join is None:
            join = stop
        target = join
        # prune branches contradicted by path condition (syntactic)
        results = []
        for lbl in order:
            g = grp[lbl]
            pc = t.and_(st.pc, g)
            if pc.op == 'const' and not pc.p:
                continue
            if self.prune(pc):
                continue
            s = st.fork()
            s.pc = pc
            if lbl not in fn.live:
                # only leads to unreachable
                self.enter(fn, s, lbl, cur)
                self.region(fn, s, lbl, cur, '$none', depth + 1)
                continue
            if lbl == target:
                self.enter(fn, s, lbl, cur)
                results.append((g, s))
                continue
            self.enter(fn, s, lbl, cur)
            r = self.region(fn, s, lbl, cur, target, depth + 1)
            if r is not None:
                results.append((g, r))
        if not results:
            return ('done', None)
        m = results[-1][1]
        for g, s in reversed(results[:-1]):
            m = self.merge_states(g, s, m)
        if target == stop or target == '$exit':
            return ('done', m)
        return ('cont', (m, target))

    def prune(self, pc):
        return False

    # ------------------------------------------------------------ instructions
    def map1(self, f, a):
        if isinstance(a, list):
            return [self.map1(f, x) for x in a]
        if isinstance(a, Poison):
            return POISON
        return f(a)

    def map2(self, f, a, b):
        if isinstance(a, list):
            return [self.map2(f, x, y) for x, y in zip(a, b)]
        if isinstance(a, Poison) or isinstance(b, Poison):
            return POISON
        return f(a, b)

    def map3(self, f, a, b, c):
        if isinstance(a, list):
            return [self.map3(f, x, y, z) for x, y, z in zip(a, b, c)]
        if isinstance(a, Poison) or isinstance(b, Poison) or isinstance(c, Poison):
            return POISON
        return f(a, b, c)

    def sh(self, f):
        def g(a, b):
            if b.op == 'const':
                if b.p >= a.w:
                    return POISON
                return f(a, b)
            bad = t.ule(const(a.w, b.w), b)
            if bad is FALSE():
                return f(a, b)
            return t.ite(bad, self.undef(a.w, 'shift-oob'), f(a, b))
        return g

    def binop(self, op, a, b, st=None):
        if op in ('shl', 'lshr', 'ashr'):
            return self.map2(self.sh({'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr}[op]), a, b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            f = {'udiv': t.udiv, 'sdiv': t.sdiv, 'urem': t.urem, 'srem': t.srem}[op]

            def g(x, y):
                z = t.eq(y, const(0, y.w))
                if op[0] == 's':
                    z = t.or_(z, t.and_(t.eq(y, t.ones(y.w)), t.eq(x, const(1 << (x.w - 1), x.w))))
                if st is not None:
                    c = t.and_(st.pc, z)
                    if c is not FALSE():
                        self.obls.append(Obl('div', c, 'division by zero or overflow'))
                return f(x, y)
            return self.map2(g, a, b)
        if op[0] == 'f' and op != 'frem':
            return self.map2(lambda x, y: t.fop(op[1:], (x, y), x.w), a, b)
        if op == 'frem':
            return self.map2(lambda x, y: t.fop('frem', (x, y), x.w), a, b)
        f = {'add': t.add, 'sub': t.sub, 'mul': t.mul, 'and': t.and_, 'or': t.or_, 'xor': t.xor_}[op]
        if op in ('and', 'or', 'mul'):
            z = (1 << 4096) - 1 if op == 'or' else 0

            def f2(x, y):
                # an arbitrary lane is absorbed like on the hardware
                if isinstance(x, Poison):
                    x, y = y, x
                if isinstance(y, Poison):
                    return x if not isinstance(x, Poison) and x.op == 'const' and x.p == z & ((1 << x.w) - 1) else POISON
                return f(x, y)
            return [f2(x, y) for x, y in zip(a, b)] if isinstance(a, list) else f2(a, b)
        return self.map2(f, a, b)

    def bitcast(self, v, a, b):
        a, b = self.mod.resolve(a), self.mod.resolve(b)
        if a == b or a[0] == 'ptr':
            return v
        # flatten to bits
        if a[0] == 'vec':
            es = a[2][1]
            if b[0] == 'vec':
                bs = b[2][1]
                if es == bs:
                    return v
                if es > bs:
                    k = es // bs
                    out = []
                    for x in v:
                        for j in range(k):
                            out.append(POISON if isinstance(x, Poison) else t.extract(x, (j + 1) * bs - 1, j * bs))
                    return out
                if bs % es == 0:
                    k = bs // es
                    out = []
                    for i in range(0, len(v), k):
                        ch = v[i:i + k]
                        if all(isinstance(x, Poison) for x in ch):
                            out.append(POISON)
                        else:
                            out.append(t.concat(*reversed([self.undef(es) if isinstance(x, Poison) else x for x in ch])))
                    return out
            v = [self.undef(es) if isinstance(x, Poison) else x for x in v]
            raw = t.concat(*reversed(v))
        else:
            if isinstance(v, Poison):
                return self.poison(b)
            raw = v
        if b[0] == 'vec':
            bs = b[2][1]
            return [t.extract(raw, (i + 1) * bs - 1, i * bs) for i in range(b[1])]
        return raw

    def ins(self, fn, st, ins):
        op = ins.op
        env = st.env
        V = lambda v, ty: self.val(st, v, ty)
        if op in ir.BINOPS:
            ty = self.mod.resolve(ins.ty)
            a, b = V(ins.a[0], ty), V(ins.a[1], ty)
            env[ins.dst] = self.binop(op, a, b, st)
        elif op == 'call':
            return self.do_call(fn, st, ins)
        elif op == 'load':
            env[ins.dst] = self.load(st, V(ins.a[0], ir.PTR), ins.ty)
        elif op == 'store':
            self.store(st, V(ins.a[1], ir.PTR), V(ins.a[0], self.mod.resolve(ins.ty)), ins.ty)
        elif op == 'getelementptr':
            base = V(ins.a[0][1], ir.PTR)
            if ins.a[0][0][0] == 'vec':
                raise Unsupported('vector gep')
            env[ins.dst] = self.gep(st, ins.ty, base, [(x, V(y, x)) for x, y in ins.a[1:]])
        elif op == 'bitcast':
            env[ins.dst] = self.bitcast(V(ins.a[1], ins.a[0]), ins.a[0], ins.ty)
        elif op in ir.CASTS:
            src = V(ins.a[1], ins.a[0])
            tt = self.mod.resolve(ins.ty)
            w = (tt[2] if tt[0] == 'vec' else tt)
            w = w[1] if len(w) > 1 else 64
            if op == 'trunc':
                f = lambda x: t.trunc(x, w)
            elif op == 'zext':
                f = lambda x: t.zext(x, w)
            elif op == 'sext':
                f = lambda x: t.sext(x, w)
            elif op == 'ptrtoint':
                f = lambda x: self.ptrtoint(st, x, w)
            elif op == 'inttoptr':
                f = self.inttoptr
            elif op == 'fptosi':
                f = lambda x: t.ite(t.f2i_inrange(x, w, True), t.f2i(x, w), self.undef(w, 'fptosi')) if x.op != 'const' or not t.f2i_inrange(x, w, True).p else t.f2i(x, w)
            elif op == 'fptoui':
                f = lambda x: t.ite(t.f2i_inrange(x, w, False), t.f2i(x, w), self.undef(w, 'fptoui'))
            elif op in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
                f = lambda x: t.fop(op, (x,), w)
            else:
                f = lambda x: x
            env[ins.dst] = self.map1(f, src)
        elif op == 'icmp':
            pred, a, b = ins.a
            ty = self.mod.resolve(ins.ty)
            x, y = V(a, ty), V(b, ty)
            if ty[0] == 'ptr':
                if isinstance(x, Poison) or isinstance(y, Poison):
                    env[ins.dst] = POISON
                    return st
                x, y = self.ptrtoint(st, x, 64), self.ptrtoint(st, y, 64)
            f = {'eq': t.eq, 'ne': t.ne, 'ult': t.ult, 'ule': t.ule, 'ugt': t.ugt, 'uge': t.uge,
                 'slt': t.slt, 'sle': t.sle, 'sgt': t.sgt, 'sge': t.sge}[pred]
            env[ins.dst] = self.map2(f, x, y)
        elif op == 'fcmp':
            pred, a, b = ins.a
            ty = self.mod.resolve(ins.ty)
            env[ins.dst] = self.map2(lambda x, y: t.fcmp(pred, x, y), V(a, ty), V(b, ty))
        elif op == 'select':
            ct, c, a, b = ins.a
            ty = self.mod.resolve(ins.ty)
            cv, av, bv = V(c, ct), V(a, ty), V(b, ty)
            if isinstance(cv, list):
                env[ins.dst] = [self.sel(x, y, z) for x, y, z in zip(cv, av, bv)]
            else:
                env[ins.dst] = self.sel(cv, av, bv)
        elif op == 'extractelement':
            v, it, i = ins.a
            vec = V(v, self.mod.resolve(ins.ty))
            iv = V(i, it)
            env[ins.dst] = self.index(vec, iv)
        elif op == 'insertelement':
            v, et, e, it, i = ins.a
            vec = list(V(v, self.mod.resolve(ins.ty)))
            ev = V(e, et)
            iv = V(i, it)
            if iv.op == 'const':
                vec[iv.p] = ev
            else:
                vec = [self.merge(t.eq(iv, const(k, iv.w)), ev, x) for k, x in enumerate(vec)]
            env[ins.dst] = vec
        elif op == 'shufflevector':
            a, b, mt, m = ins.a
            ty = self.mod.resolve(ins.ty)
            x, y = V(a, ty), V(b, ty)
            xy = x + y
            if m[0] == 'zero':
                env[ins.dst] = [xy[0]] * mt[1]
            elif m[0] in ('undef', 'poison'):
                env[ins.dst] = [POISON] * mt[1]
            else:
                env[ins.dst] = [xy[e[1]] if e[0] == 'int' else POISON for _, e in m[1]]
        elif op == 'extractvalue':
            v = V(ins.a[0], self.mod.resolve(ins.ty))
            for i in ins.a[1]:
                v = v[i] if not isinstance(v, Poison) else v
            env[ins.dst] = v
        elif op == 'insertvalue':
            v, et, e, ix = ins.a
            agg = V(v, self.mod.resolve(ins.ty))
            ev = V(e, et)

            def put(a, ix):
                a = list(a)
                if len(ix) == 1:
                    a[ix[0]] = ev
                else:
                    a[ix[0]] = put(a[ix[0]], ix[1:])
                return a
            env[ins.dst] = put(agg, ix)
        elif op == 'fneg':
            env[ins.dst] = self.map1(t.fneg, V(ins.a[0], self.mod.resolve(ins.ty)))
        elif op == 'freeze':
            ty = self.mod.resolve(ins.ty)

            def fz(x, ty):
                if isinstance(x, list):
                    return [fz(y, ty[2]) for y in x]
                if isinstance(x, Poison):
                    return self.undef(ty[1])
                return x
            env[ins.dst] = fz(V(ins.a[0], ty), ty)
        elif op == 'alloca':
            n = V(ins.a[0], ('i', 64))
            if n.op != 'const':
                raise Unsupported('dynamic alloca')
            oid = self.alloc(st, 'stack:%s%s' % (fn.name, ins.dst), self.mod.size(ins.ty) * n.p)
            env[ins.dst] = mkptr(oid, const(0, 64))
        elif op == 'nop':
            pass
        else:
            raise Unsupported('instruction ' + op)
        return st

    def sel(self, c, a, b):
        if isinstance(c, Poison):
            return self.poison_like(a)
        if c.op == 'const':
            return a if c.p else b
        return self.merge(c, a, b)

    def poison_like(self, a):
        if isinstance(a, list):
            return [self.poison_like(x) for x in a]
        return POISON

    def index(self, vec, iv):
        if isinstance(iv, Poison):
            return POISON
        if iv.op == 'const':
            return vec[iv.p] if iv.p < len(vec) else POISON
        r = vec[-1]
        for k in range(len(vec) - 2, -1, -1):
            r = self.merge(t.eq(iv, const(k, iv.w)), vec[k], r)
        return r

    def do_call(self, fn, st, ins):
        callee, args = ins.a
        if callee[0] == 'asm':
            from . import intrinsics
            return intrinsics.asm(self, st, ins)
        if callee[0] == 'loc':
            p = self.val(st, callee, ir.PTR)
            if isinstance(p, Ptr) and len(p.alts) == 1 and isinstance(p.alts[0][1], tuple):
                name = p.alts[0][1][1]
            else:
                raise Unsupported('indirect call')
        elif callee[0] == 'glob':
            name = callee[1]
        else:
            raise Unsupported('callee %r' % (callee,))
        if name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime') or name.startswith('@llvm.experimental.noalias'):
            if name.startswith('@llvm.lifetime'):
                # contents become indeterminate on both start and end
                p = self.val(st, args[1][1], ir.PTR)
                if len(p.alts) == 1 and p.alts[0][2].op == 'const' and p.alts[0][1] in st.mem:
                    ob = self.obj_w(st, p.alts[0][1])
                    ob.cells = [None] * ob.size
            return st
        vals = [None if at == ('metadata',) else self.val(st, av, self.mod.resolve(at)) for at, av in args]
        if name in self.stubs:
            r = self.stubs[name](self, st, vals, ins)
            if r is None and ins.dst:
                return None
            if ins.dst:
                st.env[ins.dst] = r
            return st
        if name in self.mod.fns:
            dst = ins.dst
            st2, r = self.call(st, name, vals)
            if st2 is None:
                return None
            if dst:
                st2.env[dst] = r
            return st2
        from . import intrinsics
        self.intr_used.add(name)
        r = intrinsics.call(self, st, name, vals, ins)
        if r is intrinsics.DEAD:
            return None
        if ins.dst:
            st.env[ins.dst] = r
        return st
