"""Semantics of LLVM generic intrinsics, x86 vector intrinsics, libm calls and inline asm.

Anything not listed raises Unsupported: the check then reports the harness as
undecided rather than guessing.
"""
import re
from . import term as t
from . import ir
from .term import const, TRUE, FALSE


class _Dead:
    pass


DEAD = _Dead()


def U(ex, msg):
    from .symex import Unsupported
    raise Unsupported(msg)


def ispo(x):
    from .symex import Poison
    return isinstance(x, Poison)


def PO():
    from .symex import POISON
    return POISON


def lanes(ex, v, w):
    """replace poison lanes by fresh values"""
    return [ex.undef(w, 'poison') if ispo(x) else x for x in v]


def rev_concat(v):
    return t.concat(*reversed(v))


def split(x, w):
    return [t.extract(x, i + w - 1, i) for i in range(0, x.w, w)]


def sat_s(x, w):
    """signed saturate wide x to w bits"""
    lo, hi = const(-(1 << (w - 1)), x.w), const((1 << (w - 1)) - 1, x.w)
    return t.ite(t.slt(x, lo), const(1 << (w - 1), w), t.ite(t.sgt(x, hi), const((1 << (w - 1)) - 1, w), t.trunc(x, w)))


def sat_u(x, w):
    """unsigned-saturate signed wide x to w bits"""
    hi = const((1 << w) - 1, x.w)
    return t.ite(t.slt(x, const(0, x.w)), const(0, w), t.ite(t.sgt(x, hi), const(-1, w), t.trunc(x, w)))


# x86 MINPS/MAXPS: second operand if either is NaN or both zero
def x86min(a, b):
    return t.ite(t.flt(a, b), a, b)


def x86max(a, b):
    return t.ite(t.flt(b, a), a, b)


CMPP = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord',
        'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']


def rmode(imm):
    if imm & 4:
        return 'rint'
    return ('rint', 'floor', 'ceil', 'trunc')[imm & 3]


def cvt_rint(x, n):
    """cvtps2dq etc: round to nearest even then convert; indefinite on overflow/NaN"""
    return t.cvtt(t.fround(x, 'rint'), n)


def minnum(x, y):
    return t.ite(t.isnan(x), y, t.ite(t.isnan(y), x, t.ite(t.flt(y, x), y, x)))


def maxnum(x, y):
    return t.ite(t.isnan(x), y, t.ite(t.isnan(y), x, t.ite(t.flt(x, y), y, x)))


def ctpop(x):
    r = const(0, x.w)
    for i in range(x.w):
        r = t.add(r, t.zext(t.extract(x, i, i), x.w) if x.w > 1 else x)
    return r


def ctlz(x):
    w = x.w
    r = const(w, w)
    for i in range(w):
        r = t.ite(t.extract(x, i, i), const(w - 1 - i, w), r)
    return r


def cttz(x):
    w = x.w
    r = const(w, w)
    for i in reversed(range(w)):
        r = t.ite(t.extract(x, i, i), const(i, w), r)
    return r


def fpclass(x, m):
    sg = t.fsign(x)
    qbit = t.extract(x, t.FMT[x.w][1] - 1, t.FMT[x.w][1] - 1)
    norm = t.and_(t.isfinite(x), t.and_(t.not_(t.iszero(x)), t.not_(t.issub(x))))
    cs = [t.and_(t.isnan(x), t.not_(qbit)), t.and_(t.isnan(x), qbit), t.and_(t.isinf(x), sg), t.and_(norm, sg),
          t.and_(t.issub(x), sg), t.and_(t.iszero(x), sg), t.and_(t.iszero(x), t.not_(sg)), t.and_(t.issub(x), t.not_(sg)),
          t.and_(norm, t.not_(sg)), t.and_(t.isinf(x), t.not_(sg))]
    return t.disj([c for i, c in enumerate(cs) if m >> i & 1])


def gen(ex, st, n, a, ins):
    """generic llvm.* intrinsics; n without 'llvm.' prefix"""
    b = n.split('.')[0]
    m1, m2, m3 = ex.map1, ex.map2, ex.map3
    if n.startswith('assume') or b in ('experimental', 'donothing', 'prefetch', 'sideeffect', 'var', 'stackrestore'):
        return None
    if n.startswith('lifetime'):
        return None
    if b == 'abs':
        return m1(lambda x: t.ite(t.extract(x, x.w - 1, x.w - 1), t.neg(x), x), a[0])
    if b in ('smin', 'smax', 'umin', 'umax'):
        f = {'smin': t.slt, 'smax': t.sgt, 'umin': t.ult, 'umax': t.ugt}[b]
        return m2(lambda x, y: t.ite(f(x, y), x, y), a[0], a[1])
    if b == 'fabs':
        return m1(t.fabs_, a[0])
    if b == 'copysign':
        return m2(lambda x, y: t.or_(t.fabs_(x), t.and_(y, const(1 << (y.w - 1), y.w))), a[0], a[1])
    if b in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven'):
        md = {'nearbyint': 'rint', 'roundeven': 'rint'}.get(b, b)
        return m1(lambda x: t.fround(x, md), a[0])
    if b == 'sqrt':
        return m1(lambda x: t.fop('sqrt', (x,), x.w), a[0])
    if b == 'fma':
        return m3(lambda x, y, z: t.fop('fma', (x, y, z), x.w), a[0], a[1], a[2])
    if b == 'minnum':
        return m2(minnum, a[0], a[1])
    if b == 'maxnum':
        return m2(maxnum, a[0], a[1])
    if b == 'ctpop':
        return m1(ctpop, a[0])
    if b == 'ctlz':
        return m1(ctlz, a[0])
    if b == 'cttz':
        return m1(cttz, a[0])
    if b == 'bswap':
        return m1(lambda x: t.concat(*split(x, 8)), a[0])
    if b == 'bitreverse':
        return m1(lambda x: t.concat(*split(x, 1)), a[0])
    if b in ('fshl', 'fshr'):
        def f(x, y, z):
            w = x.w
            s = t.urem(z, const(w, w)) if z.op != 'const' else const(z.p % w, w)
            xy = t.concat(x, y)
            s2 = t.zext(s, 2 * w)
            return t.extract(t.shl(xy, s2), 2 * w - 1, w) if b == 'fshl' else t.extract(t.lshr(xy, s2), w - 1, 0)
        return m3(f, a[0], a[1], a[2])
    if b in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and '.with.overflow' in n:
        def f(x, y):
            w = x.w
            W = 2 * w if b[1:] == 'mul' else w + 1
            e = t.sext if b[0] == 's' else t.zext
            g = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[b[1:]]
            r = g(e(x, W), e(y, W))
            lo = t.trunc(r, w)
            return [lo, t.ne(e(lo, W), r)]
        return f(a[0], a[1])
    if b in ('sadd', 'uadd', 'ssub', 'usub') and '.sat' in n:
        def f(x, y):
            w = x.w
            W = w + 2
            e = t.sext if b[0] == 's' else t.zext
            g = t.add if b[1:] == 'add' else t.sub
            r = g(e(x, W), e(y, W))
            return sat_s(r, w) if b[0] == 's' else sat_u(r, w)
        return m2(f, a[0], a[1])
    if n.startswith('is.fpclass'):
        return m1(lambda x: fpclass(x, a[1].p), a[0])
    if b == 'expect':
        return a[0]
    if n.startswith('vector.reduce'):
        op = n.split('.')[2]
        f = {'add': t.add, 'mul': t.mul, 'and': t.and_, 'or': t.or_, 'xor': t.xor_,
             'smin': lambda x, y: t.ite(t.slt(x, y), x, y), 'smax': lambda x, y: t.ite(t.sgt(x, y), x, y),
             'umin': lambda x, y: t.ite(t.ult(x, y), x, y), 'umax': lambda x, y: t.ite(t.ugt(x, y), x, y)}.get(op)
        if op in ('fadd', 'fmul'):
            r = a[0]
            for x in a[1]:
                r = ex.map2(lambda p, q: t.fop(op[1:], (p, q), p.w), r, x)
            return r
        if f is None:
            U(ex, 'llvm.' + n)
        r = a[0][0]
        for x in a[0][1:]:
            r = ex.map2(f, r, x)
        return r
    if b in ('memcpy', 'memmove'):
        if a[2].op != 'const':
            U(ex, 'memcpy of symbolic size')
        ex.memcpy(st, a[0], a[1], a[2].p)
        return None
    if b == 'memset':
        if a[2].op != 'const':
            U(ex, 'memset of symbolic size')
        v = ex.undef(8) if ispo(a[1]) else a[1]
        if len(a[0].alts) == 1 and a[0].alts[0][2].op == 'const' and a[2].p:
            o, f = a[0].alts[0][1], a[0].alts[0][2]
            ob = ex._oob(st, o, f, a[2].p, True, TRUE())
            if ob is not None:
                ob = ex.obj_w(st, o)
                for i in range(a[2].p):
                    ob.cells[f.p + i] = (v, 0)
            return None
        for i in range(a[2].p):
            ex.store_n(st, off(a[0], i), v, 1)
        return None
    if n.startswith('masked.store'):
        v, p, msk = a[0], a[1], a[3]
        et = ins.a[1][0][0]
        et = ex.mod.resolve(et)[2]
        es = et[1] // 8
        for i, x in enumerate(v):
            c = msk[i]
            if c.op == 'const' and not c.p:
                continue
            ex.store(st, off(p, i * es), x, et, c)
        return None
    if n.startswith('masked.load'):
        p, msk, pt = a[0], a[2], a[3]
        et = ex.mod.resolve(ins.ty)[2]
        return masked_load(ex, st, p, msk, pt, et)
    if b in ('trap', 'debugtrap', 'ubsantrap'):
        return trap(ex, st)
    if b == 'frexp':
        from .spec import frexp
        y, e = frexp(a[0], 32)
        return [y, e]
    if b == 'ldexp':
        w = a[0].w if not isinstance(a[0], list) else a[0][0].w
        from .spec import scalbn
        return m2(lambda x, y: scalbn(x, t.sext(y, 64) if y.w < 64 else y), a[0], a[1])
    if b in ('log', 'log2', 'log10', 'exp', 'exp2', 'sin', 'cos', 'pow'):
        if b == 'pow':
            return m2(lambda x, y: t.fop('libm:pow', (x, y), x.w), a[0], a[1])
        return m1(lambda x: t.fop('libm:' + b, (x,), x.w), a[0])
    if n.startswith('x86.'):
        return x86(ex, st, n[4:], a, ins)
    U(ex, 'intrinsic llvm.' + n)


def trap(ex, st):
    from .symex import Obl
    ex.obls.append(Obl('trap', st.pc, 'assertion failure / trap reached'))
    return DEAD


def off(p, n):
    from .symex import Ptr
    return Ptr([(c, o, t.add(f, const(n, 64))) for c, o, f in p.alts])


def masked_load(ex, st, p, msk, pt, et):
    es = et[1] // 8
    out = []
    pc = st.pc
    for i, c in enumerate(msk):
        if c.op == 'const' and not c.p:
            out.append(pt[i])
            continue
        st.pc = t.and_(pc, c)
        v = ex.load(st, off(p, i * es), et)
        st.pc = pc
        out.append(ex.merge(c, v, pt[i]))
    return out


def halves(f, a, n=None):
    """apply f to each 128-bit group"""
    pass


def x86(ex, st, n, a, ins):
    m1, m2, m3 = ex.map1, ex.map2, ex.map3
    rt = ex.mod.resolve(ins.ty) if ins.ty else None
    rw = None
    if rt and rt[0] == 'vec':
        rw = rt[2][1]
    elif rt and rt[0] in 'if':
        rw = rt[1]
    isa, _, nm = n.partition('.')
    nm0 = nm
    # ---- control register: default rounding and masks, arbitrary sticky flags
    if nm == 'stmxcsr':
        ex.store_n(st, a[0], t.or_(const(0x1f80, 32), t.zext(t.fresh('mxcsr', 6), 32)), 4)
        return None
    if nm == 'ldmxcsr':
        v = ex.load(st, a[0], ('i', 32))
        from .symex import Obl
        ex.obls.append(Obl('ub', t.and_(st.pc, t.ne(t.and_(v, const(0xffffffc0, 32)), const(0x1f80, 32))), 'floating-point control register left changed'))
        return None
    # ---- conversions
    if nm in ('cvtps2dq', 'cvt.ps2dq.256', 'cvtpd2dq', 'cvt.pd2dq.256'):
        r = m1(lambda x: cvt_rint(x, 32), a[0])
        return r + [const(0, 32)] * (rt[1] - len(r))
    if nm in ('cvttps2dq', 'cvtt.ps2dq.256', 'cvttpd2dq', 'cvtt.pd2dq.256'):
        r = m1(lambda x: t.cvtt(x, 32), a[0])
        return r + [const(0, 32)] * (rt[1] - len(r))
    if nm in ('cvtsd2si', 'cvtsd2si64', 'cvtss2si', 'cvtss2si64'):
        return m1(lambda x: cvt_rint(x, rw), a[0][0])
    if nm in ('cvttsd2si', 'cvttsd2si64', 'cvttss2si', 'cvttss2si64'):
        return m1(lambda x: t.cvtt(x, rw), a[0][0])
    if nm == 'cvtpd2ps' or nm == 'cvt.pd2.ps.256':
        r = m1(lambda x: t.fop('fptrunc', (x,), 32), a[0])
        return r + [const(0, 32)] * (rt[1] - len(r))
    # ---- packs
    m = re.match(r'(packss|packus)(wb|dw)(\.128)?$', nm)
    if m:
        x, y = lanes(ex, a[0], rw * 2), lanes(ex, a[1], rw * 2)
        f = sat_s if m.group(1) == 'packss' else sat_u
        g = 64 // rw            # source lanes per 128-bit group
        out = []
        for k in range(0, len(x), g):
            out += [f(v, rw) for v in x[k:k + g]] + [f(v, rw) for v in y[k:k + g]]
        return out
    # ---- shifts
    m = re.match(r'p(sll|srl|sra)(i?)\.([wdq])(\.128|\.256)?$', nm)
    if m:
        op, imm = m.group(1), m.group(2)
        w = rw
        if imm:
            cnt = t.zext(a[1], 64)
        else:
            c = lanes(ex, a[1], rw)
            cnt = t.extract(rev_concat(c), 63, 0)
        return m1(lambda x: vshift(op, x, cnt), a[0])
    m = re.match(r'p(sllv|srlv|srav)\.([dq])(\.256)?$', nm)
    if m:
        return m2(lambda x, y: vshift(m.group(1)[:3], x, y), a[0], a[1])
    # ---- multiplies
    if nm.startswith('pmulhu.w') or nm.startswith('pmulh.w'):
        e = t.zext if nm.startswith('pmulhu') else t.sext
        return m2(lambda x, y: t.extract(t.mul(e(x, 32), e(y, 32)), 31, 16), a[0], a[1])
    if nm.startswith('pmadd.wd'):
        x, y = lanes(ex, a[0], 16), lanes(ex, a[1], 16)
        p = [t.mul(t.sext(i, 32), t.sext(j, 32)) for i, j in zip(x, y)]
        return [t.add(p[i], p[i + 1]) for i in range(0, len(p), 2)]
    if nm.startswith('pavg.'):
        return m2(lambda x, y: t.extract(t.add(t.add(t.zext(x, x.w + 1), t.zext(y, x.w + 1)), const(1, x.w + 1)), x.w, 1), a[0], a[1])
    if nm.startswith('psad.bw'):
        x, y = lanes(ex, a[0], 8), lanes(ex, a[1], 8)
        out = []
        for k in range(0, len(x), 8):
            s = const(0, 64)
            for i in range(k, k + 8):
                d = t.ite(t.ult(x[i], y[i]), t.sub(y[i], x[i]), t.sub(x[i], y[i]))
                s = t.add(s, t.zext(d, 64))
            out.append(s)
        return out
    # ---- masks
    if re.match(r'p?movmsk', nm) or nm.startswith('pmovmskb'):
        w = 8 if nm.startswith('pmovmskb') else (32 if '.ps' in nm else 64)
        bits = [t.extract(x, w - 1, w - 1) for x in lanes(ex, a[0], w)]
        return t.zext(rev_concat([bb for bb in bits]), 32) if len(bits) < 32 else rev_concat(bits)
    m = re.match(r'ptest(z|c|nzc)(\.256)?$', nm) or re.match(r'vtest(z|c|nzc)\.p[sd](\.256)?$', nm)
    if m:
        ew = ex.mod.resolve(ins.a[1][0][0])[2][1]
        x, y = lanes(ex, a[0], ew), lanes(ex, a[1], ew)
        if nm.startswith('vtest'):
            x = [t.extract(v, ew - 1, ew - 1) for v in x]
            y = [t.extract(v, ew - 1, ew - 1) for v in y]
        z0 = lambda f: t.conj([t.eq(f(i, j), const(0, i.w)) for i, j in zip(x, y)])
        zf = z0(t.and_)
        cf = z0(lambda i, j: t.and_(t.not_(i), j))
        r = {'z': zf, 'c': cf, 'nzc': t.and_(t.not_(zf), t.not_(cf))}[m.group(1)]
        return t.zext(r, 32)
    # ---- fp min/max/cmp
    m = re.match(r'(min|max)\.(p[sd]|s[sd])(\.256)?$', nm)
    if m:
        f = x86min if m.group(1) == 'min' else x86max
        if m.group(2)[0] == 's':
            return [m2(f, a[0][0], a[1][0])] + a[0][1:]
        return m2(f, a[0], a[1])
    m = re.match(r'cmp\.(p[sd]|s[sd])(\.256)?$', nm)
    if m:
        pr = CMPP[a[2].p & 15]
        f = lambda x, y: t.sext(t.fcmp(pr, x, y), x.w)
        if m.group(1)[0] == 's':
            return [m2(f, a[0][0], a[1][0])] + a[0][1:]
        return m2(f, a[0], a[1])
    m = re.match(r'u?comi(eq|lt|le|gt|ge|neq)\.s[sd]$', nm)
    if m:
        pr = {'eq': 'oeq', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge', 'neq': 'une'}[m.group(1)]
        return m2(lambda x, y: t.zext(t.fcmp(pr, x, y), 32), a[0][0], a[1][0])
    # ---- rounding
    m = re.match(r'round\.(p[sd]|s[sd])(\.256)?$', nm)
    if m:
        if m.group(1)[0] == 's':
            md = rmode(a[2].p)
            return [m1(lambda x: t.fround(x, md), a[1][0])] + a[0][1:]
        md = rmode(a[1].p)
        return m1(lambda x: t.fround(x, md), a[0])
    # ---- blends
    if re.match(r'(blendv\.p[sd](\.256)?|blendvp[sd]|pblendvb)$', nm):
        return m3(lambda x, y, z: t.ite(t.extract(z, z.w - 1, z.w - 1), y, x), a[0], a[1], a[2])
    # ---- shuffles
    if nm.startswith('pshuf.b'):
        x, y = lanes(ex, a[0], 8), lanes(ex, a[1], 8)
        out = []
        for k in range(0, len(x), 16):
            for i in range(16):
                c = y[k + i]
                v = ex.index(x[k:k + 16], t.extract(c, 3, 0))
                out.append(t.ite(t.extract(c, 7, 7), const(0, 8), v))
        return out
    m = re.match(r'vpermilvar\.(p[sd])(\.256)?$', nm)
    if m:
        g = 4 if m.group(1) == 'ps' else 2
        out = []
        for k in range(0, len(a[0]), g):
            for i in range(g):
                c = a[1][k + i]
                ix = t.extract(c, 1, 0) if g == 4 else t.extract(c, 1, 1)
                out.append(ex.index(a[0][k:k + g], ix))
        return out
    if nm in ('permd', 'permps'):
        return [ex.index(a[0], t.extract(c, 2, 0)) for c in a[1]]
    m = re.match(r'(hadd|hsub|phadd|phsub)\.(p[sd]|[wd])(\.128|\.256)?$', nm)
    if m:
        g = 128 // rw
        fp = m.group(1)[0] == 'h'
        sub = 'sub' in m.group(1)
        f = (lambda x, y: t.fop('sub' if sub else 'add', (x, y), x.w)) if fp else (t.sub if sub else t.add)
        out = []
        for k in range(0, len(a[0]), g):
            for v in (a[0], a[1]):
                for i in range(k, k + g, 2):
                    out.append(m2(f, v[i], v[i + 1]))
        return out
    if nm.startswith('addsub.p'):
        return [m2(lambda x, y: t.fop('add' if i & 1 else 'sub', (x, y), x.w), x, y) for i, (x, y) in enumerate(zip(a[0], a[1]))]
    if nm.startswith('psign.'):
        return m2(lambda x, y: t.ite(t.slt(y, const(0, y.w)), t.neg(x), t.ite(t.eq(y, const(0, y.w)), y, x)), a[0], a[1])
    # ---- memory
    if nm == 'maskmov.dqu':
        x, y, p = lanes(ex, a[0], 8), lanes(ex, a[1], 8), a[2]
        for i in range(16):
            c = t.extract(y[i], 7, 7)
            if c.op == 'const' and not c.p:
                continue
            ex.store_n(st, off(p, i), x[i], 1, c)
        return None
    m = re.match(r'maskload\.(p[sd]|[dq])(\.256)?$', nm)
    if m:
        et = rt[2]
        msk = [t.extract(x, x.w - 1, x.w - 1) for x in lanes(ex, a[1], et[1])]
        return masked_load(ex, st, a[0], msk, [const(0, et[1])] * len(msk), et)
    m = re.match(r'maskstore\.(p[sd]|[dq])(\.256)?$', nm)
    if m:
        et = ex.mod.resolve(ins.a[1][2][0])[2]
        for i, x in enumerate(lanes(ex, a[1], et[1])):
            c = t.extract(x, x.w - 1, x.w - 1)
            if c.op == 'const' and not c.p:
                continue
            ex.store(st, off(a[0], i * et[1] // 8), a[2][i], et, c)
        return None
    m = re.match(r'gather\.([dq])\.(p[sd]|[dq])(\.256)?$', nm)
    if m:
        src, base, idx, msk, sc = a
        et = rt[2]
        n_ = min(len(src), len(idx))
        out = []
        pc = st.pc
        for i in range(len(src)):
            if i >= n_:
                out.append(const(0, et[1]))
                continue
            c = t.extract(msk[i], et[1] - 1, et[1] - 1)
            if c.op == 'const' and not c.p:
                out.append(src[i])
                continue
            ix = t.mul(t.sext(idx[i], 64), const(sc.p, 64))
            from .symex import Ptr
            p = Ptr([(g, o, t.add(f, ix)) for g, o, f in base.alts])
            st.pc = t.and_(pc, c)
            v = ex.load(st, p, et)
            st.pc = pc
            out.append(ex.merge(c, v, src[i]))
        return out
    if nm.startswith('ldu.dq'):
        return ex.load(st, a[0], rt)
    if nm in ('vzeroupper', 'vzeroall', 'mfence', 'sfence', 'lfence', 'pause'):
        return None
    m = re.match(r'vf(n?)m(add|sub)\.', nm)
    if m:
        U(ex, 'fma intrinsic ' + n)
    m = re.match(r'(rcp|rsqrt)\.p[sd](\.256)?$', nm)
    if m:
        return m1(lambda x: t.fop('x86:' + m.group(1), (x,), x.w), a[0])
    m = re.match(r'(dp)p?[sd](\.256)?$', nm)
    U(ex, 'x86 intrinsic ' + n)


def vshift(op, x, cnt):
    """x86 vector shift: counts >= width saturate; cnt is an unsigned term"""
    w = x.w
    big = t.ule(const(w, cnt.w), cnt)
    if cnt.w >= w:
        c = t.trunc(cnt, w)
    else:
        c = t.zext(cnt, w)
    if op == 'sra':
        c2 = t.ite(big, const(w - 1, w), c)
        return t.ashr(x, c2)
    f = t.shl if op == 'sll' else t.lshr
    return t.ite(big, const(0, w), f(x, c))


LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2', 'expm1',
         'log', 'log2', 'log10', 'log1p', 'cbrt', 'erf', 'erfc', 'tgamma', 'lgamma', 'logb'}
LIBM2 = {'pow', 'atan2', 'hypot', 'fmod', 'remainder', 'fdim', 'nextafter'}


def libm(ex, st, name, a, ins):
    b = name
    w = None
    rt = ex.mod.resolve(ins.ty) if ins.ty else ('void',)
    if rt[0] == 'f':
        w = rt[1]
    if b.endswith('f') and b[:-1] in LIBM1 | LIBM2 | {'fdim', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'sqrt', 'fma', 'fmin', 'fmax',
                                                      'fabs', 'copysign', 'scalbn', 'scalbln', 'ldexp', 'ilogb', 'frexp', 'modf',
                                                      'lrint', 'llrint', 'lround', 'llround', 'nexttoward', 'remquo'}:
        b = b[:-1]
    if b in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round'):
        return t.fround(a[0], 'rint' if b == 'nearbyint' else b)
    if b == 'sqrt':
        return t.fop('sqrt', (a[0],), w)
    if b == 'fma':
        return t.fop('fma', tuple(a), w)
    if b == 'fabs':
        return t.fabs_(a[0])
    if b == 'copysign':
        return gen(ex, st, 'copysign', a, ins)
    if b == 'fmin':
        return minnum(a[0], a[1])
    if b == 'fmax':
        return maxnum(a[0], a[1])
    if b == 'fdim':
        return t.ite(t.or_(t.flt(a[0], a[1]), t.feq(a[0], a[1])), const(0, w), t.fop('sub', (a[0], a[1]), w))
    if b in ('ldexp', 'scalbn', 'scalbln'):
        from .spec import scalbn
        return scalbn(a[0], t.sext(a[1], 64) if a[1].w < 64 else a[1])
    if b == 'nextafter':
        from .spec import nextafter
        return nextafter(a[0], a[1])
    if b in ('lrint', 'llrint'):
        return cvt_rint(a[0], 64)
    if b in ('lround', 'llround'):
        return t.cvtt(t.fround(a[0], 'round'), 64)
    if b == 'ilogb':
        from .spec import ilogb
        return ilogb(a[0], 32)
    if b == 'logb':
        from .spec import logb
        return logb(a[0])
    if b == 'frexp':
        from .spec import frexp
        y, e = frexp(a[0], 32)
        ex.store_n(st, a[1], e, 4)
        return y
    if b == 'modf':
        from .spec import modf
        fr, ip = modf(a[0])
        ex.store_n(st, a[1], ip, w // 8)
        return fr
    if name in ('sincos', 'sincosf'):
        ex.store_n(st, a[1], t.fop('libm:sin', (a[0],), a[0].w), a[0].w // 8)
        ex.store_n(st, a[2], t.fop('libm:cos', (a[0],), a[0].w), a[0].w // 8)
        return const(0, 8)
    if b == 'remquo':
        ex.store_n(st, a[2], t.fop('libm:remquo', (a[0], a[1]), 32, 'int'), 4)
        return t.fop('libm:remainder', (a[0], a[1]), w)
    if b in LIBM1 and b != 'logb':
        return t.fop('libm:' + b, (a[0],), w)
    if b in LIBM2:
        return t.fop('libm:' + b, (a[0], a[1]), w)
    return NotImplemented


def call(ex, st, name, vals, ins):
    if name.startswith('@llvm.'):
        return gen(ex, st, name[6:], vals, ins)
    nm = name[1:]
    if nm in ('memcpy', 'memmove', 'memset'):
        gen(ex, st, nm, vals, ins)
        return vals[0]
    if nm in ('bcmp', 'memcmp') and vals[2].op == 'const' and vals[2].p <= 64 and nm == 'bcmp':
        n = vals[2].p
        eq = t.conj([t.eq(ex.load_n(st, off(vals[0], i), 1), ex.load_n(st, off(vals[1], i), 1)) for i in range(n)]) if n else t.TRUE()
        return t.ite(eq, const(0, 32), t.const(1, 32))
    if nm in ('abort', '_ZSt9terminatev', '__assert_fail', '__cxa_pure_virtual', '_ZSt16__throw_bad_castv') or 'assert_err' in nm or 'assert_trap' in nm:
        return trap(ex, st)
    if nm in ('__errno_location', 'feraiseexcept'):
        if nm == 'feraiseexcept':
            return const(0, 32)
    r = NotImplemented
    if not any(ispo(v) for v in vals):
        r = libm(ex, st, nm, vals, ins)
    elif ins.ty:
        from .symex import Poison
        vals2 = []
        for (at, _), v in zip(ins.a[1], vals):
            vals2.append(ex.undef(at[1]) if ispo(v) and at[0] in 'if' else v)
        r = libm(ex, st, nm, vals2, ins)
    if r is NotImplemented:
        U(ex, 'external function ' + name)
    return r


def asm(ex, st, ins):
    tmpl, cons = ins.a[0][1], ins.a[0][2]
    args = ins.a[1]
    m = re.search(r'%+([xy]mm1)', tmpl)
    if m and 'mova' in tmpl:
        reg = 'mm1'
        if re.search(r'%+[xy]mm1\s*,', tmpl):
            # read pseudo register
            ent = st.asm.get(reg)
            if cons.startswith('"=*'):
                # indirect output
                p = ex.val(st, args[0][1], ir.PTR)
                n = 32 if m.group(1)[0] == 'y' else 16
                v = ent if ent is not None else ex.undef(8 * n, 'reg')
                v = t.trunc(v, 8 * n) if v.w >= 8 * n else t.concat(ex.undef(8 * n - v.w, 'reg'), v)
                for i in range(n):
                    ex.store_n(st, off(p, i), t.extract(v, 8 * i + 7, 8 * i), 1)
                return st
            ty = ex.mod.resolve(ins.ty)
            tot = ex.mod.size(ty) * 8
            v = ent if ent is not None else ex.undef(tot, 'reg')
            if v.w < tot:
                v = t.concat(ex.undef(tot - v.w, 'reg'), v)
            v = t.trunc(v, tot)
            ew = ty[2][1]
            st.env[ins.dst] = split(v, ew)
            return st
        ty = ex.mod.resolve(args[0][0])
        v = ex.val(st, args[0][1], ty)
        st.asm[reg] = rev_concat(lanes(ex, v, ty[2][1]))
        return st
    h = getattr(ex, 'asm_hook', None)
    if h:
        return h(ex, st, ins)
    U(ex, 'inline asm ' + tmpl)
