"""Shared helpers for property modules."""
from engine import term as t
from engine.term import const
from engine.harness import *
from engine import spec as S


def n128(T):
    return 16 // size(T)


def abis(T, isa, tier='quick', multi=True, packed=True, scalar=False, full256=True):
    """representative widths: one full 128-bit register, a partial one, (AVX) a full 256-bit one,
    a multi-register one with a partial tail, and the generic implementation"""
    n = n128(T)
    r = [Abi(n)]
    if n > 2:
        r.append(Abi(3))
    if multi:
        r.append(Abi(2 * n + 1) if n < 16 else Abi(35))
    if HAS_AVX[isa] and full256:
        r.append(Abi(2 * n))
    if packed:
        r.append(Abi(3, -1))
    if scalar:
        r.append(Abi(1, 'scalar'))
    if tier == 'thorough':
        r.append(Abi(2))
        if n > 4:
            r.append(Abi(n - 1))
            r.append(Abi(n // 2 + 1))
        r.append(Abi(2 * n - 1))
        r.append(Abi(4 * n))
        r.append(Abi(2 * n, 32))
        r.append(Abi(n, 16))
        r.append(Abi(5, -1))
        r.append(Abi(1, 'scalar'))
    seen, out = set(), []
    for a in r:
        k = (a.N, a.A)
        if k not in seen:
            seen.add(k)
            out.append(a)
    return out


def allw(T, isa, tier='quick', last=None):
    """every width up to one register (AVX: one 256-bit register), and the multi-register widths with every tail;
    in the quick tier the signed and unsigned types of a size take turns"""
    n = n128(T)
    top = 2 * n if HAS_AVX[isa] or tier == 'thorough' or n <= 4 else n + 3
    r = [Abi(k) for k in range(2, top + 1)]
    if n <= 4:
        r += [Abi(k) for k in range(n + 1, (last or (4 if tier == 'quick' else 6)) * n + 1)]
    if tier == 'quick':
        r = [a for a in r if isf(T) or (a.N + issigned(T)) % 2]
    return r


def merge(*ls):
    seen, out = set(), []
    for a in [a for l in ls for a in l]:
        if (a.N, a.A) not in seen:
            seen.add((a.N, a.A))
            out.append(a)
    return out


def isas(tier):
    return list(ISAS)


def same(T, x, y):
    return t.fsame(x, y) if isf(T) else t.eq(x, y)


def minint(w):
    return const(1 << (w - 1), w)


def lanes_eq(c, T, exp, out='r'):
    r = c.out(out)
    assert len(r) == len(exp), (len(r), len(exp))
    for i, (x, y) in enumerate(zip(r, exp)):
        yield '%s[%d]' % (out, i), same(T, x, y)


def mask_eq(c, exp, out='r'):
    r = c.obits(out)
    assert len(r) == len(exp), (len(r), len(exp))
    for i, ((b, wf), e) in enumerate(zip(r, exp)):
        yield '%s[%d]' % (out, i), t.eq(b, e)
        yield '%s[%d] well-formed' % (out, i), wf


def bool_eq(c, exp, out='r'):
    r = c.out(out)[0]
    yield out, t.eq(r, t.zext(exp, 8))


def fconst(v, w):
    from engine import fpc
    return const(fpc.from_frac(fpc.Fraction(v), w), w)


def cmp_op(T, op, a, b):
    if isf(T):
        return t.fcmp({'==': 'oeq', '!=': 'une', '<': 'olt', '<=': 'ole', '>': 'ogt', '>=': 'oge'}[op], a, b)
    if op == '==':
        return t.eq(a, b)
    if op == '!=':
        return t.ne(a, b)
    s = issigned(T)
    return {'<': t.slt if s else t.ult, '<=': t.sle if s else t.ule, '>': t.sgt if s else t.ugt, '>=': t.sge if s else t.uge}[op](a, b)


def convert(To, From, x):
    """static_cast<To>(x) for in-range values"""
    wt = 8 * size(To)
    if To == From:
        return x
    if isf(From):
        if isf(To):
            return t.fop('fpext' if wt > x.w else 'fptrunc', (x,), wt)
        return t.f2i(x, wt, issigned(To))
    if isf(To):
        if issigned(From):
            return t.fop('sitofp', (x if x.w >= 32 else t.sext(x, 32),), wt)
        if x.w < 32:
            return t.fop('sitofp', (t.zext(x, 32),), wt)
        return t.fop('uitofp', (x,), wt)
    if wt <= x.w:
        return t.trunc(x, wt)
    return t.sext(x, wt) if issigned(From) else t.zext(x, wt)


def conv_ok(To, From, x):
    """conversion of x has defined behaviour"""
    if isf(From) and not isf(To):
        return t.f2i_inrange(x, 8 * size(To), issigned(To))
    return t.TRUE()
OPTS = {'timeout': 6, 'fp_timeout': 6, 'bank': 20}
