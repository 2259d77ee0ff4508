"""P11 min, max, minmax, clamp, fmin, fmax, fdim"""
from .common import *

ID = 'P11'
BOUNDS = 'every lane value of every element type; the instantiated widths; floating-point min/max/clamp on operands that are not NaN, zeros compared by value'
OUTSIDE = 'fdim of two infinities of the same sign; other widths and ABIs'



def ismin(T, r, x, y, mx=False):
    op = '>=' if mx else '<='
    one = t.or_(eqv(T, r, x), eqv(T, r, y))
    return t.and_(one, t.and_(cmp_op(T, op, r, x), cmp_op(T, op, r, y)))


def eqv(T, x, y):
    return t.feq(x, y) if isf(T) else t.eq(x, y)


def nonan(T, L):
    return [t.not_(t.isnan(x)) for x in L] if isf(T) else []


def fm(r, x, y, mx):
    """fmin/fmax: a NaN operand is missing data"""
    nx, ny = t.isnan(x), t.isnan(y)
    return t.ite(nx, t.ite(ny, t.isnan(r), t.feq(r, y)), t.ite(ny, t.feq(r, x), ismin("f32", r, x, y, mx)))


def fdim(r, x, y):
    d = t.fop('sub', (x, y), x.w)
    z = const(0, x.w)
    return t.ite(t.unord(x, y), t.isnan(r), t.ite(t.flt(y, x), t.eq(r, d), t.iszero(r)))




def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            for ab in abis(T, isa, tier):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)

                def pre(c, T=T):
                    return nonan(T, [x for n in ('a', 'b', 's') if n in c.init for x in c.lanes(n)])
                p = pre if isf(T) else None
                for nm, mx in (('min', False), ('max', True)):
                    def sp(c, T=T, mx=mx):
                        for i, (r, x, y) in enumerate(zip(c.out('r'), c.lanes('a'), c.lanes('b') if 'b' in c.init else c.lanes('s') * len(c.lanes('a')))):
                            yield 'r[%d]' % i, ismin(T, r, x, y, mx)
                    yield H('P11.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = dpm::%s(a, b);' % nm, sp, pre=p)
                    yield H('P11.%s_scalar.%s' % (nm, tag), isa, [V('a', T, ab), A('s', T, 1), V('r', T, ab, 'o')], 'r = dpm::%s(a, s);' % nm, sp, pre=p)

                def spmm(c, T=T):
                    ys = c.lanes('b') if 'b' in c.init else c.lanes('s') * len(c.lanes('a'))
                    for i, (r, q, x, y) in enumerate(zip(c.out('r'), c.out('q'), c.lanes('a'), ys)):
                        yield 'min[%d]' % i, ismin(T, r, x, y, False)
                        yield 'max[%d]' % i, ismin(T, q, x, y, True)
                yield H('P11.minmax.' + tag, isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o'), V('q', T, ab, 'o')],
                        'auto z = dpm::minmax(a, b); r = z.first; q = z.second;', spmm, pre=p)
                yield H('P11.minmax_scalar.' + tag, isa, [V('a', T, ab), A('s', T, 1), V('r', T, ab, 'o'), V('q', T, ab, 'o')],
                        'auto z = dpm::minmax(a, s); r = z.first; q = z.second;', spmm, pre=p)

                def prec(c, T=T):
                    lo, hi = (c.lanes('lo'), c.lanes('hi'))
                    return nonan(T, c.lanes('a') + lo + hi) + [cmp_op(T, '<=', x, y) for x, y in zip(lo, hi)]

                def spc(c, T=T):
                    n = len(c.lanes('a'))
                    lo, hi = (c.lanes('lo') * n)[:n], (c.lanes('hi') * n)[:n]
                    for i, (r, x, l, h) in enumerate(zip(c.out('r'), c.lanes('a'), lo, hi)):
                        yield 'r[%d]' % i, t.ite(cmp_op(T, '<', x, l), eqv(T, r, l), t.ite(cmp_op(T, '<', h, x), eqv(T, r, h), eqv(T, r, x)))
                yield H('P11.clamp.' + tag, isa, [V('a', T, ab), V('lo', T, ab), V('hi', T, ab), V('r', T, ab, 'o')], 'r = dpm::clamp(a, lo, hi);', spc, pre=prec)
                yield H('P11.clamp_scalar.' + tag, isa, [V('a', T, ab), A('lo', T, 1), A('hi', T, 1), V('r', T, ab, 'o')], 'r = dpm::clamp(a, lo, hi);', spc, pre=prec)
                if not isf(T):
                    continue

                def infs(c):
                    ys = c.lanes('b') if 'b' in c.init else c.lanes('s') * len(c.lanes('a'))
                    return [t.not_(t.and_(t.isinf(x), t.eq(x, y))) for x, y in zip(c.lanes('a'), ys)]
                for nm in ('fmin', 'fmax', 'fdim'):
                    def spf(c, nm=nm, ints=False):
                        ys = c.lanes('b') if 'b' in c.init else c.lanes('s') * len(c.lanes('a'))
                        for i, (r, x, y) in enumerate(zip(c.out('r'), c.lanes('a'), ys)):
                            if x.w < r.w:
                                x = t.fop('fpext', (x,), r.w)
                            if y.w == 32 and ints:
                                y = t.fop('sitofp', (y,), r.w)
                            elif y.w < r.w:
                                y = t.fop('fpext', (y,), r.w)
                            yield 'r[%d]' % i, fdim(r, x, y) if nm == 'fdim' else fm(r, x, y, nm == 'fmax')
                    pr = infs if nm == 'fdim' else None
                    yield H('P11.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = dpm::%s(a, b);' % nm, spf, pre=pr)
                    yield H('P11.%s_scalar.%s' % (nm, tag), isa, [V('a', T, ab), A('s', T, 1), V('r', T, ab, 'o')], 'r = dpm::%s(a, s);' % nm, spf, pre=pr)
                    if T == 'f32' and ab.N in (3, 4):
                        def spi(c, spf=spf):
                            return spf(c, ints=True)
                        yield H('P11.%s_int.%s' % (nm, tag), isa, [V('a', T, ab), V('b', 'i32', ab), A('r', 'f64', ab.N, 'o')],
                                'auto z = dpm::%s(a, b); z.copy_to(r, element_aligned);' % nm, spi)
                        yield H('P11.%s_scalar_int.%s' % (nm, tag), isa, [V('a', T, ab), A('s', 'i32', 1), A('r', 'f64', ab.N, 'o')],
                                'auto z = dpm::%s(a, s); z.copy_to(r, element_aligned);' % nm, spi)
                    U = 'f64' if T == 'f32' else 'f32'
                    if True:
                        yield H('P11.%s_mixed.%s' % (nm, tag), isa, [V('a', T, ab), V('b', U, ab), A('r', 'f64', ab.N, 'o')],
                                'auto z = dpm::%s(a, b); z.copy_to(%sr, element_aligned);' % (nm, '&' if ab.N == 1 else ''), spf,
                                pre=None if nm != 'fdim' else (lambda c: [t.not_(t.and_(t.isinf(x), t.isinf(y))) for x, y in zip(c.lanes('a'), c.lanes('b'))]))
                        yield H('P11.%s_scalar_mixed.%s' % (nm, tag), isa, [V('a', T, ab), A('s', U, 1), A('r', 'f64', ab.N, 'o')],
                                'auto z = dpm::%s(a, s); z.copy_to(%sr, element_aligned);' % (nm, '&' if ab.N == 1 else ''), spf,
                                pre=None if nm != 'fdim' else (lambda c: [t.not_(t.and_(t.isinf(x), t.isinf(y))) for x, y in zip(c.lanes('a'), c.lanes('s') * len(c.lanes('a')))]))
