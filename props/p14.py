"""P14 floating-point classification and quiet comparisons"""
from .common import *

ID = 'P14'
BOUNDS = 'every bit pattern of every lane; the instantiated widths'
OUTSIDE = 'floating-point exception flags; other widths and ABIs'


def normal(x):
    return t.and_(t.isfinite(x), t.not_(t.or_(t.iszero(x), t.issub(x))))


def fpclass(x):
    k = lambda v: const(v, 32)
    return t.ite(t.isnan(x), k(0), t.ite(t.isinf(x), k(1), t.ite(t.iszero(x), k(2), t.ite(t.issub(x), k(3), k(4)))))


UN = {'isnan': t.isnan, 'isinf': t.isinf, 'isfinite': t.isfinite, 'isnormal': normal, 'signbit': t.fsign}
BIN = {'isgreater': lambda a, b: t.flt(b, a), 'isgreaterequal': lambda a, b: t.fle(b, a), 'isless': t.flt, 'islessequal': t.fle,
       'islessgreater': lambda a, b: t.or_(t.flt(a, b), t.flt(b, a)), 'isunordered': t.unord}


def bools(c, exp):
    return ((('r[%d]' % i), t.eq(x, t.zext(e, 8))) for i, (x, e) in enumerate(zip(c.out('r'), exp)))


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            for ab in abis(T, isa, tier):
                N = ab.N
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                for nm, f in UN.items():
                    def sp(c, f=f):
                        return mask_eq(c, [f(x) for x in c.lanes('a')])
                    yield H('P14.%s.%s' % (nm, tag), isa, [V('a', T, ab), M('r', T, ab, 'o')], 'r = dpm::%s(a);' % nm, sp)

                def sc(c):
                    return lanes_eq(c, 'i32', [fpclass(x) for x in c.lanes('a')])
                yield H('P14.fpclassify.' + tag, isa, [V('a', T, ab), A('r', 'i32', N, 'o')],
                        'auto z = dpm::fpclassify(a); z.copy_to(%sr, element_aligned);' % ('&' if N == 1 else ''), sc)
                for nm, f in BIN.items():
                    def sb(c, f=f):
                        return mask_eq(c, [f(x, y) for x, y in zip(c.lanes('a'), c.lanes('b'))])
                    yield H('P14.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('b', T, ab), M('r', T, ab, 'o')], 'r = dpm::%s(a, b);' % nm, sb)
                    if T == 'f32':
                        def sm(c, f=f):
                            return bools(c, [f(t.fop('fpext', (x,), 64), y) for x, y in zip(c.lanes('a'), c.lanes('b'))])
                        yield H('P14.%s_mixed.%s' % (nm, tag), isa, [V('a', T, ab), V('b', 'f64', ab), B('r', N, 'o')],
                                'auto z = dpm::%s(a, b); z.copy_to(%sr, element_aligned);' % (nm, '&' if N == 1 else ''), sm)
        # integers are promoted to double
        for T in ('i32', 'u64'):
            for ab in [Abi(n128(T)), Abi(3, -1)]:
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                for nm, f in UN.items():
                    def si(c, f=f, T=T):
                        return bools(c, [f(convert('f64', T, x)) for x in c.lanes('a')])
                    yield H('P14.%s_int.%s' % (nm, tag), isa, [V('a', T, ab), B('r', ab.N, 'o')], 'auto z = dpm::%s(a); z.copy_to(r, element_aligned);' % nm, si)
