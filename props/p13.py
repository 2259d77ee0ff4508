"""P13 rounding"""
from .common import *

ID = 'P13'
LEMMAS = True
BOUNDS = 'every lane value (conversions to integers: rounded values that fit the integer type); default rounding mode; the instantiated widths'
OUTSIDE = 'other rounding modes, floating-point exception flags, out-of-range conversions to integers'
MODE = {'ceil': 'ceil', 'floor': 'floor', 'trunc': 'trunc', 'round': 'round', 'rint': 'rint', 'nearbyint': 'rint'}


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            for ab in abis(T, isa, tier):
                N = ab.N
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                for nm, md in MODE.items():
                    def sp(c, T=T, md=md):
                        return lanes_eq(c, T, [t.fround(x, md) for x in c.lanes('a')])
                    yield H('P13.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::%s(a);' % nm, sp)
                fns = [('lround', 'round', 'i64', 'dpm::lround(a)'), ('llround', 'round', 'i64', 'dpm::llround(a)'),
                       ('lrint', 'rint', 'i64', 'dpm::lrint(a)'), ('llrint', 'rint', 'i64', 'dpm::llrint(a)'),
                       ('ltrunc', 'trunc', 'i64', 'ext::ltrunc(a)'), ('lltrunc', 'trunc', 'i64', 'ext::lltrunc(a)')]
                for I in SINTS:
                    if tier == 'quick' and I == 'i8':
                        continue
                    for f, md in (('iround', 'round'), ('irint', 'rint'), ('itrunc', 'trunc')):
                        fns.append((f + '_' + I, md, I, 'ext::%s<%s>(a)' % (f, cpp(I))))
                for nm, md, I, ex in fns:
                    def pre(c, md=md, I=I):
                        return [t.f2i_inrange(x if md == 'trunc' else t.fround(x, md), 8 * size(I), True) for x in c.lanes('a')]

                    def sp2(c, md=md, I=I):
                        return lanes_eq(c, I, [t.f2i(x if md == 'trunc' else t.fround(x, md), 8 * size(I), True) for x in c.lanes('a')])
                    yield H('P13.%s.%s' % (nm, tag), isa, [V('a', T, ab), A('r', I, N, 'o')],
                            'auto z = %s; z.copy_to(%sr, element_aligned);' % (ex, '&' if N == 1 else ''), sp2, pre=pre)
