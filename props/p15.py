"""P15 exponent manipulation: frexp, ldexp, scalbn, scalbln, modf, ilogb, logb"""
from .common import *
from engine import spec as S

LEMMAS = 'scaling'
ID = 'P15'
BOUNDS = 'every bit pattern of every lane, every exponent of type int or long; the instantiated widths'
OUTSIDE = 'the exponent frexp stores for infinities and NaN; floating-point exception flags and errno; other widths and ABIs'
DEPS = ['dpm/detail/x86/%s.cpp' % f for f in ('frexp', 'scalbn', 'modf', 'logb')] + ['dpm/detail/fconst.cpp']


def D(*n):
    return ['dpm/detail/x86/%s.cpp' % x for x in n]


def k(x, w=64):
    return t.sext(x, w) if x.w < w else x


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            for ab in abis(T, isa, tier):
                N = ab.N
                tag = '%s.%s.%s' % (T, ab.tag(), isa)

                def sf(c, T=T):
                    for i, (x, r, e) in enumerate(zip(c.lanes('a'), c.out('r'), c.out('e'))):
                        y, ex = S.frexp(x, 32)
                        yield 'frac[%d]' % i, same(T, r, y)
                        yield 'exp[%d]' % i, t.or_(t.not_(t.isfinite(x)), t.eq(e, ex))
                yield H('P15.frexp.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o'), V('e', 'i32', ab, 'o')], 'r = dpm::frexp(a, &e);', sf,
                        deps=D('frexp'))

                def sm(c, T=T):
                    for i, (x, r, q) in enumerate(zip(c.lanes('a'), c.out('r'), c.out('q'))):
                        f, ip = S.modf(x)
                        yield 'frac[%d]' % i, same(T, r, f)
                        yield 'int[%d]' % i, same(T, q, ip)
                yield H('P15.modf.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o'), V('q', T, ab, 'o')], 'r = dpm::modf(a, &q);', sm, deps=D('modf'))

                def si(c):
                    return lanes_eq(c, 'i32', [S.ilogb(x, 32) for x in c.lanes('a')])
                yield H('P15.ilogb.' + tag, isa, [V('a', T, ab), V('r', 'i32', ab, 'o')], 'r = dpm::ilogb(a);', si, deps=D('logb'))

                def sl(c, T=T):
                    return lanes_eq(c, T, [S.logb(x) for x in c.lanes('a')])
                yield H('P15.logb.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::logb(a);', sl, deps=D('logb'), timeout=60, fp_timeout=90)

                for nm, K in (('scalbn', 'i32'), ('ldexp', 'i32'), ('scalbln', 'i64')):
                    def ss(c, T=T):
                        ks = c.lanes('n') if 'n' in c.init else c.lanes('s') * len(c.lanes('a'))
                        return lanes_eq(c, T, [S.scalbn(x, k(n)) for x, n in zip(c.lanes('a'), ks)])
                    yield H('P15.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('n', K, ab), V('r', T, ab, 'o')], 'r = dpm::%s(a, n);' % nm, ss,
                            deps=D('scalbn'), timeout=40 if T == 'f32' else 90)
                    yield H('P15.%s_scalar.%s' % (nm, tag), isa, [V('a', T, ab), A('s', K, 1), V('r', T, ab, 'o')], 'r = dpm::%s(a, s);' % nm, ss,
                            deps=D('scalbn'), timeout=40 if T == 'f32' else 90)
