"""P10 horizontal reductions: every lane takes part exactly once"""
from .common import *

ID = 'P10'
CHUNK = 20


def fold(f, L):
    r = L[0]
    for x in L[1:]:
        r = f(r, x)
    return r


def pick(p, L):
    r = L[0]
    for i in range(1, len(L)):
        r = t.ite(t.eq(p, const(i, 8)), L[i], r)
    return r


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            w = 8 * size(T)
            for ab in merge(abis(T, isa, tier), allw(T, isa, tier, 2 if tier == 'quick' else 4)):
                N = ab.N
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                R = A('r', T, 1, 'o')
                cT = cpp(T)
                if not isf(T):
                    ops = [('hadd', t.add, 'hadd(a)'), ('hand', t.and_, 'hand(a)'), ('hxor', t.xor_, 'hxor(a)'), ('hor', t.or_, 'hor(a)'),
                           ('reduce', t.add, 'reduce(a)'), ('reduce_or', t.or_, 'reduce(a, std::bit_or<>{})'), ('reduce_and', t.and_, 'reduce(a, std::bit_and<%s>{})' % cT),
                           ('reduce_fn', t.xor_, 'reduce(a, [](%s x, %s y) -> %s { return static_cast<%s>(x ^ y); })' % (cT, cT, cT, cT)),
                           ('reduce_vfn', t.xor_, 'reduce(a, [](auto x, auto y) { return x ^ y; })')]
                    for nm, f, e in ops:
                        def sp(c, f=f):
                            yield 'r', t.eq(c.out('r')[0], fold(f, c.lanes('a')))
                        yield H('P10.%s.%s' % (nm, tag), isa, [V('a', T, ab), R], 'r = dpm::%s;' % e, sp)
                    for nm, e in (('hmul', 'hmul(a)'), ('reduce_mul', 'reduce(a, std::multiplies<>{})')):
                        def spf(c):
                            yield 'r', t.eq(c.out('r')[0], fold(t.mul, c.lanes('a')))
                        yield H('P10.%s.%s' % (nm, tag), isa, [V('a', T, ab), R], 'r = dpm::%s;' % e, spf)
                else:
                    # floating point: exact sums of small integers are the same in every order
                    k = 'i8' if N > 9 else 'i16' if T == 'f32' else 'i32'

                    def spa(c, w=w):
                        ks = [t.sext(x, 64) for x in c.lanes('k')]
                        yield 'r', t.eq(c.out('r')[0], t.fop('sitofp', (fold(t.add, ks),), w))
                    for nm, e in (('hadd', 'hadd(a)'), ('reduce', 'reduce(a)'), ('reduce_fn', 'reduce(a, [](%s x, %s y) { return x + y; })' % (cT, cT)),
                                  ('reduce_vfn', 'reduce(a, [](auto x, auto y) { return x + y; })')):
                        yield H('P10.%s.%s' % (nm, tag), isa, [A('k', k, N), R],
                                '%s a; for (int i = 0; i < %d; ++i) a[i] = static_cast<%s>(k[i]); r = dpm::%s;' % (V('a', T, ab).ctype(), N, cT, e), spa)

                    def prf(c):
                        p = c.lanes('p')[0]
                        a = c.lanes('a')
                        yield t.ult(p, const(len(a), 8))
                        for i, x in enumerate(a):
                            yield t.or_(t.eq(p, const(i, 8)), t.eq(x, fconst(1, x.w)))

                    def spf2(c, T=T):
                        a = c.lanes('a')
                        yield 'r', same(T, c.out('r')[0], pick(c.lanes('p')[0], a))
                    for nm, e in (('hmul', 'hmul(a)'), ('reduce_mul', 'reduce(a, std::multiplies<>{})')):
                        yield H('P10.%s.%s' % (nm, tag), isa, [V('a', T, ab), A('p', 'u8', 1), R], 'r = dpm::%s;' % e, spf2, pre=prf)
                wide = N > n128(T) and isa not in ('sse2', 'avx2') and not HAS_AVX[isa]
                for nm, less in (('reduce_min', True), ('reduce_max', False)) if not wide or tier != 'quick' else ():
                    def spx(c, less=less, T=T):
                        a, r = c.lanes('a'), c.out('r')[0]
                        if isf(T):
                            le = (lambda x, y: t.fle(x, y)) if less else (lambda x, y: t.fle(y, x))
                            eqv = t.feq
                        else:
                            s = issigned(T)
                            f = t.sle if s else t.ule
                            le = f if less else (lambda x, y: f(y, x))
                            eqv = t.eq
                        for i, x in enumerate(a):
                            yield 'r bounds a[%d]' % i, le(r, x)
                        # every bound of all lanes bounds the result, so the result is the extreme lane
                        m = t.var('bound', r.w)
                        ok = [le(m, x) for x in a] + ([t.not_(t.isnan(m))] if isf(T) else [])
                        yield 'r is attained', t.implies(t.conj(ok), le(m, r))

                    def prx(c):
                        return [t.not_(t.isnan(x)) for x in c.lanes('a')]
                    yield H('P10.%s.%s' % (nm, tag), isa, [V('a', T, ab), R], 'r = dpm::%s(a);' % nm, spx, pre=prx if isf(T) else None)
