"""P02 copy_from / copy_to, plain and masked: exactly the first size() elements, exactly the selected ones"""
from .common import *

ID = 'P02'
PAIRS = {'f32': ('i32', 'u32', 'f64', 'i16'), 'f64': ('f32', 'i32', 'u64', 'i64'), 'i8': ('i32',), 'u8': ('u32', 'i16'), 'i16': ('i8', 'i64'), 'u16': ('u8',),
         'i32': ('f32', 'i16', 'i64'), 'u32': ('u8', 'f64', 'f32'), 'i64': ('i32', 'f64'), 'u64': ('u32', 'f64')}


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            rep = abis(T, isa, tier)
            for ab in merge(rep, allw(T, isa, tier, 2 if tier == 'quick' else 4)):
                N = ab.N
                few = tier == 'quick' and ab.N not in [a.N for a in rep]
                for U in (T,) + PAIRS[T]:
                    if U != T and tier == 'quick' and (N > 16 or few):
                        continue
                    tag = '%s_%s.%s.%s' % (T, U, ab.tag(), isa)
                    flags = (('e', 'element_aligned', None),) if few else (('e', 'element_aligned', None), ('v', 'vector_aligned', 64)) if tier != 'quick' or U == T or isa in ('sse2', 'avx2') else (('v', 'vector_aligned', 64),)
                    for fn, fl, al in flags:
                        def pre(c, T=T, U=U):
                            return [conv_ok(T, U, x) for x in c.lanes('p')]

                        def ld(c, T=T, U=U):
                            return lanes_eq(c, T, [convert(T, U, x) for x in c.lanes('p')])
                        kw = dict(align=al) if al else {}
                        nt = isf(U) and not isf(T)
                        yield H('P02.load_%s.%s' % (fn, tag), isa, [A('p', U, N, **kw), V('r', T, ab, 'o')], 'r.copy_from(p, %s);' % fl, ld, pre=pre if nt else None)

                        if U == T or not few:
                            yield H('P02.ctor_%s.%s' % (fn, tag), isa, [A('p', U, N, **kw), V('r', T, ab, 'o')], 'r = std::remove_cvref_t<decltype(r)>(p, %s);' % fl, ld, pre=pre if nt else None)

                        def prem(c, T=T, U=U):
                            return [t.or_(t.not_(m), conv_ok(T, U, x)) for m, x in zip(c.bits('m'), c.lanes('p'))]

                        def ldm(c, T=T, U=U):
                            return lanes_eq(c, T, [t.ite(m, convert(T, U, x), a) for m, x, a in zip(c.bits('m'), c.lanes('p'), c.lanes('a'))], 'a')
                        yield H('P02.mload_%s.%s' % (fn, tag), isa, [A('p', U, N, **kw), M('m', T, ab), V('a', T, ab, 'io')], 'a.copy_from(p, m, %s);' % fl,
                                ldm, pre=prem if nt else None)

                        nt2 = isf(T) and not isf(U)

                        def pres(c, T=T, U=U):
                            return [conv_ok(U, T, x) for x in c.lanes('a')]

                        def st(c, T=T, U=U):
                            return lanes_eq(c, U, [convert(U, T, x) for x in c.lanes('a')], 'p')
                        yield H('P02.store_%s.%s' % (fn, tag), isa, [V('a', T, ab), A('p', U, N, 'o', **kw)], 'a.copy_to(p, %s);' % fl, st, pre=pres if nt2 else None)

                        def presm(c, T=T, U=U):
                            return [t.or_(t.not_(m), conv_ok(U, T, x)) for m, x in zip(c.bits('m'), c.lanes('a'))]

                        def stm(c, T=T, U=U):
                            return lanes_eq(c, U, [t.ite(m, convert(U, T, a), x) for m, x, a in zip(c.bits('m'), c.lanes('p'), c.lanes('a'))], 'p')
                        yield H('P02.mstore_%s.%s' % (fn, tag), isa, [V('a', T, ab), M('m', T, ab), A('p', U, N, 'io', **kw)], 'a.copy_to(p, m, %s);' % fl,
                                stm, pre=presm if nt2 else None)
                    # elements whose mask lane is off are not accessed: the buffer ends before them
                    if U == T and N > 2:
                        k = N - 1

                        def off(c, k=k):
                            return [t.not_(m) for m in c.bits('m')[k:]]

                        def ldk(c, T=T, k=k):
                            p = c.lanes('p') + c.lanes('a')[k:]
                            return lanes_eq(c, T, [t.ite(m, x, a) for m, x, a in zip(c.bits('m'), p, c.lanes('a'))], 'a')
                        yield H('P02.mload_short.%s' % tag, isa, [A('p', U, k), M('m', T, ab), V('a', T, ab, 'io')], 'a.copy_from(p, m, element_aligned);', ldk, pre=off)

                        def stk(c, T=T, k=k):
                            return lanes_eq(c, T, [t.ite(m, a, x) for m, x, a in zip(c.bits('m'), c.lanes('p'), c.lanes('a'))], 'p')
                        yield H('P02.mstore_short.%s' % tag, isa, [V('a', T, ab), M('m', T, ab), A('p', U, k, 'io')], 'a.copy_to(p, m, element_aligned);', stk, pre=off)
                # masks to and from arrays of bool
                tag = '%s.%s.%s' % (T, ab.tag(), isa)

                def bools(c, n):
                    return [t.ne(x, const(0, 8)) for x in c.lanes(n)]
                yield H('P02.mask_load.' + tag, isa, [B('p', N, 'i'), M('r', T, ab, 'o')], 'r.copy_from(p, element_aligned);',
                        lambda c: mask_eq(c, bools(c, 'p')))
                yield H('P02.mask_ctor.' + tag, isa, [B('p', N, 'i'), M('r', T, ab, 'o')], 'r = std::remove_cvref_t<decltype(r)>(p, element_aligned);',
                        lambda c: mask_eq(c, bools(c, 'p')))
                yield H('P02.mask_store.' + tag, isa, [M('a', T, ab), B('p', N, 'o')], 'a.copy_to(p, element_aligned);',
                        lambda c: ((('p[%d]' % i), t.eq(x, t.zext(b, 8))) for i, (x, b) in enumerate(zip(c.out('p'), c.bits('a')))))
                yield H('P02.mask_mload.' + tag, isa, [B('p', N, 'i'), M('m', T, ab), M('a', T, ab, 'io')], 'a.copy_from(p, m, element_aligned);',
                        lambda c: mask_eq(c, [t.ite(m, x, a) for m, x, a in zip(c.bits('m'), bools(c, 'p'), c.bits('a'))], 'a'))
                yield H('P02.mask_mstore.' + tag, isa, [M('a', T, ab), M('m', T, ab), B('p', N, 'io')], 'a.copy_to(p, m, element_aligned);',
                        lambda c: ((('p[%d]' % i), t.eq(x, t.zext(t.ite(m, b, y), 8)))
                                   for i, (x, m, b, y) in enumerate(zip(c.out('p'), c.bits('m'), c.bits('a'), bools(c, 'p')))))
