"""P12 element type casts"""
from .common import *

ID = 'P12'
BOUNDS = 'every lane value for which the scalar conversion has defined behaviour; the instantiated type pairs and widths'
OUTSIDE = 'floating-point values whose truncation does not fit the integer type; other widths and ABIs'


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            for U in ALL:
                for ab in abis(T, isa, tier, full256=False):
                    if U != T and tier == 'quick' and ab.N > 16:
                        continue
                    N = ab.N
                    tag = '%s_%s.%s.%s' % (T, U, ab.tag(), isa)

                    def sp(c, T=T, U=U):
                        return lanes_eq(c, U, [convert(U, T, x) for x in c.lanes('a')])

                    def pre(c, T=T, U=U):
                        return [conv_ok(U, T, x) for x in c.lanes('a')]
                    p = pre if isf(T) and not isf(U) else None
                    for nm in ('static_simd_cast', 'simd_cast'):
                        if nm == 'simd_cast' and tier == 'quick' and ab.N == 3 and ab.A == 0:
                            continue
                        yield H('P12.%s.%s' % (nm, tag), isa, [V('a', T, ab), A('r', U, N, 'o')],
                                'auto z = dpm::%s<%s>(a); static_assert(std::same_as<typename decltype(z)::value_type, %s>); z.copy_to(%sr, element_aligned);' % (
                                    nm, cpp(U), cpp(U), '&' if N == 1 else ''), sp, pre=p)
                    # converting constructor to a vector of the other element type
                    if U != T:
                        for ob in ([Abi(N)] if ab.A == -1 else [Abi(N, ab.A), Abi(N, -1)]) if N > 1 else []:
                            if tier == 'quick' and (ob.A == -1) != (ab.A == -1) and isa not in ('sse2', 'avx2'):
                                continue
                            yield H('P12.construct_%s.%s' % (ob.tag(), tag), isa, [V('a', T, ab), V('r', U, ob, 'o')],
                                    'r = std::remove_cvref_t<decltype(r)>(a);', sp, pre=p)
                    else:
                        for nm in ('to_fixed_size',):
                            if N > 1:
                                yield H('P12.%s.%s' % (nm, tag), isa, [V('a', T, ab), A('r', U, N, 'o')],
                                        'auto z = dpm::%s(a); z.copy_to(r, element_aligned);' % nm, sp)
                                yield H('P12.mask_%s.%s' % (nm, tag), isa, [M('a', T, ab), B('r', N, 'o')],
                                        'auto z = dpm::%s(a); z.copy_to(r, element_aligned);' % nm,
                                        lambda c: ((('r[%d]' % i), t.eq(x, t.zext(b, 8))) for i, (x, b) in enumerate(zip(c.out('r'), c.bits('a')))))
                                yield H('P12.cast_target.%s' % tag, isa, [V('a', T, ab), A('r', 'f64', N, 'o')],
                                        'auto z = dpm::static_simd_cast<dpm::simd<double, dpm::simd_abi::fixed_size<%d>>>(a); z.copy_to(r, element_aligned);' % N,
                                        lambda c, T=T: lanes_eq(c, 'f64', [convert('f64', T, x) for x in c.lanes('a')]))
                    # mask conversion between element types keeps every element
                    if U != T and N > 1:
                        yield H('P12.mask_construct.%s' % tag, isa, [M('a', T, ab), M('r', U, ab, 'o')], 'r = std::remove_cvref_t<decltype(r)>(a);',
                                lambda c: mask_eq(c, c.bits('a')))
        # native and compatible widths
        for T in ALL:
            for nm, w in (('to_native', (32 if HAS_AVX[isa] else 16) // size(T)), ('to_compatible', (32 if HAS_AVX[isa] else 16) // size(T))):
                ab = Abi(w)
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                yield H('P12.%s.%s' % (nm, tag), isa, [V('a', T, ab), A('r', T, w, 'o')], 'auto z = dpm::%s(a); z.copy_to(r, element_aligned);' % nm,
                        lambda c, T=T: lanes_eq(c, T, c.lanes('a')))
