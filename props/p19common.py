"""functions with a native vector implementation and the sources they live in"""


def D(*n):
    return ['dpm/detail/x86/%s.cpp' % x for x in n]


LUT = ['dpm/detail/fconst.cpp']
FN1 = ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'log', 'log2', 'log10', 'log1p')
FN2 = ('hypot',)
DEPS = {'sin': D('sincos'), 'cos': D('sincos'), 'sincos': D('sincos'), 'tan': D('tan'), 'asin': D('asincos'), 'acos': D('asincos'), 'atan': D('atan'),
        'log': D('log') + LUT, 'log2': D('log2') + LUT, 'log10': D('log10') + LUT, 'log1p': D('log1p') + LUT, 'hypot': D('hypot')}


def base(T, isa, tier):
    """widths: every other one computes the same lanes (P20)"""
    from .common import abis, Abi, n128, HAS_AVX
    n = n128(T)
    return abis(T, isa, tier, packed=False) if tier == 'thorough' else [Abi(n), Abi(2 * n if HAS_AVX[isa] else 2 * n + 1)]
