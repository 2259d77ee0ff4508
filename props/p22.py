"""P22 accuracy of the native elementary functions"""
from fractions import Fraction as F
from .common import *
from .p19common import *
from engine import acc

ID = 'P22'
BOUNDS = ('sin and cos: 2^-20 <= |x| <= 32; tan: 2^-20 <= |x| <= 8 at least 1/32 away from the poles; asin: |x| >= 2^-20; acos: 2^-20 <= |x| <= 1 - 2^-20; atan: 2^-20 <= |x| <= 2^20; '
          'log, log2, log10: float operands in [1/16, 16), [2^-100, 2^-99), [2^100, 2^101), [2^-140, 2^-139), [2^-130, 2^-129), [2^-127, 2^-126) (thorough: all normal operands), double operands in [1/4, 8), [2^-1000, 2^-999), [2^1000, 2^1001), [2^-1060, 2^-1059), [2^-1023, 2^-1022) (thorough: every 16th exponent)')
OUTSIDE = ('operands outside these ranges; log1p, hypot and sincos; negative operands of the odd and even functions (P21 shows the symmetry); the reference is the mathematical function, '
           'Taylor polynomials with remainder and derivative bounds stand for it')
OPTS = {}
CHUNK = 4
PI = acc.PI


def binades(ks):
    return [(F(2) ** k, F(2) ** (k + 1)) for k in ks]


def poles(hi):
    r, lo, k = [], F(1, 1 << 20), 0
    while lo < hi:
        p = (2 * k + 1) * PI / 2
        r.append((lo, min(hi, p - F(1, 32))))
        lo = p + F(1, 32)
        k += 1
    return r


def domains(T, tier):
    tiny = F(1, 1 << 20)
    f = T == 'f32'
    if tier == 'thorough':
        ks = list(range(-126, 127)) if f else sorted(set(range(-1022, 1023, 16)) | set(range(-8, 8)))
    else:
        ks = [-4, -3, -2, -1, 0, 1, 2, 3, -100, 100] if f else [-2, -1, 0, 1, 2, -1000, 1000]
    big = 128 if tier == 'thorough' else 32
    # subnormal numbers too
    log = binades(ks + ([-140, -130, -127] if f else [-1060, -1023]))
    return {'sin': [(1, [(tiny, F(big))])], 'cos': [(1, [(tiny, F(big))])], 'tan': [(1, poles(F(big, 4)))], 'asin': [(1, [(tiny, F(1))])],
            'acos': [(1, [(tiny, 1 - tiny)]), (-1, [(tiny, 1 - tiny)])], 'atan': [(1, [(tiny, F(1 << 20))])], 'log': [(1, log)], 'log2': [(1, log)], 'log10': [(1, log)]}


TOL = {'log': 6, 'log2': 6, 'log10': 6}


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            dom = domains(T, tier)
            for ab in base(T, isa, tier):
                if ab.N % n128(T):
                    continue
                for nm, ds in dom.items():
                    h = H('P22.%s.%s.%s.%s' % (nm, T, ab.tag(), isa), isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::%s(a);' % nm, lambda c: (), deps=DEPS[nm])
                    h.acc = [(nm, s, d, TOL.get(nm, 4)) for s, d in ds]
                    h.acc_budget = 150 if tier == 'quick' else 1500
                    yield h
