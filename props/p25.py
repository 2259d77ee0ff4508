"""P25 accuracy of hypot"""
from .common import *
from .p19common import *

ID = 'P25'
BOUNDS = ('every operand pair in the boxes: the first operand in selected binades (all thresholds of the scaling, the subnormal numbers, around 1, the largest numbers; thorough: every binade of float, every 16th of double), '
          'the second in binades 0 to 30 below it around every threshold, and further ones, or zero')
OUTSIDE = 'other pairs of binades; results above 2^127 (2^1023); negative and exchanged operands (P21 shows the symmetry)'
OPTS = {}
CHUNK = 1


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            for ab in base(T, isa, tier):
                if ab.N % n128(T):
                    continue
                h = H('P25.hypot.%s.%s.%s' % (T, ab.tag(), isa), isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = dpm::hypot(a, b);', lambda c: (), deps=DEPS['hypot'])
                h.acc2 = (2, tier)
                h.acc_budget = 200 if tier == 'quick' else 1500
                yield h
