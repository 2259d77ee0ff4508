"""P05 comparisons"""
from .common import *

ID = 'P05'


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            for ab in abis(T, isa, tier):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                for nm, op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
                    def sp(c, op=op, T=T):
                        return mask_eq(c, [cmp_op(T, op, a, b) for a, b in zip(c.lanes('a'), c.lanes('b'))])
                    yield H('P05.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('b', T, ab), M('r', T, ab, 'o')], 'r = a %s b;' % op, sp)

