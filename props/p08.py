"""P08 blend selects a where the mask is set, b elsewhere"""
from .common import *

ID = 'P08'


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            for ab in abis(T, isa, tier):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)

                def sp(c, T=T):
                    return lanes_eq(c, T, [t.ite(m, a, b) for m, a, b in zip(c.bits('m'), c.lanes('a'), c.lanes('b'))])
                yield H('P08.blend.' + tag, isa, [M('m', T, ab), V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = dpm::blend(m, a, b);', sp)

                def mp(c):
                    return mask_eq(c, [t.ite(m, a, b) for m, a, b in zip(c.bits('m'), c.bits('a'), c.bits('b'))])
                yield H('P08.mask_blend2.' + tag, isa, [M('m', T, ab), M('a', T, ab), M('b', T, ab), M('r', T, ab, 'o')], 'r = dpm::blend(m, a, b);', mp)
