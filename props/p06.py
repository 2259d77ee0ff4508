"""P06 mask algebra"""
from .common import *

ID = 'P06'


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            for ab in abis(T, isa, tier):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                ops = {'and': ('a & b', t.and_), 'or': ('a | b', t.or_), 'xor': ('a ^ b', t.xor_), 'land': ('a && b', t.and_), 'lor': ('a || b', t.or_),
                       'eq': ('a == b', t.eq), 'ne': ('a != b', t.ne)}
                for nm, (ex, f) in ops.items():
                    def sp(c, f=f):
                        return mask_eq(c, [f(a, b) for a, b in zip(c.bits('a'), c.bits('b'))])
                    yield H('P06.%s.%s' % (nm, tag), isa, [M('a', T, ab), M('b', T, ab), M('r', T, ab, 'o')], 'r = %s;' % ex, sp)
                for nm, op, f in (('and', '&', t.and_), ('or', '|', t.or_), ('xor', '^', t.xor_)):
                    def sp3(c, f=f):
                        return mask_eq(c, [f(a, b) for a, b in zip(c.bits('a'), c.bits('b'))], 'a')
                    yield H('P06.%s_assign.%s' % (nm, tag), isa, [M('a', T, ab, 'io'), M('b', T, ab)], 'a %s= b;' % op, sp3)
                for nm, ex, inv in (('not', '~a', 1), ('lnot', '!a', 1), ('pos', '+a', 0), ('neg', '-a', 1)):
                    def sp4(c, inv=inv):
                        return mask_eq(c, [t.not_(a) if inv else a for a in c.bits('a')])
                    yield H('P06.%s.%s' % (nm, tag), isa, [M('a', T, ab), M('r', T, ab, 'o')], 'r = %s;' % ex, sp4)
