"""P07 mask reductions"""
from .common import *

ID = 'P07'


def disj(L):
    r = t.FALSE()
    for x in L:
        r = t.or_(r, x)
    return r


def conj(L):
    r = t.TRUE()
    for x in L:
        r = t.and_(r, x)
    return r


def first(L, w=64):
    r = const(len(L) - 1, w)
    for i in range(len(L) - 2, -1, -1):
        r = t.ite(L[i], const(i, w), r)
    return r


def last(L, w=64):
    r = const(0, w)
    for i in range(1, len(L)):
        r = t.ite(L[i], const(i, w), r)
    return r


def count(L):
    r = const(0, 8)
    for x in L:
        r = t.add(r, t.zext(x, 8))
    return t.zext(r, 64)


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            for ab in merge(abis(T, isa, tier), allw(T, isa, tier)):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                for nm, f in (('all_of', conj), ('any_of', disj), ('none_of', lambda L: t.not_(disj(L))),
                              ('some_of', lambda L: t.and_(disj(L), t.not_(conj(L))))):
                    def sp(c, f=f):
                        return bool_eq(c, f(c.bits('a')))
                    yield H('P07.%s.%s' % (nm, tag), isa, [M('a', T, ab), B('r')], 'r = dpm::%s(a);' % nm, sp)
                for nm, f in (('reduce_count', count), ('reduce_min_index', first), ('reduce_max_index', last)):
                    def sp2(c, f=f):
                        yield 'r', t.eq(c.out('r')[0], f(c.bits('a')))
                    yield H('P07.%s.%s' % (nm, tag), isa, [M('a', T, ab), A('r', 'u64', 1, 'o')], 'r = dpm::%s(a);' % nm, sp2,
                            pre=(lambda c: [disj(c.bits('a'))]) if 'index' in nm else None)
        for nm, f in (('all_of', lambda b: b), ('any_of', lambda b: b), ('none_of', lambda b: t.not_(b)), ('some_of', lambda b: t.FALSE())):
            def sp3(c, f=f):
                return bool_eq(c, f(t.ne(c.lanes('b')[0], const(0, 8))))
            yield H('P07.%s_bool.%s' % (nm, isa), isa, [B('b', 1, 'i'), B('r')], 'r = dpm::%s(b);' % nm, sp3)
