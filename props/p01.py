"""P01 element access, broadcast, generation and whole-vector conversion between ABIs of equal width"""
from .common import *

ID = 'P01'


def sel(L, i):
    r = L[0]
    for k in range(1, len(L)):
        r = t.ite(t.eq(i, const(k, i.w)), L[k], r)
    return r


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            for ab in abis(T, isa, tier, scalar=True):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                N = ab.N

                def bc(c, T=T, N=N):
                    return lanes_eq(c, T, [c.lanes('s')[0]] * N)
                yield H('P01.broadcast.' + tag, isa, [A('s', T, 1), V('r', T, ab, 'o')], 'r = std::remove_cvref_t<decltype(r)>(s);', bc)

                def gn(c, T=T):
                    return lanes_eq(c, T, c.lanes('p'))
                pp = 'p[i]' if N > 1 else 'p'
                yield H('P01.generate.' + tag, isa, [A('p', T, N), V('r', T, ab, 'o')],
                        'r = std::remove_cvref_t<decltype(r)>([&](auto i) { return %s; });' % pp, gn)

                def ipre(c, N=N):
                    return [t.ult(c.lanes('i')[0], const(N, 64))]

                def rd(c, T=T):
                    yield 'r', same(T, c.out('r')[0], sel(c.lanes('a'), c.lanes('i')[0]))
                yield H('P01.read.' + tag, isa, [V('a', T, ab), A('i', 'u64', 1), A('r', T, 1, 'o')], 'r = a[i];', rd, pre=ipre)

                def wr(c, T=T):
                    i = c.lanes('i')[0]
                    return lanes_eq(c, T, [t.ite(t.eq(i, const(k, 64)), c.lanes('s')[0], a) for k, a in enumerate(c.lanes('a'))], 'a')
                yield H('P01.write.' + tag, isa, [V('a', T, ab, 'io'), A('i', 'u64', 1), A('s', T, 1)], 'a[i] = s;', wr, pre=ipre)

                def cp(c, T=T):
                    return lanes_eq(c, T, c.lanes('a'))
                yield H('P01.copy.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = a;', cp)
                others = [Abi(N, -1)] if ab.A != -1 else []
                if N > 1:
                    others += [Abi(N, 0), Abi(N, 16)] + ([Abi(N, 32)] if HAS_AVX[isa] else [])
                for ob in others:
                    if (ob.N, ob.A) == (ab.N, ab.A) or (tier == 'quick' and ob.A == 16 and ab.A == 0):
                        continue
                    yield H('P01.convert_to_%s.%s' % (ob.tag(), tag), isa, [V('a', T, ab), V('r', T, ob, 'o')],
                            'r = static_cast<std::remove_cvref_t<decltype(r)>>(a);', cp)
                    if ob.A == -1 or ab.A == -1:
                        def mcp(c):
                            return mask_eq(c, c.bits('a'))
                        yield H('P01.mask_convert_to_%s.%s' % (ob.tag(), tag), isa, [M('a', T, ab), M('r', T, ob, 'o')],
                                'r = static_cast<std::remove_cvref_t<decltype(r)>>(a);', mcp)

                def mbc(c, N=N):
                    return mask_eq(c, [t.ne(c.lanes('s')[0], const(0, 8))] * N)
                yield H('P01.mask_broadcast.' + tag, isa, [B('s', 1, 'i'), M('r', T, ab, 'o')], 'r = std::remove_cvref_t<decltype(r)>(s);', mbc)

                def mgn(c):
                    return mask_eq(c, [t.ne(x, const(0, 8)) for x in c.lanes('p')])
                yield H('P01.mask_generate.' + tag, isa, [B('p', N, 'i'), M('r', T, ab, 'o')],
                        'r = std::remove_cvref_t<decltype(r)>([&](auto i) { return %s; });' % pp, mgn)

                def mrd(c):
                    yield 'r', t.eq(c.out('r')[0], t.zext(sel(c.bits('a'), c.lanes('i')[0]), 8))
                yield H('P01.mask_read.' + tag, isa, [M('a', T, ab), A('i', 'u64', 1), B('r')], 'r = a[i];', mrd, pre=ipre)

                def mwr(c):
                    i = c.lanes('i')[0]
                    s = t.ne(c.lanes('s')[0], const(0, 8))
                    return mask_eq(c, [t.ite(t.eq(i, const(k, 64)), s, a) for k, a in enumerate(c.bits('a'))], 'a')
                yield H('P01.mask_write.' + tag, isa, [M('a', T, ab, 'io'), A('i', 'u64', 1), B('s', 1, 'i')], 'a[i] = s;', mwr, pre=ipre)
