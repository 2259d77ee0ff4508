"""P09 constant shuffles"""
from .common import *
import random

ID = 'P09'


def patterns(N, tier, seed, n=4):
    r = random.Random(seed)
    ps = [list(range(N)), list(range(N - 1, -1, -1)), [0] * N, [N - 1] * N, [(i + 1) % N for i in range(N)], [i ^ 1 if (i ^ 1) < N else i for i in range(N)]]
    for _ in range(3 if tier == 'quick' else 24):
        ps.append([r.randrange(N) for _ in range(N)])
    if N >= 8 and n == 8:          # groups of four 16-bit lanes, each from one half of a register
        for gs in ((0, 0), (0, 1), (1, 0), (1, 1)) if N == 8 else ((0, 3), (2, 1), (3, 3), (1, 2)):
            ps.append([4 * g + r.randrange(4) for g in gs for _ in range(4)])
    if N > n and n <= 4:           # pairs of lanes, each from one register
        k = (N - 1) // n
        for gs in ((0, 1), (1, 0), (1, 1)) + (((0, k), (k - 1, 0)) if k > 1 else ()):
            ps.append([min(n * g + r.randrange(n), N - 1) for g in gs for _ in range(n // 2)])
        ps.append([min(n * (i % (k + 1)) + r.randrange(n), N - 1) for i in range(n)])
    if N > 2:
        ps.append([r.randrange(N) for _ in range(N // 2)])          # narrower
    if N <= 8:
        ps.append([r.randrange(N) for _ in range(2 * N)])           # wider
        ps.append([i % N for i in range(N + 1)])
    if N > 4:
        ps.append(list(range(1, N - 1)))
    out = []
    for p in ps:
        if p not in out and len(p) > 1:
            out.append(p)
    return out


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            for ab in abis(T, isa, tier):
                for k, p in enumerate(patterns(ab.N, tier, 31 * ab.N + size(T), n128(T))):
                    tag = '%s.%s.%s' % (T, ab.tag(), isa)
                    idx = ', '.join(map(str, p))

                    def sp(c, p=p, T=T):
                        a = c.lanes('a')
                        return lanes_eq(c, T, [a[i] for i in p])
                    yield H('P09.shuffle%d.%s' % (k, tag), isa, [V('a', T, ab), A('r', T, len(p), 'o')],
                            'auto y = dpm::ext::shuffle<%s>(a); static_assert(decltype(y)::size() == %d); y.copy_to(r, element_aligned);' % (idx, len(p)), sp)

                    def mp(c, p=p):
                        a = c.bits('a')
                        for j, (x, i) in enumerate(zip(c.out('r'), p)):
                            yield 'r[%d]' % j, t.eq(x, t.zext(a[i], 8))
                    yield H('P09.mask_shuffle%d.%s' % (k, tag), isa, [M('a', T, ab), B('r', len(p), 'o')],
                            'auto y = dpm::ext::shuffle<%s>(a); static_assert(decltype(y)::size() == %d); y.copy_to(r, element_aligned);' % (idx, len(p)), mp)
