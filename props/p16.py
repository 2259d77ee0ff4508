"""P16 sign and neighbour functions: abs, fabs, copysign, nextafter"""
from .common import *
from engine import spec as S

ID = 'P16'
BOUNDS = 'every bit pattern of every lane; the instantiated widths'
OUTSIDE = 'abs of the most negative integer; nexttoward (long double); which NaN is returned; other widths and ABIs'


def D(*n):
    return ['dpm/detail/x86/%s.cpp' % x for x in n]


def iabs(x):
    return t.ite(t.slt(x, const(0, x.w)), t.neg(x), x)


def csign(x, s):
    m = const(1 << (x.w - 1), x.w)
    return t.or_(t.and_(x, t.sub(m, const(1, x.w))), t.and_(s, m))


def signs_eq(r, e):
    """bit-exact including the sign bit of NaN (copysign and abs define it)"""
    return t.or_(t.eq(r, e), t.and_(t.and_(t.isnan(r), t.isnan(e)), t.eq(t.extract(r, r.w - 1, r.w - 1), t.extract(e, e.w - 1, e.w - 1))))


def rows(c, exp, f):
    for i, (r, e) in enumerate(zip(c.out('r'), exp)):
        yield 'r[%d]' % i, f(r, e)


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            for ab in abis(T, isa, tier):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                for nm in ('abs', 'fabs'):
                    def sa(c):
                        return rows(c, [t.fabs_(x) for x in c.lanes('a')], signs_eq)
                    yield H('P16.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::%s(a);' % nm, sa)

                def sc(c):
                    ss = c.lanes('b') if 'b' in c.init else c.lanes('s') * len(c.lanes('a'))
                    return rows(c, [csign(x, s) for x, s in zip(c.lanes('a'), ss)], signs_eq)
                yield H('P16.copysign.' + tag, isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = dpm::copysign(a, b);', sc)
                yield H('P16.copysign_scalar.' + tag, isa, [V('a', T, ab), A('s', T, 1), V('r', T, ab, 'o')], 'r = dpm::copysign(a, s);', sc)
                U = 'f64' if T == 'f32' else 'f32'

                def pm(c):
                    return [t.not_(t.isnan(x)) for n in ('b', 's') if n in c.init for x in c.lanes(n)]

                def scm(c):
                    ss = c.lanes('b') if 'b' in c.init else c.lanes('s') * len(c.lanes('a'))
                    return rows(c, [csign(t.fop('fpext', (x,), 64) if x.w == 32 else x, t.fop('fpext', (s,), 64) if s.w == 32 else s) for x, s in zip(c.lanes('a'), ss)],
                                lambda r, e: t.fsame(r, e))
                yield H('P16.copysign_mixed.' + tag, isa, [V('a', T, ab), V('b', U, ab), A('r', 'f64', ab.N, 'o')],
                        'auto z = dpm::copysign(a, b); z.copy_to(%sr, element_aligned);' % ('&' if ab.N == 1 else ''), scm, pre=pm)
                yield H('P16.copysign_scalar_mixed.' + tag, isa, [V('a', T, ab), A('s', U, 1), A('r', 'f64', ab.N, 'o')],
                        'auto z = dpm::copysign(a, s); z.copy_to(%sr, element_aligned);' % ('&' if ab.N == 1 else ''), scm, pre=pm)

                def sn(c, T=T):
                    return rows(c, [S.nextafter(x, y) for x, y in zip(c.lanes('a'), c.lanes('b'))], lambda r, e: same(T, r, e))
                if ab.N in (3, 4) or ab.N == 2:
                    def snm(c):
                        for i, (r, x, y) in enumerate(zip(c.out('r'), c.lanes('a'), c.lanes('b'))):
                            x, y = (t.fop('fpext', (q,), 64) if q.w == 32 else q for q in (x, y))
                            yield 'r[%d]' % i, t.fsame(r, S.nextafter(x, y))
                    yield H('P16.nextafter_mixed.' + tag, isa, [V('a', T, ab), V('b', U, ab), A('r', 'f64', ab.N, 'o')],
                            'auto z = dpm::nextafter(a, b); z.copy_to(r, element_aligned);', snm, fp_timeout=30, deps=D('nextafter'))
                yield H('P16.nextafter.' + tag, isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = dpm::nextafter(a, b);', sn,
                        deps=D('nextafter'))
        for T in SINTS:
            for ab in abis(T, isa, tier):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)

                def pre(c):
                    return [t.not_(t.eq(x, minint(x.w))) for x in c.lanes('a')]

                def si(c):
                    return rows(c, [iabs(x) for x in c.lanes('a')], t.eq)
                yield H('P16.abs.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::abs(a);', si, pre=pre)
