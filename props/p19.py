"""P19 special values of the native elementary functions"""
import math
from .common import *
from .p19common import *
from engine import fpc, cases

ID = 'P19'
BOUNDS = 'every bit pattern of every lane; the instantiated widths'
OUTSIDE = 'floating-point exception flags and errno; values that are not special; other widths and ABIs'
OPTS = {'sweep': True}
CHUNK = 8


def K(v, w):
    if v == 'nan':
        return None
    if v == 'inf' or v == '-inf':
        e, m = t.FMT[w]
        return const((((1 << e) - 1) << m) | ((1 << (w - 1)) if v[0] == '-' else 0), w)
    if v == '-0':
        return const(1 << (w - 1), w)
    return const(fpc.from_frac(fpc.Fraction(v), w), w)


ZERO = [('0', '0'), ('-0', '-0')]
NANINF = [('inf', 'nan'), ('-inf', 'nan')]
LOG = [('1', '0'), ('0', '-inf'), ('-0', '-inf'), ('inf', 'inf'), ('-inf', 'nan')]
POINTS = {'sin': ZERO + NANINF, 'cos': [('0', '1'), ('-0', '1')] + NANINF, 'tan': ZERO + NANINF, 'asin': ZERO + NANINF, 'acos': [('1', '0')] + NANINF, 'atan': ZERO,
          'log': LOG, 'log2': LOG, 'log10': LOG, 'log1p': ZERO + [('-1', '-inf'), ('inf', 'inf'), ('-inf', 'nan')]}


def neg(x):
    return t.not_(t.eq(t.extract(x, x.w - 1, x.w - 1), const(0, 1)))


def under(r, x, hyp, y):
    """hyp => the result is NaN, where y is x with the bits that hyp fixes as constants"""
    z = t.subst([r, hyp], {x.id: y})
    hyp = t.and_(z[1], t.eq(x, y))
    return t.implies(hyp, t.isnan(cases.assume([z[0]], z[1], nans=True)[0]))


def classes(nm, r, x):
    """operands for which the result is NaN"""
    w = x.w
    e, m = t.FMT[w]
    low, man, sg = t.extract(x, w - 2, 0), t.extract(x, m - 1, 0), t.extract(x, w - 1, w - 1)
    yield 'NaN', under(r, x, t.isnan(x), t.concat(sg, t.ones(e), man))
    nn = t.not_(t.isnan(x))
    if nm in ('asin', 'acos'):
        for b in (0, 1):
            yield '|x|>1', under(r, x, t.and_(nn, t.flt(fconst(1, x.w), t.fabs_(x))), t.concat(const(b, 1), low))
    if nm in ('log', 'log2', 'log10'):
        yield 'x<0', under(r, x, t.flt(x, const(0, x.w)), t.concat(const(1, 1), low))
    if nm == 'log1p':
        yield 'x<-1', under(r, x, t.flt(x, fconst(-1, x.w)), t.concat(const(1, 1), low))


def quiet(x):
    m = t.FMT[x.w][1]
    return t.and_(t.isnan(x), t.eq(t.extract(x, m - 1, m - 1), const(1, 1)))


def near(r, v):
    """r is v or one of its neighbours (v finite, not zero)"""
    c = const(v, r.w)
    return t.or_(t.eq(r, c), t.or_(t.eq(r, t.add(c, const(1, r.w))), t.eq(r, t.sub(c, const(1, r.w)))))


def points(nm, r, x):
    w = x.w
    env = lambda v: t.subst([r], {x.id: v})[0]
    for p, q in POINTS[nm]:
        pv = K(p, w)
        z = t.isnan(env(pv)) if q == 'nan' else t.eq(env(pv), K(q, w))
        yield '%s(%s)' % (nm, p), t.implies(t.eq(x, pv), z)
    if nm == 'atan':
        h = fpc.from_frac(fpc.Fraction(math.pi / 2), w)
        for p, s in (('inf', 0), ('-inf', 1)):
            pv = K(p, w)
            yield 'atan(%s)' % p, t.implies(t.eq(x, pv), near(env(pv), h | (s << (w - 1))))


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            for ab in base(T, isa, tier):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                for nm in FN1:
                    def sp(c, nm=nm):
                        for i, (r, x) in enumerate(zip(c.out('r'), c.lanes('a'))):
                            for l, z in points(nm, r, x):
                                yield 'r[%d] %s' % (i, l), z
                            for l, z in classes(nm, r, x):
                                yield 'r[%d] %s' % (i, l), z
                    yield H('P19.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::%s(a);' % nm, sp, deps=DEPS[nm], timeout=20)

                def sc(c):
                    for i, (s, k, x) in enumerate(zip(c.out('r'), c.out('r2'), c.lanes('a'))):
                        for o, nm in ((s, 'sin'), (k, 'cos')):
                            for l, z in points(nm, o, x):
                                yield 'sincos[%d] %s' % (i, l), z
                            for l, z in classes(nm, o, x):
                                yield 'sincos[%d] %s %s' % (i, nm, l), z
                yield H('P19.sincos.%s' % tag, isa, [V('a', T, ab), V('r', T, ab, 'o'), V('r2', T, ab, 'o')], 'dpm::ext::sincos(a, r, r2);', sc, deps=DEPS['sincos'], timeout=20)

                def hy(c):
                    for i, (r, x, y) in enumerate(zip(c.out('r'), c.lanes('a'), c.lanes('b'))):
                        w = x.w
                        inf = K('inf', w)
                        for l, p, q in (('x', x, y), ('y', y, x)):
                            for z in (K('inf', w), K('-inf', w)):
                                k = t.eq(p, z)
                                for o in (quiet(q), t.not_(t.isnan(q))):
                                    yield 'r[%d] %s infinite' % (i, l), t.implies(t.and_(k, o), t.eq(cases.assume(t.subst([r], {p.id: z}), o, nans=True)[0], inf))
                            e, m = t.FMT[w]
                            pn = t.concat(t.extract(p, w - 1, w - 1), t.ones(e), t.extract(p, m - 1, 0))
                            for o in (t.isnan(q), t.isfinite(q)):
                                k = t.and_(t.isnan(pn), o)
                                z = cases.assume(t.subst([r], {p.id: pn}), k, nans=True)[0]
                                yield 'r[%d] %s NaN' % (i, l), t.implies(t.and_(k, t.eq(p, pn)), t.isnan(z))
                            for z in (0, 1 << (w - 1)):
                                zc = const(z, w)
                                rz = t.subst([r], {p.id: zc})[0]
                                yield 'r[%d] %s zero' % (i, l), t.implies(t.and_(t.eq(p, zc), t.eq(q, zc)), t.eq(t.subst([rz], {q.id: zc})[0], const(0, w)))
                yield H('P19.hypot.%s' % tag, isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = dpm::hypot(a, b);', hy, deps=DEPS['hypot'], timeout=20)
