"""P21 symmetries of the native elementary functions"""
from .common import *
from .p19common import *
from engine import cases

ID = 'P21'
BOUNDS = 'every bit pattern of every lane; the instantiated widths'
OUTSIDE = 'values (see P19 and P22); other widths and ABIs'
OPTS = {'sweep': True}
CHUNK = 8
ODD = ('sin', 'tan', 'asin', 'atan')
EVEN = ('cos',)


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            for ab in base(T, isa, tier):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                v = ab
                for nm in ODD + EVEN:
                    def sp(c, nm=nm):
                        for i, (r, q) in enumerate(zip(c.out('r'), c.out('q'))):
                            yield 'r[%d]' % i, t.fsame(q, t.fneg(r) if nm in ODD else r)
                    yield H('P21.%s.%s' % (nm, tag), isa, [V('a', T, v), V('r', T, v, 'o'), V('q', T, v, 'o')], 'r = dpm::%s(a); q = dpm::%s(-a);' % (nm, nm), sp,
                            deps=DEPS[nm], timeout=20)

                def sc(c):
                    for i, (s, k, p, q) in enumerate(zip(c.out('s'), c.out('k'), c.out('p'), c.out('q'))):
                        yield 'sin[%d]' % i, t.fsame(s, p)
                        yield 'cos[%d]' % i, t.fsame(k, q)
                yield H('P21.sincos.%s' % tag, isa, [V('a', T, v)] + [V(n, T, v, 'o') for n in 'skpq'], 'dpm::ext::sincos(a, s, k); p = dpm::sin(a); q = dpm::cos(a);', sc,
                        deps=DEPS['sincos'], timeout=20)
                for nm, e in (('swap', 'dpm::hypot(b, a)'), ('negx', 'dpm::hypot(-a, b)'), ('negy', 'dpm::hypot(a, -b)')):
                    def hy(c, nm=nm):
                        for i, (r, q, x, y) in enumerate(zip(c.out('r'), c.out('q'), c.lanes('a'), c.lanes('b'))):
                            u, v = t.fabs_(x), t.fabs_(y)
                            if nm == 'swap':
                                # NaN: P19
                                nn = t.and_(t.not_(t.isnan(x)), t.not_(t.isnan(y)))
                                for k in (t.ult(u, v), t.ult(v, u)):
                                    z = cases.assume([r, q], t.and_(nn, k))
                                    yield 'r[%d]' % i, t.implies(t.and_(nn, k), t.fsame(*z))
                                ys = t.concat(t.extract(y, y.w - 1, y.w - 1), t.extract(x, x.w - 2, 0))
                                z = t.subst([r, q], {y.id: ys})
                                yield 'r[%d]' % i, t.implies(t.eq(y, ys), t.fsame(*z))
                            else:
                                yield 'r[%d]' % i, t.fsame(r, q)
                    yield H('P21.hypot_%s.%s' % (nm, tag), isa, [V('a', T, v), V('b', T, v), V('r', T, v, 'o'), V('q', T, v, 'o')], 'r = dpm::hypot(a, b); q = %s;' % e, hy,
                            deps=DEPS['hypot'], timeout=20)

                def l2(c):
                    w = 8 * size(T)
                    e, m = t.FMT[w]
                    for i, r in enumerate(c.out('r')):
                        yield 'log2[%d]' % i, t.eq(r, t.fop('sitofp', (c.lanes('k')[i],), w))
