"""P17 fused multiply-add family, square root, reciprocals, linear interpolation"""
from .common import *

ID = 'P17'
BOUNDS = 'every bit pattern of every lane (fma family, sqrt, reciprocals); lerp: endpoints and factors that are small integers, where every order of evaluation is exact; the instantiated widths'
OUTSIDE = 'rcp and rsqrt of native float vectors (hardware approximations), rounding of lerp; other widths and ABIs'

FMA = {'fmadd': (0, 0), 'fmsub': (0, 1), 'fnmadd': (1, 0), 'fnmsub': (1, 1)}


def ng(c, x):
    return t.fneg(x) if c else x


def fused(na, nc):
    """rounded once, or product and sum each rounded"""
    def f(x, y, z):
        w = x.w
        one = t.fop('fma', (ng(na, x), y, ng(nc, z)), w)
        two = t.fop('add', (ng(na, t.fop('mul', (x, y), w)), ng(nc, z)), w)
        return one, two
    return f


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            for ab in abis(T, isa, tier):
                N = ab.N
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                for nm, g in list(FMA.items()) + [('fma', (0, 0))]:
                    def sf(c, g=g):
                        for i, (r, x, y, z) in enumerate(zip(c.out('r'), c.lanes('a'), c.lanes('b'), c.lanes('d'))):
                            one, two = fused(*g)(x, y, z)
                            yield 'r[%d]' % i, t.or_(t.fsame(r, one), t.fsame(r, two))
                    q = 'dpm::' if nm == 'fma' else 'dpm::ext::'
                    yield H('P17.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('b', T, ab), V('d', T, ab), V('r', T, ab, 'o')],
                            'r = %s%s(a, b, d);' % (q, nm), sf)
                    if T == 'f32' and ab.N in (3, 4):
                        def sx(c, g=g):
                            for i, (r, x, y, z) in enumerate(zip(c.out('r'), c.lanes('a'), c.lanes('b'), c.lanes('d'))):
                                one, two = fused(*g)(t.fop('fpext', (x,), 64), y, t.fop('fpext', (z,), 64))
                                yield 'r[%d]' % i, t.or_(t.fsame(r, one), t.fsame(r, two))
                        yield H('P17.%s_mixed.%s' % (nm, tag), isa, [V('a', T, ab), V('b', 'f64', ab), V('d', T, ab), A('r', 'f64', N, 'o')],
                                'auto z = %s%s(a, b, d); z.copy_to(r, element_aligned);' % (q, nm), sx)

                def sq(c, T=T):
                    return lanes_eq(c, T, [t.fop('sqrt', (x,), x.w) for x in c.lanes('a')])
                yield H('P17.sqrt.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::sqrt(a);', sq)

                one = fconst(1, 32 if T == 'f32' else 64)
                if ab.A == -1 or T == 'f64':
                    def sr(c, T=T):
                        return lanes_eq(c, T, [t.fop('div', (fconst(1, x.w), x), x.w) for x in c.lanes('a')])
                    yield H('P17.rcp.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::ext::rcp(a);', sr)

                    def srs(c, T=T):
                        return lanes_eq(c, T, [t.fop('div', (fconst(1, x.w), t.fop('sqrt', (x,), x.w)), x.w) for x in c.lanes('a')])
                    yield H('P17.rsqrt.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::ext::rsqrt(a);', srs)

                if ab.A == -1:
                    def sg(c, T=T):
                        return lanes_eq(c, 'f64', c.out('e'))
                    ty = {'f32': 'float', 'f64': 'double'}[T]
                    yield H('P17.lerp.' + tag, isa, [V('a', T, ab), V('b', T, ab), V('f', T, ab), V('r', T, ab, 'o'), A('e', T, N, 'o')],
                            'r = dpm::lerp(a, b, f); for (int i = 0; i < %d; ++i) e[i] = std::lerp(%s(a[i]), %s(b[i]), %s(f[i]));' % (N, ty, ty, ty), sg)
                    yield H('P17.lerp_scalar.' + tag, isa, [V('a', T, ab), V('b', T, ab), A('f', T, 1), V('r', T, ab, 'o'), A('e', T, N, 'o')],
                            'r = dpm::lerp(a, b, f); for (int i = 0; i < %d; ++i) e[i] = std::lerp(%s(a[i]), %s(b[i]), f);' % (N, ty, ty), sg)
                    if T == 'f32':
                        def dd(x, i=None):
                            return 'double(%s%s)' % (x, '' if i is None else '[i]')
                        yield H('P17.lerp_mixed.' + tag, isa, [V('a', 'f32', ab), V('b', 'f64', ab), V('f', 'f32', ab), A('r', 'f64', N, 'o'), A('e', 'f64', N, 'o')],
                                'auto z = dpm::lerp(a, b, f); z.copy_to(r, element_aligned); for (int i = 0; i < %d; ++i) e[i] = std::lerp(%s, %s, %s);' % (N, dd('a', 1), dd('b', 1), dd('f', 1)), sg)
                        yield H('P17.lerp_scalar_mixed.' + tag, isa, [V('a', 'f64', ab), V('b', 'f32', ab), A('f', 'f32', 1), A('r', 'f64', N, 'o'), A('e', 'f64', N, 'o')],
                                'auto z = dpm::lerp(a, b, f); z.copy_to(r, element_aligned); for (int i = 0; i < %d; ++i) e[i] = std::lerp(%s, %s, %s);' % (N, dd('a', 1), dd('b', 1), dd('f')), sg)
                    continue

                # lerp on small integers
                cT = {'f32': 'float', 'f64': 'double'}[T]
                ld = lambda v: '%s %s; for (int i = 0; i < %d; ++i) %s[i] = static_cast<%s>(k%s[i]); ' % (V('a', T, ab).ctype(), v, N, v, cT, v)

                def prl(c):
                    for n, b in (('ka', 2047), ('kb', 2047), ('kf', 127), ('ks', 127)):
                        if n in c.init:
                            for x in c.lanes(n):
                                yield t.and_(t.sle(const(-b, x.w), x), t.sle(x, const(b, x.w)))

                def sl(c, T=T):
                    fs = c.lanes('kf') if 'kf' in c.init else c.lanes('ks') * len(c.lanes('ka'))
                    for i, (r, x, y, f) in enumerate(zip(c.out('r'), c.lanes('ka'), c.lanes('kb'), fs)):
                        x, y, f = (t.sext(q, 32) for q in (x, y, f))
                        v = t.add(x, t.mul(f, t.sub(y, x)))
                        yield 'r[%d]' % i, t.feq(r, t.fop('sitofp', (v,), r.w))
                yield H('P17.lerp.' + tag, isa, [A('ka', 'i16', N), A('kb', 'i16', N), A('kf', 'i8', N), V('r', T, ab, 'o')],
                        ld('a') + ld('b') + ld('f') + 'r = dpm::lerp(a, b, f);', sl, pre=prl)
                yield H('P17.lerp_scalar.' + tag, isa, [A('ka', 'i16', N), A('kb', 'i16', N), A('ks', 'i8', 1), V('r', T, ab, 'o')],
                        ld('a') + ld('b') + 'r = dpm::lerp(a, b, static_cast<%s>(ks));' % cT, sl, pre=prl)
