"""P24 library options: without error handling (and NaN propagation) the results for valid operands are the same"""
from .common import *
from .p19common import *
from engine import cases
from engine import spec as S

ID = 'P24'
OPTS = {'sweep': True}
CHUNK = 10
LEMMAS = 'scaling'
BOUNDS = 'every bit pattern of every lane (the other lanes may hold invalid operands); the instantiated widths; DPM_PROPAGATE_NAN alone and neither option'
OUTSIDE = 'infinite operands, and results that overflow or underflow to zero, without error handling; DPM_INLINE_EXTENSIONS off (does not compile)'
CFG = {'nan': ('-DDPM_PROPAGATE_NAN',), 'none': ()}
X = {'nextafter': D('nextafter'), 'modf': D('modf'), 'frexp': D('frexp'), 'logb': D('logb'), 'ilogb': D('logb'), 'scalbn': D('scalbn')}


def fin(x):
    return t.isfinite(x)


def one(w, neg=False):
    from engine import fpc
    v = fpc.from_int(1, w)
    return const(v | (1 << (w - 1)) if neg else v, w)


def domain(nm, a):
    """operands for which the function has a finite value"""
    x = a[0]
    w = x.w
    z = const(0, w)
    if nm in ('asin', 'acos'):
        return t.and_(fin(x), t.or_(t.flt(t.fabs_(x), one(w)), t.feq(t.fabs_(x), one(w))))
    if nm in ('log', 'log2', 'log10'):
        return t.and_(fin(x), t.flt(z, x))
    if nm == 'log1p':
        return t.and_(fin(x), t.flt(one(w, True), x))
    return t.conj([fin(y) for y in a])


def mk(id, isa, args, call, spec, deps, cfg, ref=None):
    """call: the statement over the second configuration; ref: over the default one"""
    h = H(id, isa, args, '', spec, deps=deps, timeout=20)
    sym = h.sym() + '_b'
    ps = ', '.join('%s%s *p_%s' % ('' if 'o' in a.io else 'const ', a.ctype(), a.name) for a in args)
    h.alt = CFG[cfg]
    h.alt_src = 'extern "C" void %s(%s)\n{\n\tusing namespace dpm;\n\t%s\n\t%s\n}\n' % (sym, ps, ' '.join('auto &%s = *p_%s;' % (a.name, a.name) for a in args), call)
    h.decl = 'extern "C" void %s(%s);\n' % (sym, ', '.join('%svoid *' % ('' if 'o' in a.io else 'const ') for a in args))
    h.body = '%s %s(%s);' % (ref or '', sym, ', '.join('p_' + a.name for a in args))
    h.what = '%s with %s' % (call, ' '.join(h.alt) or 'no options')
    return h


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            w = 8 * size(T)
            for ab in (base(T, isa, tier)):
                for cfg in CFG:
                    tag = '%s.%s.%s.%s' % (T, ab.tag(), isa, cfg)
                    for nm in FN1 + FN2 + ('sincos',):
                        two = nm in FN2
                        outs = ['r', 'r2'] if nm == 'sincos' else ['r']

                        def sp(c, nm=nm, two=two, outs=outs, cfg=cfg):
                            ops = list(zip(*([c.lanes('a'), c.lanes('b')] if two else [c.lanes('a')])))
                            for o in outs:
                                for i, (p, q) in enumerate(zip(c.out(o), c.out('q' + o))):
                                    d = domain(nm, ops[i])
                                    u = cases.assume([p, q], d)
                                    yield '%s[%d] unchanged' % (o, i), t.implies(d, t.fsame(*u))
                                    if cfg == 'nan':
                                        n = t.disj([t.isnan(x) for x in ops[i]])
                                        if two:
                                            n = t.conj([n] + [t.or_(t.isnan(x), fin(x)) for x in ops[i]])
                                        u = cases.assume([q], n, nans=True)
                                        yield '%s[%d] NaN' % (o, i), t.implies(n, t.isnan(u[0]))
                        args = [V('a', T, ab)] + ([V('b', T, ab)] if two else []) + [V(o, T, ab, 'o') for o in outs] + [V('q' + o, T, ab, 'o') for o in outs]
                        if nm == 'sincos':
                            f = 'dpm::ext::sincos(a, %s, %s);'
                            call, ref = f % ('qr', 'qr2'), f % ('r', 'r2')
                        else:
                            f = '%%s = dpm::%s(%s);' % (nm, 'a, b' if two else 'a')
                            call, ref = f % 'qr', f % 'r'
                        h = mk('P24.%s.%s' % (nm, tag), isa, args, call, sp, DEPS[nm], cfg, ref)
                        if nm == 'hypot':
                            h.timeout = 60
                        yield h

                    nan = cfg == 'nan'

                    def sn(c, nan=nan):
                        for i, (x, y, r) in enumerate(zip(c.lanes('a'), c.lanes('b'), c.out('r'))):
                            ok = t.and_(t.not_(t.isnan(x)), t.not_(t.isnan(y)))
                            yield 'r[%d]' % i, t.implies(t.TRUE() if nan else ok, t.fsame(r, S.nextafter(x, y)))
                    yield mk('P24.nextafter.' + tag, isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = dpm::nextafter(a, b);', sn, X['nextafter'], cfg)

                    def sm(c, nan=nan):
                        for i, (x, r, q) in enumerate(zip(c.lanes('a'), c.out('r'), c.out('q'))):
                            f, ip = S.modf(x)
                            d = t.or_(fin(x), t.isnan(x)) if nan else fin(x)
                            yield 'frac[%d]' % i, t.implies(d, t.fsame(r, f))
                            yield 'int[%d]' % i, t.implies(d, t.fsame(q, ip))
                    yield mk('P24.modf.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o'), V('q', T, ab, 'o')], 'r = dpm::modf(a, &q);', sm, X['modf'], cfg)

                    def sf(c, nan=nan):
                        for i, (x, r, e) in enumerate(zip(c.lanes('a'), c.out('r'), c.out('e'))):
                            y, ex = S.frexp(x, 32)
                            yield 'frac[%d]' % i, t.implies(t.or_(fin(x), t.isnan(x)) if nan else fin(x), t.fsame(r, y))
                            yield 'exp[%d]' % i, t.implies(fin(x), t.eq(e, ex))
                    yield mk('P24.frexp.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o'), V('e', 'i32', ab, 'o')], 'r = dpm::frexp(a, &e);', sf, X['frexp'], cfg)

                    def si(c, nan=nan):
                        for i, (x, r) in enumerate(zip(c.lanes('a'), c.out('r'))):
                            d = t.and_(fin(x), t.not_(t.feq(x, const(0, x.w))))
                            yield 'r[%d]' % i, t.implies(t.or_(d, t.isnan(x)) if nan else d, t.eq(r, S.ilogb(x, 32)))
                    yield mk('P24.ilogb.' + tag, isa, [V('a', T, ab), V('r', 'i32', ab, 'o')], 'r = dpm::ilogb(a);', si, X['ilogb'], cfg)

                    def sl(c, nan=nan):
                        for i, (x, r) in enumerate(zip(c.lanes('a'), c.out('r'))):
                            d = t.and_(fin(x), t.not_(t.feq(x, const(0, x.w))))
                            yield 'r[%d]' % i, t.implies(t.or_(d, t.isnan(x)) if nan else d, t.fsame(r, S.logb(x)))
                    h = mk('P24.logb.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::logb(a);', sl, X['logb'], cfg)
                    h.timeout, h.fp_timeout = 60, 90
                    yield h

                    def ss(c, nan=nan):
                        for i, (x, n, r) in enumerate(zip(c.lanes('a'), c.lanes('n'), c.out('r'))):
                            y = S.scalbn(x, t.sext(n, 64))
                            z = t.feq(x, const(0, x.w))
                            d = t.or_(z, t.conj([fin(x), fin(y), t.not_(t.feq(y, const(0, x.w)))]))
                            yield 'r[%d]' % i, t.implies(t.or_(d, t.isnan(x)) if nan else d, t.fsame(r, y))
                    h = mk('P24.scalbn.' + tag, isa, [V('a', T, ab), V('n', 'i32', ab), V('r', T, ab, 'o')], 'r = dpm::scalbn(a, n);', ss, X['scalbn'], cfg)
                    h.timeout = 40 if T == 'f32' else 90
                    yield h
