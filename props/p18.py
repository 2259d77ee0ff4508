"""P18 functions delegated to the C library are applied lane by lane"""
from .common import *
from engine.spec import scalbn as spec_scalbn

ID = 'P18'
BOUNDS = 'every bit pattern of every lane; the C library function is an uninterpreted function of its arguments (the same one in code and specification); the instantiated widths'
OUTSIDE = 'the values the C library computes; functions with a native implementation (see P19 and P20); other widths and ABIs'

ALWAYS = ('sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2', 'expm1', 'cbrt', 'erf', 'erfc', 'tgamma', 'lgamma')
GENERIC = ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'log', 'log2', 'log10', 'log1p')
ALWAYS2 = ('pow', 'fmod', 'remainder', 'atan2')
GENERIC2 = ('hypot',)
SC = ('pow', 'fmod', 'remainder')
CT = {'f32': 'float', 'f64': 'double', 'i32': 'int', 'i16': 'short'}


def lib(nm, *a):
    return t.fop('libm:' + nm, a, a[0].w)


def prom(x, T):
    if T == 'f64':
        return x
    if T == 'f32':
        return t.fop('fpext', (x,), 64)
    return t.fop('sitofp', (x,), 64)


def u(nm, x):
    if nm == 'exp2' and x.op == 'f:sitofp':
        # 2^n for an integer n
        return spec_scalbn(fconst(1, x.w), t.sext(x.args[0], 64))
    return lib(nm, x)


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            for ab in abis(T, isa, tier):
                N = ab.N
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                g = ab.A == -1
                for nm in ALWAYS + (GENERIC if g else ()):
                    def s1(c, nm=nm, T=T):
                        return lanes_eq(c, T, [lib(nm, x) for x in c.lanes('a')])
                    yield H('P18.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = dpm::%s(a);' % nm, s1)
                    if N in (3, 4) and T == 'f32':
                        for S in ('i32',):
                            if nm == 'exp2' and not g:
                                pass
                            def sp(c, nm=nm, S=S):
                                for i, (r, x) in enumerate(zip(c.out('r'), c.lanes('a'))):
                                    yield 'r[%d]' % i, t.fsame(r, u(nm, prom(x, S)))
                            yield H('P18.%s_%s.%s' % (nm, S, tag), isa, [V('a', S, ab), A('r', 'f64', N, 'o')],
                                    'auto z = dpm::%s(a); z.copy_to(r, element_aligned);' % nm, sp)
                for nm in ALWAYS2 + (GENERIC2 if g else ()):
                    def s2(c, nm=nm, T=T):
                        return lanes_eq(c, T, [lib(nm, x, y) for x, y in zip(c.lanes('a'), c.lanes('b'))])
                    yield H('P18.%s.%s' % (nm, tag), isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = dpm::%s(a, b);' % nm, s2)
                    if N in (3, 4) and T == 'f32':
                        for S0, S1 in (('f32', 'f64'), ('f64', 'f32'), ('f32', 'i32'), ('i32', 'f32')):
                            def sm(c, nm=nm, S0=S0, S1=S1):
                                for i, (r, x, y) in enumerate(zip(c.out('r'), c.lanes('a'), c.lanes('b'))):
                                    yield 'r[%d]' % i, t.fsame(r, lib(nm, prom(x, S0), prom(y, S1)))
                            yield H('P18.%s_%s_%s.%s' % (nm, S0, S1, tag), isa, [V('a', S0, ab), V('b', S1, ab), A('r', 'f64', N, 'o')],
                                    'auto z = dpm::%s(a, b); z.copy_to(r, element_aligned);' % nm, sm)
                    if nm in SC:
                        def ss(c, nm=nm, T=T):
                            return lanes_eq(c, T, [lib(nm, x, c.lanes('b')[0]) for x in c.lanes('a')])
                        yield H('P18.%s_scalar.%s' % (nm, tag), isa, [V('a', T, ab), A('b', T, 1), V('r', T, ab, 'o')], 'r = dpm::%s(a, b);' % nm, ss)
                        if N in (3, 4) and T == 'f32':
                            for S1 in ('f64', 'i32'):
                                def sq(c, nm=nm, S1=S1):
                                    for i, (r, x) in enumerate(zip(c.out('r'), c.lanes('a'))):
                                        yield 'r[%d]' % i, t.fsame(r, lib(nm, prom(x, 'f32'), prom(c.lanes('b')[0], S1)))
                                yield H('P18.%s_scalar_%s.%s' % (nm, S1, tag), isa, [V('a', 'f32', ab), A('b', S1, 1), A('r', 'f64', N, 'o')],
                                        'auto z = dpm::%s(a, b); z.copy_to(r, element_aligned);' % nm, sq)

                def sr(c, T=T):
                    for i, (r, q, x, y) in enumerate(zip(c.out('r'), c.out('q'), c.lanes('a'), c.lanes('b'))):
                        yield 'r[%d]' % i, t.fsame(r, lib('remainder', x, y))
                        yield 'q[%d]' % i, t.eq(q, t.fop('libm:remquo', (x, y), 32, 'int'))
                qd = 'rebind_simd_t<int, %s> k = 0; ' % V('a', T, ab).ctype()
                yield H('P18.remquo.' + tag, isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o'), A('q', 'i32', N, 'o')],
                        qd + 'r = dpm::remquo(a, b, &k); k.copy_to(q, element_aligned);', sr)
                yield H('P18.remquo_ref.' + tag, isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o'), A('q', 'i32', N, 'o')],
                        qd + 'r = dpm::ext::remquo(a, b, k); k.copy_to(q, element_aligned);', sr)
