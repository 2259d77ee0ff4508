"""P20 elementary functions treat every lane alike: the result of a lane depends on that lane only"""
from .common import *
from .p19common import *

ID = 'P20'
OPTS = {'sweep': True}
CHUNK = 10
BOUNDS = 'every bit pattern of every lane; the instantiated widths'
OUTSIDE = 'other widths and ABIs; results across instruction sets (multiply-add fusion may differ)'


def gen(tier):
    for isa in isas(tier):
        for T in FLOATS:
            n = n128(T)
            for ab in abis(T, isa, tier, packed=False):
                base = Abi(n)
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                for nm in FN1 + FN2 + ('sincos',):
                    two = nm in FN2
                    outs = ['r', 'r2'] if nm == 'sincos' else ['r']

                    def sp(c, two=two, outs=outs):
                        for o in outs:
                            r, q = c.out(o), c.out('q' + o)
                            a, b = [c.lanes('a')], [c.lanes('s')]
                            if two:
                                a.append(c.lanes('b'))
                                b.append(c.lanes('u'))
                            for i, x in enumerate(r):
                                # when every lane of the second vector holds the operand of lane i
                                env, hyp = {}, t.TRUE()
                                for al, bl in zip(a, b):
                                    env.update({y.id: al[i] for y in bl if y.op == 'var'})
                                    for y in bl:
                                        hyp = t.and_(hyp, t.eq(y, al[i]))
                                yield '%s[%d]' % (o, i), t.implies(hyp, t.fsame(x, t.subst([q[0]], env)[0]))
                    args = [V('a', T, ab)] + ([V('b', T, ab)] if two else []) + [V('s', T, base)] + ([V('u', T, base)] if two else [])
                    args += [V(o, T, ab, 'o') for o in outs] + [V('q' + o, T, base, 'o') for o in outs]
                    if nm == 'sincos':
                        body = 'dpm::ext::sincos(a, r, r2); dpm::ext::sincos(s, qr, qr2);'
                    elif two:
                        body = 'r = dpm::%s(a, b); qr = dpm::%s(s, u);' % (nm, nm)
                    else:
                        body = 'r = dpm::%s(a); qr = dpm::%s(s);' % (nm, nm)
                    h = H('P20.%s.%s' % (nm, tag), isa, args, body, sp, deps=DEPS[nm], timeout=20)

                    def cand(c, env, rnd, two=two):
                        i = rnd.randrange(len(c.lanes('a')))
                        for x, y in (('a', 's'), ('b', 'u'))[:1 + two]:
                            v = t.evaluate([c.lanes(x)[i]], env)[0]
                            for z in c.init[y]:
                                if z.op == 'var':
                                    env[z.p] = v
                    h.cand = cand
                    yield h
