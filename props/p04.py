"""P04 bitwise operators and shifts"""
from .common import *

ID = 'P04'
BW = {'&': t.and_, '|': t.or_, '^': t.xor_}


def gen(tier):
    for isa in isas(tier):
        for T in INTS:
            w = 8 * size(T)
            for ab in abis(T, isa, tier):
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                nm = {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}
                for op in '&|^':
                    f = BW[op]

                    def sp(c, f=f, T=T):
                        return lanes_eq(c, T, [f(a, b) for a, b in zip(c.lanes('a'), c.lanes('b'))])
                    yield H('P04.%s.%s' % (nm[op], tag), isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = a %s b;' % op, sp)

                    def sp2(c, f=f, T=T):
                        return lanes_eq(c, T, [f(a, c.lanes('s')[0]) for a in c.lanes('a')])
                    yield H('P04.%s_scalar.%s' % (nm[op], tag), isa, [V('a', T, ab), A('s', T, 1), V('r', T, ab, 'o')], 'r = a %s s;' % op, sp2)

                    def sp3(c, f=f, T=T):
                        return lanes_eq(c, T, [f(a, b) for a, b in zip(c.lanes('a'), c.lanes('b'))], 'a')
                    yield H('P04.%s_assign.%s' % (nm[op], tag), isa, [V('a', T, ab, 'io'), V('b', T, ab)], 'a %s= b;' % op, sp3)

                def inv(c, T=T):
                    return lanes_eq(c, T, [t.not_(a) for a in c.lanes('a')])
                yield H('P04.not.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = ~a;', inv)

                def lnot(c, T=T):
                    return mask_eq(c, [t.eq(a, const(0, a.w)) for a in c.lanes('a')])
                yield H('P04.lnot.' + tag, isa, [V('a', T, ab), M('r', T, ab, 'o')], 'r = !a;', lnot)

                for op in ('<<', '>>'):
                    f = t.shl if op == '<<' else (t.ashr if issigned(T) else t.lshr)

                    def pre(c, w=w):
                        return [t.ult(b, const(w, w)) for b in c.lanes('b')]

                    def sp(c, f=f, T=T):
                        return lanes_eq(c, T, [f(a, b) for a, b in zip(c.lanes('a'), c.lanes('b'))])
                    yield H('P04.%s.%s' % (nm[op], tag), isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = a %s b;' % op, sp, pre=pre)

                    def sp3(c, f=f, T=T):
                        return lanes_eq(c, T, [f(a, b) for a, b in zip(c.lanes('a'), c.lanes('b'))], 'a')
                    yield H('P04.%s_assign.%s' % (nm[op], tag), isa, [V('a', T, ab, 'io'), V('b', T, ab)], 'a %s= b;' % op, sp3, pre=pre)

                    def pren(c, w=w):
                        return [t.ult(c.lanes('n')[0], const(w, 32))]

                    def spn(c, f=f, T=T, w=w):
                        n = c.lanes('n')[0]
                        n = t.trunc(n, w) if w < 32 else t.zext(n, w)
                        return lanes_eq(c, T, [f(a, n) for a in c.lanes('a')])
                    def pret(c, w=w):
                        return [t.ult(c.lanes('n')[0], const(w, w))]

                    def spt(c, f=f, T=T, w=w):
                        return lanes_eq(c, T, [f(a, c.lanes('n')[0]) for a in c.lanes('a')])
                    if T != 'i32':
                        yield H('P04.%s_t.%s' % (nm[op], tag), isa, [V('a', T, ab), A('n', T, 1), V('r', T, ab, 'o')], 'r = a %s n;' % op, spt, pre=pret)
                    yield H('P04.%s_n.%s' % (nm[op], tag), isa, [V('a', T, ab), A('n', 'i32', 1), V('r', T, ab, 'o')], 'r = a %s n;' % op, spn, pre=pren)

                    def spna(c, f=f, T=T, w=w):
                        n = c.lanes('n')[0]
                        n = t.trunc(n, w) if w < 32 else t.zext(n, w)
                        return lanes_eq(c, T, [f(a, n) for a in c.lanes('a')], 'a')
                    yield H('P04.%s_n_assign.%s' % (nm[op], tag), isa, [V('a', T, ab, 'io'), A('n', 'i32', 1)], 'a %s= n;' % op, spna, pre=pren)
                digits = w - 1 if issigned(T) else w
                ns = sorted({0, 1, w // 2 - 1, w // 2, w // 2 + 1, digits - 1}) if tier == 'quick' else range(digits)
                if tier == 'quick' and ab.N > 2 * n128(T):
                    ns = [1, w // 2]
                for fn, f in (('lsl', t.shl), ('lsr', t.lshr), ('asl', t.shl), ('asr', t.ashr)):
                    if fn[0] == 'a' and not issigned(T):
                        continue
                    for k in ns:
                        def spk(c, f=f, k=k, T=T, w=w):
                            return lanes_eq(c, T, [f(a, const(k, w)) for a in c.lanes('a')])
                        yield H('P04.%s%d.%s' % (fn, k, tag), isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = ext::%s<%d>(a);' % (fn, k), spk)
