"""P03 lane-wise arithmetic"""
from .common import *

ID = 'P03'


def arith(T, op, a, b):
    w = a.w
    if isf(T):
        return t.fop({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], (a, b), w)
    if op == '+':
        return t.add(a, b)
    if op == '-':
        return t.sub(a, b)
    if op == '*':
        return t.mul(a, b)
    if w < 32:      # promoted to int
        e = t.sext if issigned(T) else t.zext
        x, y = e(a, 32), e(b, 32)
        return t.trunc((t.sdiv if op == '/' else t.srem)(x, y), w)
    if op == '/':
        return (t.sdiv if issigned(T) else t.udiv)(a, b)
    return (t.srem if issigned(T) else t.urem)(a, b)


def divok(T, a, b):
    ok = t.ne(b, const(0, b.w))
    if issigned(T) and a.w >= 32:
        ok = t.and_(ok, t.not_(t.and_(t.eq(b, t.ones(b.w)), t.eq(a, minint(a.w)))))
    return ok


def gen(tier):
    for isa in isas(tier):
        for T in ALL:
            for ab in abis(T, isa, tier):
                ops = ['+', '-', '*', '/'] + ([] if isf(T) else ['%'])
                tag = '%s.%s.%s' % (T, ab.tag(), isa)
                nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem'}
                for op in ops:
                    div = op in '/%' and not isf(T)
                    if div and tier == 'quick' and ab.N > 5:
                        continue

                    def sp(c, op=op, T=T):
                        return lanes_eq(c, T, [arith(T, op, a, b) for a, b in zip(c.lanes('a'), c.lanes('b'))])

                    def pre(c, T=T):
                        return [divok(T, a, b) for a, b in zip(c.lanes('a'), c.lanes('b'))]
                    p = pre if div else None
                    yield H('P03.%s.%s' % (nm[op], tag), isa, [V('a', T, ab), V('b', T, ab), V('r', T, ab, 'o')], 'r = a %s b;' % op, sp, pre=p)

                    def sp2(c, op=op, T=T):
                        return lanes_eq(c, T, [arith(T, op, a, c.lanes('s')[0]) for a in c.lanes('a')])

                    def pre2(c, T=T):
                        return [divok(T, a, c.lanes('s')[0]) for a in c.lanes('a')]
                    yield H('P03.%s_scalar.%s' % (nm[op], tag), isa, [V('a', T, ab), A('s', T, 1), V('r', T, ab, 'o')],
                            'r = a %s s;' % op, sp2, pre=pre2 if div else None)
                    def sp3(c, op=op, T=T):
                        return lanes_eq(c, T, [arith(T, op, a, b) for a, b in zip(c.lanes('a'), c.lanes('b'))], 'a')
                    yield H('P03.%s_assign.%s' % (nm[op], tag), isa, [V('a', T, ab, 'io'), V('b', T, ab)], 'a %s= b;' % op, sp3, pre=p)

                    def sp4(c, op=op, T=T):
                        return lanes_eq(c, T, [arith(T, op, a, c.lanes('s')[0]) for a in c.lanes('a')], 'a')
                    yield H('P03.%s_assign_scalar.%s' % (nm[op], tag), isa, [V('a', T, ab, 'io'), A('s', T, 1)], 'a %s= s;' % op, sp4,
                            pre=pre2 if div else None)

                def neg(c, T=T):
                    return lanes_eq(c, T, [t.fneg(a) if isf(T) else t.neg(a) for a in c.lanes('a')])
                yield H('P03.neg.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = -a;', neg)

                def pos(c, T=T):
                    return lanes_eq(c, T, c.lanes('a'))
                yield H('P03.pos.' + tag, isa, [V('a', T, ab), V('r', T, ab, 'o')], 'r = +a;', pos)
                for nm2, pf, op in (('preinc', '++a', '+'), ('predec', '--a', '-'), ('postinc', 'a++', '+'), ('postdec', 'a--', '-')):
                    def inc(c, T=T, op=op, nm2=nm2):
                        w = 8 * size(T)
                        one = fconst(1, w) if isf(T) else const(1, w)
                        new = [arith(T, op, a, one) for a in c.lanes('a')]
                        yield from lanes_eq(c, T, new, 'a')
                        yield from lanes_eq(c, T, new if nm2.startswith('pre') else c.lanes('a'), 'r')
                    yield H('P03.%s.%s' % (nm2, tag), isa, [V('a', T, ab, 'io'), V('r', T, ab, 'o')], 'r = %s;' % pf, inc)
