"""Exact-integer reasoning about floating-point chains.

Terms such as `(bitcast(hi | 2^84) - (2^84 + 2^52)) + bitcast(lo | 2^52)` are sums of exactly represented
integers with a single rounding at the end.  `rewrite` replaces such chains by `sitofp(n)` for a wide
bit-vector n, after the solver has shown that every intermediate sum is exact.
"""
from fractions import Fraction
from . import term as t
from . import fpc

W = 192
LIM = 150


class Exact:
    def __init__(self, prove):
        self.prove = prove          # prove(bool term) -> True if valid
        self.memo = {}
        self.used = False
        self.negz = set()           # terms whose zeros may be negative
        self.nz = 0

    def value(self, x):
        """(n, s, bits, exact): x = round(n * 2^s), -0 only if in negz, never NaN/inf; or None"""
        r = self.memo.get(x.id, 0)
        if r == 0:
            r = self.memo[x.id] = self._value(x)
        return r

    def _value(self, x):
        w = x.w
        e, m = t.FMT[w]
        if x.op == 'const':
            if fpc.isnan(x.p, w) or fpc.isinf(x.p, w) or x.p == 1 << (w - 1):
                return None
            f = fpc.frac(x.p, w)
            s = 0
            while f.denominator != 1:
                f, s = f * 2, s - 1
            n = f.numerator
            while n and n % 2 == 0:
                n, s = n // 2, s + 1
            if n.bit_length() > LIM:
                return None
            return t.const(n, W), s, n.bit_length(), True
        if x.op == 'f:sitofp' or x.op == 'f:uitofp':
            a = x.args[0]
            if a.w >= W:
                return None
            return (t.sext(a, W) if x.op == 'f:sitofp' else t.zext(a, W)), 0, a.w, a.w - (x.op == 'f:sitofp') <= m + 1
        if x.op in ('f:add', 'f:sub'):
            p, q = self.value(x.args[0]), self.value(x.args[1])
            if not p or not q or not p[3] or not q[3]:
                return None
            s = min(p[1], q[1])
            bits = max(p[2] + p[1] - s, q[2] + q[1] - s) + 1
            if bits > LIM or bits + s > (120 if w == 32 else 1000):
                return None
            a, b = t.shl(p[0], t.const(p[1] - s, W)), t.shl(q[0], t.const(q[1] - s, W))
            n = t.add(a, b) if x.op == 'f:add' else t.sub(a, b)
            ex = bits <= m + 1
            for drop in ([] if ex else [0, min(p[1], q[1]) - s] + [k for k in (8, 16, 32) if k < bits]):
                k = t.const((1 << (m + 1 + drop)), W)
                fits = t.and_(t.sle(n, k), t.sle(t.neg(k), n))
                if drop:
                    fits = t.and_(fits, t.eq(t.extract(n, drop - 1, 0), t.const(0, drop)))
                if self.prove(fits):
                    ex = True
                    break
            self.used = True
            if x.args[0].id in self.negz or x.args[1].id in self.negz:
                self.negz.add(x.id)
            return n, s, bits, ex
        if x.op == 'f:mul' and any(a.op == 'const' for a in x.args):
            c, y = (x.args[0], x.args[1]) if x.args[0].op == 'const' else (x.args[1], x.args[0])
            c, v = self.value(c), self.value(y)
            if not c or not v or not v[3] or c[0].p != 1 or v[2] + v[1] + c[1] > (120 if w == 32 else 1000) or v[1] + c[1] < (-100 if w == 32 else -1000):
                return None
            self.used = True
            if y.id in self.negz:
                self.negz.add(x.id)
            return v[0], v[1] + c[1], v[2], True
        if x.op in ('f:mul', 'f:fma'):
            # product of two exact integers; a zero may come out negative
            p, q = self.value(x.args[0]), self.value(x.args[1])
            if not p or not q or not p[3] or not q[3]:
                return None
            n, s, bits = t.mul(p[0], q[0]), p[1] + q[1], p[2] + q[2]
            if bits > LIM or bits + s > (120 if w == 32 else 1000) or s < (-100 if w == 32 else -1000):
                return None
            if x.op == 'f:fma':
                r = self.value(x.args[2])
                if not r or not r[3]:
                    return None
                z = min(s, r[1])
                bits = max(bits + s - z, r[2] + r[1] - z) + 1
                if bits > LIM:
                    return None
                n = t.add(t.shl(n, t.const(s - z, W)), t.shl(r[0], t.const(r[1] - z, W)))
                s = z
            ex = bits <= m + 1
            if not ex:
                k = t.const(1 << (m + 1), W)
                ex = self.prove(t.and_(t.sle(n, k), t.sle(t.neg(k), n)))
            if not ex:
                return None
            self.used = True
            self.negz.add(x.id)
            return n, s, bits, True
        ny = t._fnegated(x)
        if ny is not None:
            v = self.value(ny)
            if v:
                self.negz.add(x.id)
                return t.neg(v[0]), v[1], v[2] + 1, v[3]
            return None
        if x.op.startswith('f:') or x.op == 'var' or x.op == 'ite':
            return None
        # bit pattern with a constant sign and exponent
        top = t.extract(x, w - 1, m)
        c = t.evaluate([top], {})[0]
        if (c & ((1 << e) - 1)) in (0, (1 << e) - 1):
            return None
        if top.op != 'const' and not self.prove(t.eq(top, t.const(c, e + 1))):
            return None
        n = t.zext(t.or_(t.extract(x, m - 1, 0), t.const(0, m)), W)
        n = t.or_(n, t.const(1 << m, W))
        if c >> e:
            n = t.neg(n)
        self.used = True
        return n, (c & ((1 << e) - 1)) - ((1 << (e - 1)) - 1) - m, m + 1, True


def rewrite(conds, prove):
    ex = Exact(prove)
    memo = {}
    st = list(conds)
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        r = None
        if x.op in ('f:add', 'f:sub', 'f:mul', 'f:fma', 'f:sitofp', 'f:uitofp'):
            v = ex.value(x)
            if v:
                n, s, b, _ = v
                if s < 0:
                    # drop provably zero fraction bits
                    if prove(t.eq(t.extract(n, -s - 1, 0), t.const(0, -s))):
                        n, s = t.ashr(n, t.const(-s, W)), 0
                if s >= 0 and b + s < LIM:
                    n = t.shl(n, t.const(s, W))
                    r = t.fop('sitofp', (n,), x.w)
                    if x.id in ex.negz:
                        z = t.var('fexact.z%d' % x.id, 1)
                        r = t.ite(t.eq(n, t.const(0, W)), t.concat(z, t.const(0, x.w - 1)), r)
        if r is None:
            a = tuple(memo[y.id] for y in x.args)
            r = x if all(p is q for p, q in zip(a, x.args)) else t._mk(x.op, a, x.w, x.p)
        memo[x.id] = r
    return [memo[c.id] for c in conds] if ex.used else None
