"""Accuracy of straight-line floating-point code against a real function.

The lane term of a native function is cut into cells: intervals of operand bit patterns on which every integer
and boolean subterm (branches, blends, table indices, quadrants, exponents) is constant.  That a cell has these
constants is one bit-vector query.  What remains is an expression of +, -, *, /, fma and sqrt over the operand,
read as a real function R(x) plus a rounding error bounded by rational interval arithmetic.  R is a polynomial
or rational function (in the square root of the argument where one is taken); that it stays within the rest of
the tolerance of the mathematical function is a polynomial inequality decided over the reals by Z3."""
from fractions import Fraction as F
import time
import mpmath
import z3
from . import term as t, fpc, smt

mpmath.mp.prec = 260
PREC = {32: 24, 64: 53}
EMIN = {32: -149, 64: -1074}


class Stuck(Exception):
    def __init__(self, what, point=None):
        Exception.__init__(self, what)
        self.point = point


# ---------------------------------------------------------------- numbers
def fv(b, w):
    return fpc.frac(b, w)


def flog2(x):
    """floor(log2(x)) of a positive fraction"""
    k = x.numerator.bit_length() - x.denominator.bit_length()
    if F(2) ** k > x:
        k -= 1
    elif F(2) ** (k + 1) <= x:
        k += 1
    return k


def p2(k):
    return F(1 << k) if k >= 0 else F(1, 1 << -k)


def up(x, bits=64):
    """x rounded up to few bits (x >= 0)"""
    if x == 0:
        return x
    s = bits - flog2(x)
    return F(-((-x.numerator << s) // x.denominator), 1 << s) if s >= 0 else F(-(-x.numerator // (x.denominator << -s)) << -s)


def dn(x, bits=64):
    return -up(-x, bits) if x < 0 else (x if x == 0 else x - up(x, bits) + x if False else _dn(x, bits))


def _dn(x, bits):
    s = bits - flog2(x)
    return F((x.numerator << s) // x.denominator, 1 << s) if s >= 0 else F((x.numerator // (x.denominator << -s)) << -s)


def iup(x):
    return up(x) if x > 0 else -_dn(-x, 64) if x < 0 else x


def idn(x):
    return -iup(-x)


def mpf(x):
    return mpmath.mpf(x.numerator) / x.denominator


def frac_of(m):
    """exact fraction of an mpf"""
    s, man, e, _ = m._mpf_
    v = F(int(man)) * p2(int(e))
    return -v if s else v


# ---------------------------------------------------------------- polynomials (lists of fractions, low degree first)
def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    return [x + b[i] if i < len(b) else x for i, x in enumerate(a)]


def pneg(a):
    return [-x for x in a]


def pmul(a, b):
    if not a or not b:
        return []
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if y:
                    r[i + j] += x * y
    return trim(r)


def trim(a):
    while a and a[-1] == 0:
        a = a[:-1]
    return a


def pder(a):
    return [i * x for i, x in enumerate(a)][1:]


def pev(a, x):
    r = F(0)
    for c in reversed(a):
        r = r * x + c
    return r


def prange(a, lo, hi):
    """enclosure of the polynomial on [lo, hi] (interval Horner around the midpoint-free form)"""
    rl = rh = F(0)
    for c in reversed(a):
        q = (rl * lo, rl * hi, rh * lo, rh * hi)
        rl, rh = idn(min(q) + c), iup(max(q) + c)
    return rl, rh


class Val:
    """value of a node: (num/den)(z), |computed - real| <= E, multiple of 2^g"""
    __slots__ = ('n', 'd', 'E', 'g', 'lo', 'hi')

    def __init__(self, n, d, E, g, lo, hi):
        self.n, self.d, self.E, self.g, self.lo, self.hi = n, d, E, g, lo, hi

    @property
    def mx(self):
        return max(abs(self.lo), abs(self.hi)) + self.E

    @property
    def mn(self):
        """lower bound of the magnitude of the computed value"""
        m = self.lo if self.lo > 0 else -self.hi if self.hi < 0 else F(0)
        return max(F(0), m - self.E)


class Real:
    """real-valued reading of an FP term on a piece lo <= z <= hi"""

    def __init__(self, w, lo, hi):
        self.w, self.lo, self.hi, self.memo = w, lo, hi, {}

    def rng(self, n, d):
        a, b = prange(n, self.lo, self.hi)
        if d is None:
            return a, b
        c, e = prange(d, self.lo, self.hi)
        if c <= 0 <= e:
            raise Stuck('denominator may vanish')
        q = (a / c, a / e, b / c, b / e)
        return idn(min(q)), iup(max(q))

    def const(self, b, w):
        if t.isnan(t.const(b, w)).p or t.isinf(t.const(b, w)).p:
            raise Stuck('not a finite constant')
        v = fv(b, w)
        g = None
        if v:
            g = (v.numerator & -v.numerator).bit_length() - 1 - (v.denominator.bit_length() - 1)
        return Val([v] if v else [], None, F(0), g if v else 1 << 20, v, v)

    def rnd(self, n, d, E, g, w=None):
        """the value after rounding; g: grid of the unrounded result"""
        w = w or self.w
        p = PREC[w]
        lo, hi = self.rng(n, d)
        mx = max(abs(lo), abs(hi)) + E
        if g == 'x':
            # the operand itself, a number of the format
            r = Val(n, d, E, None, lo, hi)
            r.g = max(EMIN[w], flog2(r.mn) - p + 1) if r.mn else EMIN[w]
            return r
        if g is not None and g >= EMIN[w] and mx <= p2(min(g + p, 4000)):
            return Val(n, d, E, g, lo, hi)
        if mx >= p2(1000 if w == 64 else 127):
            raise Stuck('overflow')
        e = max(EMIN[w], flog2(mx) - p + 1) if mx else EMIN[w]
        r = Val(n, d, up(E + p2(e - 1)), None, lo, hi)
        gg = EMIN[w]
        if r.mn:
            gg = max(gg, flog2(r.mn) - p + 1)
        if g is not None and g < 4000:
            gg = max(gg, g)
        r.g = gg
        return r

    def add(self, x, y, s=1):
        if not y.n and not y.E:
            return x.n, x.d, x.E, 'x' if x.E or x.g is None else x.g
        if not x.n and not x.E and s > 0:
            return y.n, y.d, y.E, 'x' if y.E or y.g is None else y.g
        n, d = self.addf((x.n, x.d), (y.n, y.d), s)
        g = None if x.g is None or y.g is None else min(x.g, y.g)
        return n, d, x.E + y.E, g

    @staticmethod
    def addf(x, y, s):
        yn = y[0] if s > 0 else pneg(y[0])
        if x[1] is None and y[1] is None:
            return trim(padd(x[0], yn)), None
        if x[1] is None:
            return trim(padd(pmul(x[0], y[1]), yn)), y[1]
        if y[1] is None:
            return trim(padd(x[0], pmul(yn, x[1]))), x[1]
        if x[1] == y[1]:
            return trim(padd(x[0], yn)), x[1]
        return trim(padd(pmul(x[0], y[1]), pmul(yn, x[1]))), pmul(x[1], y[1])

    def mul(self, x, y):
        d = x.d if y.d is None else y.d if x.d is None else pmul(x.d, y.d)
        ax, ay = x.mx - x.E, y.mx - y.E
        g = None if x.g is None or y.g is None else x.g + y.g
        return pmul(x.n, y.n), d, up(ax * y.E + ay * x.E + x.E * y.E), g

    def op(self, x, a):
        nm = x.op[2:]
        if nm == 'add':
            return self.rnd(*self.add(a[0], a[1]))
        if nm == 'sub':
            return self.rnd(*self.add(a[0], a[1], -1))
        if nm == 'mul':
            return self.rnd(*self.mul(a[0], a[1]))
        if nm == 'fma':
            n, d, E, g = self.mul(a[0], a[1])
            lo, hi = self.rng(n, d)
            if n and not a[2].n and not a[2].E:
                return self.rnd(n, d, E, g)
            return self.rnd(*self.add(Val(n, d, E, g, lo, hi), a[2]))
        if nm == 'div':
            X, Y = a
            if not Y.mn:
                raise Stuck('division by an interval around zero')
            n = X.n if Y.d is None else pmul(X.n, Y.d)
            d = Y.n if X.d is None else pmul(X.d, Y.n)
            ry = Y.mn + Y.E
            E = up((X.E + (X.mx - X.E) * Y.E / ry) / Y.mn)
            if len(d) == 1:
                n, d = [c / d[0] for c in n], None
            return self.rnd(n, d, E, None)
        if nm in ('fpext', 'fptrunc'):
            v = a[0]
            if nm == 'fpext':
                return v
            return self.rnd(v.n, v.d, v.E, v.g, 32)
        raise Stuck('operation ' + nm)

    def value(self, root, leaf):
        """leaf(node) -> Val or None"""
        memo = self.memo
        st = [root]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            v = leaf(x)
            if v is None and x.op == 'const':
                v = self.const(x.p, x.w)
            if v is not None:
                memo[x.id] = v
                st.pop()
                continue
            k = signed(x)
            args = (k[0],) if k else x.args
            if not k and not x.op.startswith('f:'):
                raise Stuck('term ' + t.show(x, 2)[:120])
            todo = [y for y in args if y.id not in memo]
            if todo:
                st.extend(todo)
                continue
            a = [memo[y.id] for y in args]
            if k:
                v = a[0]
                how = k[1]
                if how == 'abs':
                    if v.lo >= v.E:
                        how = 'id'
                    elif v.hi <= -v.E:
                        how = 'neg'
                    else:
                        raise Stuck('sign of an operand')
                v = v if how == 'id' else Val(pneg(v.n), v.d, v.E, v.g, -v.hi, -v.lo)
            else:
                v = self.op(x, a)
            memo[x.id] = v
            st.pop()
        return memo[root.id]


def signed(x):
    """(y, 'neg' | 'abs') when x is y with its sign changed"""
    w = x.w
    if w not in t.FMT:
        return None
    m = 1 << (w - 1)
    if x.op == 'xor':
        for c, y in (x.args, x.args[::-1]):
            if c.op == 'const' and c.p == m:
                return y, 'neg'
    if x.op == 'and':
        for c, y in (x.args, x.args[::-1]):
            if c.op == 'const' and c.p == m - 1:
                return y, 'abs'
    if x.op == 'concat' and len(x.args) == 2:
        a, b = x.args
        if b.op == 'extract' and b.p == 0:
            y, k = b.args[0], b.w
            if y.w == w:
                if a.op == 'xor':
                    for c, z in (a.args, a.args[::-1]):
                        if c.op == 'const' and c.p == 1 << (a.w - 1) and z.op == 'extract' and z.p == k and z.args[0] is y:
                            return y, 'neg'
                if a.op == 'not' and a.w == 1 and a.args[0].op == 'extract' and a.args[0].args[0] is y and a.args[0].p == k:
                    return y, 'neg'
    if x.op == 'zext' and x.args[0].op == 'extract' and x.args[0].p == 0 and x.args[0].w == w - 1 and x.args[0].args[0].w == w:
        return x.args[0].args[0], 'abs'
    return None


# ---------------------------------------------------------------- cells
def order(roots):
    from .sweep import _order
    return _order(roots)


class Cells:
    """cells of a lane term over the operand x (positive bit patterns lo..hi)"""

    def __init__(self, root, x):
        self.root, self.x, self.w = root, x, x.w
        self.queries = 0
        self.qt = 0.0
        self.enc = None
        self.prep()

    def prep(self):
        root = self.root
        self.qs = []
        for _ in range(4):
            roots = [root] + [q for _, q in self.qs]
            o = order(roots)
            plain = set()
            for n in o:
                if not n.op.startswith('f:') and n.op != 'lut' and all(a.id in plain for a in n.args):
                    plain.add(n.id)
            users = {}
            for n in o:
                for a in n.args:
                    users.setdefault(a.id, []).append(n)
            leaves, seen = {}, set()
            st = list(roots)
            while st:
                n = st.pop()
                if n.id in seen:
                    continue
                seen.add(n.id)
                if n.op == 'const':
                    continue
                if n.id in plain:
                    leaves[n.id] = n
                    continue
                st.extend(n.args)
            # pieces of concat(xor(sign, high bits of y), low bits of y)
            plumb = set()
            for n in o:
                if n.op == 'concat' and n.w in t.FMT and len(n.args) == 2 and n.args[1].op == 'extract' and n.args[1].p == 0:
                    y, k = n.args[1].args[0], n.args[1].w
                    for e in (n.args[0].args if n.args[0].op in ('xor', 'not') else ()):
                        if e.op == 'extract' and e.p == k and e.args[0] is y and y.w == n.w:
                            plumb.update((n.id, n.args[0].id))
                            break
            def through(u):
                return u.op == 'extract' and all(v.id in plumb or v.id not in seen or signed(v) for v in users.get(u.id, ())) or plumbing(u)

            def plumbing(u):
                """bits that go to the result only"""
                st, mk = [(u, False)], set()
                while st:
                    v, masked = st.pop()
                    masked = masked or v.op in ('and', 'or')
                    if (v.id, masked) in mk or v.id not in seen:
                        continue
                    mk.add((v.id, masked))
                    if v.op not in ('extract', 'concat', 'ite', 'and', 'or', 'xor', 'not'):
                        return False
                    for k in users.get(v.id, ()):
                        if k.op == 'ite' and k.args[0] is v:
                            return False
                        if k.op.startswith('f:') and v.op in ('concat', 'ite') and not masked:
                            continue
                        st.append((k, masked))
                return True
            # a floating-point value whose bits steer the evaluation
            bad = None
            for n in o:
                if n.id in seen and n.id not in plain and (n.op.startswith('f:') or n.op == 'ite') and n.w in t.FMT:
                    if any(u.id in seen and not u.op.startswith('f:') and not self.value_use(u, n) and not through(u) for u in users.get(n.id, ())):
                        bad = n
                        break
            if bad is None:
                break
            v = t.var('steer!%d' % len(self.qs), bad.w)
            self.qs.append((v, bad))
            rep = {}
            for u in users[bad.id]:
                if not u.op.startswith('f:') and not self.value_use(u, bad) and not through(u):
                    rep[u.id] = t.rebuild(u.op, tuple(v if a is bad else a for a in u.args), u.w, u.p)
            root = t.subst([root], rep)[0]
        self.root = root
        self.leaves = list(leaves.values())
        ids = {v.id: k for k, (v, _) in enumerate(self.qs)}
        self.stage = []
        for n in self.leaves:
            self.stage.append(max([ids[m.id] + 1 for m in order([n]) if m.id in ids], default=0))

    @staticmethod
    def value_use(u, n):
        if u.op == 'ite':
            return any(a is n for a in u.args[1:])
        if u.op == 'lut':
            return False
        if signed(u) is not None:
            return True
        if u.op == 'or' and u.w in t.FMT and all(a.op == 'ite' or a.op.startswith('f:') for a in u.args):
            return True         # two masked operands
        if u.op == 'xor' and u.w in t.FMT:
            # a sign taken from elsewhere
            m = 1 << (u.w - 1)
            return any(s is not n and s.op == 'and' and any(c.op == 'const' and c.p == m for c in s.args) for s in u.args)
        return False

    def at(self, b):
        """values of the leaves for the operand with bits b"""
        env = {self.x.p: b}
        for v, q in self.qs:
            env[v.p] = t.evaluate([q], env)[0]
        self.env = env
        return t.evaluate(self.leaves, env, memo={})

    def sig(self, b):
        """per leaf: constant value, or offset of an affine leaf"""
        v = self.at(b)
        e = self.env
        v2 = self.at(b + 1)
        e2 = self.env
        M = (1 << self.w) - 1
        r = []
        for l, p, q, k in zip(self.leaves, v, v2, self.stage):
            if p == q or l.w not in t.FMT:
                r.append(('c', p))
            elif l.w != self.w:
                r.append(None)
            elif (q - p) & M == 1 or not k:
                r.append(('a', (p - b) & M) if (q - p) & M == 1 else None)
            else:
                # a steering value plus a constant
                n = self.qs[k - 1][0].p
                r.append(('s', (p - e[n]) & M, n) if (p - e[n]) & M == (q - e2[n]) & M and self.qs[k - 1][1].w == self.w else None)
        return r

    def holds(self, sg, b):
        M = (1 << self.w) - 1
        v = self.at(b)
        return all(s is not None and (v == s[1] if s[0] == 'c' else v == (b + s[1]) & M if s[0] == 'a' else v == (self.env[s[2]] + s[1]) & M) for s, v in zip(sg, v))

    def cells(self, lo, hi):
        """(lo, hi, signature) covering lo..hi"""
        b = lo
        step = max(1, (hi - lo) // 64)
        while b <= hi:
            sg = self.sig(b) if b < hi else [('c', v) for v in self.at(b)]
            if not self.holds(sg, min(b + 1, hi)):
                sg = [('c', v) for v in self.at(b)]
                yield b, b, sg
                b += 1
                continue
            good, bad = b, None
            s = step
            while bad is None and good < hi:
                c = min(hi, good + s)
                if self.holds(sg, c):
                    good, s = c, s * 2
                else:
                    bad = c
            while bad is not None and bad - good > 1:
                c = (good + bad) // 2
                if self.holds(sg, c):
                    good = c
                else:
                    bad = c
            step = max(1, good - b)
            yield b, good, sg
            b = good + 1

    def monotone(self, n):
        """+1/-1 when the FP subterm is a monotone function of the operand (a chain of operations with constants)"""
        x = self.x
        s = 1
        while n is not x:
            k = signed(n)
            if n.op in ('f:add', 'f:sub', 'f:mul', 'f:div'):
                c = [a.op == 'const' for a in n.args]
                if c == [False, True]:
                    if n.op in ('f:mul', 'f:div') and n.args[1].p >> (n.w - 1):
                        s = -s
                    n = n.args[0]
                elif c == [True, False] and n.op in ('f:add', 'f:mul', 'f:sub'):
                    if n.op == 'f:sub' or n.op == 'f:mul' and n.args[0].p >> (n.w - 1):
                        s = -s
                    n = n.args[1]
                else:
                    return 0
            elif n.op == 'f:fma' and n.args[2].op == 'const' and [a.op == 'const' for a in n.args[:2]] in ([True, False], [False, True]):
                c, y = n.args[:2] if n.args[0].op == 'const' else n.args[1::-1]
                if c.p >> (n.w - 1):
                    s = -s
                n = y
            elif n.op in ('f:sqrt', 'f:fpext', 'f:fptrunc'):
                n = n.args[0]
            elif k and k[1] == 'abs':
                n = k[0]        # operands are positive
            else:
                return 0
        return s

    def verify(self, lo, hi, sg):
        """the signature holds on the whole cell (one bit-vector query); returns the FP term with the constants in place"""
        x = self.x
        hyp, sub = [], {}
        self.aff = {}
        for k in range(len(self.qs) + 1):
            if k:
                v, q = self.qs[k - 1]
                q = t.subst([q], sub)[0]
                if not any(m.op.startswith('f:') or m.op == 'lut' for m in order([q])):
                    hyp.append(t.eq(v, q))
                    rel = None
                else:
                    rel = self.bounds(q, lo, hi)
                if rel is None:
                    pass
                elif rel[0] is None:
                    hyp.append(t.not_(t.ult(t.const(rel[1], self.w - 1), t.fmagn(v))))
                else:
                    a, b = rel
                    hyp += [t.not_(t.ult(v, t.const(a, self.w))), t.not_(t.ult(t.const(b, self.w), v))]
            neg = []
            for n, s, j in zip(self.leaves, sg, self.stage):
                if j != k:
                    continue
                if s[0] == 'c':
                    c = t.const(s[1], n.w)
                    neg.append(t.not_(t.eq(n, c)))
                    sub[n.id] = c
                elif s[0] == 's':
                    v, d = self.qs[k - 1][0], s[1]
                    neg.append(t.not_(t.eq(n, t.add(v, t.const(d, self.w)))))
                    e, m = t.FMT[self.w]
                    if d & ((1 << m) - 1):
                        raise Stuck('steering value with shifted bits')
                    d = d >> m
                    d = d - (1 << (e + 1)) if d >> e else d
                    # read as an exact scaling: checked to be in range by the bounds of the value
                    sub[n.id] = q if not d else self.scaled(q, d, lo, hi)
                else:
                    neg.append(t.not_(t.eq(n, t.add(x, t.const(s[1], self.w)))))
                    if s[1] == 0:
                        sub[n.id] = x
                    else:
                        v = t.var('leaf!%x' % s[1], self.w)
                        self.aff[v.id] = s[1]
                        sub[n.id] = v
            if not self.unsat(lo, hi, hyp, neg):
                raise Stuck('cell', self.model)
        return t.subst([self.root], sub)[0]

    def scaled(self, q, k, lo, hi):
        a, b = self.bounds(q, lo, hi)
        w = self.w
        e, m = t.FMT[w]
        x, y = sorted((fv(a, w), fv(b, w)))
        c = p2(k)
        if x <= 0 or x < p2(EMIN[w] + m + 1) or x * c < p2(EMIN[w] + m + 1) or y * c >= p2((1 << (e - 1)) - 1):
            raise Stuck('range of a scaled value')
        # in steps that are numbers of the format
        while k:
            s = max(-(1 << (e - 2)), min(1 << (e - 2), k))
            q = t._mk('f:mul', (q, t.const(fpc.from_frac(p2(s), w), w)), w)
            k -= s
        return q

    def bounds(self, q, lo, hi):
        """bit patterns between which a steering value (of constant sign) lies"""
        if q.op == 'const':
            return q.p, q.p
        s = self.monotone(q)
        w = self.w
        if s:
            a, b = (t.evaluate([q], {self.x.p: v})[0] for v in ((lo, hi) if s > 0 else (hi, lo)))
        else:
            xl, xh = fv(lo, w), fv(hi, w)
            f = Fn(w, 1)
            v = Real(w, F(0), xh - xl).value(q, f.leaf(self.x, self.aff, xl, xh, [xl, F(1)]))
            a, b = v.lo - v.E, v.hi + v.E
            a, b = fpc.from_frac(idn(a), w), fpc.from_frac(iup(b), w)
            a, b = (a - 1 if not a >> (w - 1) else a + 1) if a & ((1 << (w - 1)) - 1) else a, (b + 1 if not b >> (w - 1) else b - 1) if b & ((1 << (w - 1)) - 1) else b
        if a >> (w - 1) != b >> (w - 1):
            m = (1 << (w - 1)) - 1
            return None, max(a & m, b & m)
        return (b, a) if a >> (w - 1) else (a, b)

    def unsat(self, lo, hi, hyp, neg):
        neg = [n for n in neg if not (n.op == 'const' and n.p == 0)]
        if not neg:
            return True
        t0 = time.time()
        s = z3.SolverFor('QF_BV')
        s.set('timeout', 10000)
        if self.enc is None:
            self.enc = smt.Enc('bv')
        enc = self.enc
        for h in [t.not_(t.ult(self.x, t.const(lo, self.w))), t.not_(t.ult(t.const(hi, self.w), self.x))] + hyp:
            s.add(enc.enc(h))
        s.add(z3.Or(*[enc.enc(n) for n in neg]))
        r = s.check()
        self.queries += 1
        self.qt += time.time() - t0
        self.model = None
        if r == z3.sat:
            v = enc.vars.get(self.x.p)
            self.model = s.model().eval(v[0], model_completion=True).as_long() if v else None
        return r == z3.unsat

    def split(self, lo, hi):
        """(lo, hi, term or None, affine leaves, reason) for verified cells; isolated exceptional points get their own"""
        for a, b, sg in self.cells(lo, hi):
            st = [(a, b, sg, 6)]
            while st:
                a, b, sg, d = st.pop()
                try:
                    z = self.verify(a, b, sg)
                    yield a, b, z, dict(self.aff), None
                except Stuck as e:
                    m = e.point
                    if m is None or not d or not a <= m <= b:
                        yield a, b, None, None, str(e)
                        continue
                    for u, v in ((m + 1, b), (m, m), (a, m - 1)):
                        if u <= v:
                            st.append((u, v, self.sig(u) if u < v else [('c', k) for k in self.at(u)], d - 1))


# ---------------------------------------------------------------- polynomial inequalities
def compose(p, c, h):
    """p(c + h u) as a polynomial in u"""
    r = []
    for k in reversed(p):
        # r = r (c + h u) + k
        n = [c * v for v in r] + [F(0)]
        for i, v in enumerate(r):
            n[i + 1] += h * v
        n = n or [F(0)]
        n[0] += k
        r = n
    return r


class Poly:
    """decides inequalities of polynomials on an interval with Z3 over the reals"""
    GRAIN = 16

    def __init__(self):
        self.cache = {}
        self.queries = 0
        self.qt = 0.0

    @staticmethod
    def frame(lo, hi):
        """a slightly larger interval with short ends: centre and half width"""
        if lo == hi:
            return lo, F(0)
        h = (hi - lo) / 2
        k = flog2(h) - 24
        c = F(round((lo + hi) / 2 / p2(k))) * p2(k)
        return c, (F(int(h / p2(k))) + 2) * p2(k)

    def ints(self, p, unit):
        """integer coefficients of p / unit and a bound of the rounding error on [-1, 1]"""
        r, err = [], F(0)
        for c in p:
            v = c / unit
            n = round(v)
            err += abs(v - n)
            r.append(n)
        while r and not r[-1]:
            r.pop()
        return r, -(-err.numerator // err.denominator)

    def within(self, D, S, lo, hi):
        """|D| <= S (polynomials) on [lo, hi]; returns None or a point where it fails"""
        c, h = self.frame(lo, hi)
        D, S = compose(D, c, h), compose(S, c, h)
        m = min(pev(S, F(k, 4)) for k in range(-4, 5))
        if m <= 0:
            return c
        unit = p2(flog2(m) - self.GRAIN)
        D2, e1 = self.ints(D, unit)
        S2, e2 = self.ints(S, unit)
        S2 = S2 or [0]
        S2[0] -= e1 + e2
        u = self.decide(D2, S2)
        return None if u is None else c + h * u

    def nonneg(self, p, lo, hi):
        """p >= 0 on [lo, hi]"""
        c, h = self.frame(lo, hi)
        p = compose(p, c, h)
        m = min((pev(p, F(k, 4)), F(k, 4)) for k in range(-4, 5))
        if m[0] < 0:
            return c + h * m[1]
        m = max(m[0], p2(-400))
        p2_, e = self.ints(p, p2(flog2(m) - self.GRAIN))
        p2_ = p2_ or [0]
        p2_[0] -= e
        u = self.decide(None, p2_)
        return None if u is None else c + h * u

    def decide(self, D, S):
        key = (None if D is None else tuple(D), tuple(S))
        if key in self.cache:
            return self.cache[key]
        t0 = time.time()
        z = z3.Real('u')

        def pz(p):
            r = None
            for c in reversed(p):
                cz = z3.RealVal(str(c))
                r = cz if r is None else r * z + cz
            return r if r is not None else z3.RealVal(0)
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', 20000)
        s.add(z >= -1, z <= 1)
        b = pz(S)
        if D is None:
            s.add(b < 0)
        else:
            d = pz(D)
            s.add(z3.Or(d > b, d < -b))
        r = s.check()
        self.queries += 1
        self.qt += time.time() - t0
        u = F(0)
        if r == z3.unsat:
            u = None
        elif r == z3.sat:
            v = s.model()[z]
            try:
                u = F(v.numerator_as_long(), v.denominator_as_long())
            except (AttributeError, z3.Z3Exception):
                try:
                    a = v.approx(60)
                    u = F(a.numerator_as_long(), a.denominator_as_long())
                except Exception:
                    pass
        self.cache[key] = u
        return u


# ---------------------------------------------------------------- mathematical functions
PI = frac_of(mpmath.mp.pi + 0)
ERRC = p2(-240)         # error of the constants below
SLACK = p2(-200)


def consts(f, x):
    """f(x) to about 250 bits"""
    return frac_of(f(mpf(x)))


class Fn:
    """|r - f(x)| <= N eps max(|f(x)|, min(1, |x|)) on pieces of the domain"""
    sqrt = False

    def __init__(self, w, N):
        self.w, self.eps, self.N = w, p2(1 - PREC[w]), N

    def ref(self, x):
        raise NotImplementedError

    def tol(self, x, f):
        """tolerance at a point (mpf)"""
        return self.N * mpf(self.eps) * max(abs(f), min(mpmath.mpf(1), abs(x)))

    def tolmin(self, xl, xh):
        """lower bound of the tolerance on [xl, xh] (positive)"""
        f = min(abs(self.ref(mpf(xl))), abs(self.ref(mpf(xh)))) * mpmath.mpf('0.9999999') if self.monotone else 0
        return self.N * self.eps * max(frac_of(mpmath.mpf(f)), min(F(1), xl))

    def leaf(self, x, aff, xl, xh, n):
        """reading of the operand: n = polynomial of the operand in z"""
        w = self.w
        g = max(EMIN[w], flog2(xl) - PREC[w] + 1) if xl else EMIN[w]

        def f(m):
            if m is x:
                return Val(n, None, F(0), g, xl, xh)
            if m.id in aff:
                d = aff[m.id]
                e, mb = t.FMT[w]
                if d & ((1 << mb) - 1):
                    raise Stuck('operand with shifted bits')
                k = d >> mb
                if k >> e:
                    k -= 1 << (e + 1)
                for v in (xl, xh):
                    if not p2(-1000 if w == 64 else -120) < v * p2(k) < p2(1000 if w == 64 else 120):
                        raise Stuck('exponent of a scaled operand')
                    if v < p2(EMIN[w] + PREC[w]):
                        raise Stuck('subnormal operand')
                q = p2(k)
                return Val([c * q for c in n], None, F(0), g + k, xl * q, xh * q)
            return None
        return f

    def pieces(self, lo, hi):
        """subdivide an interval of bit patterns (all of one sign, positive)"""
        w = self.w
        e, m = t.FMT[w]
        while lo <= hi:
            x = fv(lo, w)
            step = max(x, F(1, 1)) if x >= 1 else x
            top = self.next(x)
            k = p2(flog2(x) + 1)
            if x < k < top or x * F(1001, 1000) > k and k <= 1:
                top = k
            b = min(hi, fpc.from_frac(top, w))
            if fv(b, w) > top:
                b -= 1
            b = max(b, lo)
            yield lo, b
            lo = b + 1

    def next(self, x):
        return x * 2 if x < F(1, 2) else x + F(1, 4)

    # worst seen
    worst = F(0)

    def note(self, E, tol):
        self.worst = max(self.worst, E / tol)


class Trig(Fn):
    monotone = False

    def __init__(self, w, N, kind):
        Fn.__init__(self, w, N)
        self.kind = kind

    def ref(self, x):
        return {'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan}[self.kind](x)

    def tol(self, x, f):
        if self.kind == 'tan':
            return self.N * mpf(self.eps) * (1 + f * f) * min(mpmath.mpf(1), abs(x))
        return Fn.tol(self, x, f)

    def next(self, x):
        if self.kind == 'tan' and F(1, 16) <= x < F(1, 2):
            return x * F(5, 4)
        return x * 2 if x < F(1, 2) else x + F(1, 2)

    def tolmin(self, xl, xh):
        b = min(F(1), xl)
        if self.kind == 'cos' and xh < 1:
            b = max(b, F(1, 2))
        return self.N * self.eps * b

    @staticmethod
    def taylor(kind, n, Z):
        """(polynomial, remainder) of kind(n pi/2 + z) on |z| <= Z"""
        j = n + (1 if kind == 'cos' else 0)
        p, fact, k = [], 1, 0
        rem = F(1)
        while rem > p2(-110) or k < 6:
            # k-th derivative of sin at j pi/2: sin((j + k) pi/2)
            p.append(F((0, 1, 0, -1)[(j + k) % 4], fact))
            k += 1
            fact *= k
            rem = Z ** k / fact
        return trim(p), rem

    def piece(self, term, x, aff, xl, xh, P):
        mid = (xl + xh) / 2
        n = round(mid / (PI / 2))
        c = n * PI / 2
        lo, hi = xl - c, xh - c
        Z = max(abs(lo), abs(hi))
        if Z > F(9, 10):
            raise Stuck('piece too wide')
        R = Real(self.w, lo, hi)
        lf = self.leaf(x, aff, xl, xh, trim([c, F(1)]))
        if self.kind != 'tan':
            return self.trig(R, term, lf, self.kind, n, lo, hi, Z, self.tolmin(xl, xh), P)
        q = term
        s0 = 1
        while signed(q) and signed(q)[1] == 'neg':
            q, s0 = signed(q)[0], -s0
        if q.op == 'f:div' and all(a.op != 'const' for a in q.args):
            m1 = min(F(1), xl)
            ts, tc = F(5, 4) * self.eps * m1, F(5, 4) * self.eps
            sg = []
            for a, k, tt in ((q.args[0], 'sin', ts), (q.args[1], 'cos', tc)):
                for s in (1, -1):
                    bad = self.trig(R, a, lf, k, n, lo, hi, Z, tt, P, s)
                    if bad is None:
                        sg.append(s)
                        break
                else:
                    return bad
            if s0 * sg[0] * sg[1] != 1:
                return mid
            # quotient: (S/C - s/c) c^2, bounded by the errors of S and C; |c| >= 2^-6 is the domain
            cmin = p2(-7)
            tot = (tc + ts) / (1 - tc / cmin) if xl >= 1 else (ts + tc * min(F(1), xh)) / (1 - 2 * tc)
            tot += self.eps / 2 * (F(1, 2) if xl >= 1 else min(F(1), xh))
            tol = self.N * self.eps * m1
            self.note(tot, tol)
            return None if tot <= tol else mid
        v = R.value(term, lf)
        T1, r1 = self.taylor('sin', n, Z)
        T2, r2 = self.taylor('cos', n, Z)
        if v.d is not None or n:
            raise Stuck('shape of a tangent')
        tol = self.N * self.eps * min(F(1), xl) - v.E - SLACK
        self.note(v.E, tol + v.E)
        rem = r1 + r2 * (v.mx + 1)
        D = padd(pmul(v.n, T2), pneg(T1))
        return P.within(D, padd([tol * c for c in T2], [-rem]), lo, hi)

    def trig(self, R, term, lf, kind, n, lo, hi, Z, tol, P, sign=1):
        v = R.value(term, lf)
        T, rem = self.taylor(kind, n, Z)
        T = [sign * c for c in T]
        self.note(v.E, tol)
        b = tol - v.E - rem - SLACK
        if b <= 0:
            raise Stuck('bound of the rounding error: %.2f of the tolerance' % float(v.E / tol))
        if v.d is None:
            return P.within(padd(v.n, pneg(T)), [b], lo, hi)
        return self.ratio(padd(v.n, pneg(pmul(T, v.d))), v.d, b, lo, hi, P)

    @staticmethod
    def ratio(D, d, b, lo, hi, P):
        """|D/d| <= b"""
        sg = 1 if pev(d, lo) > 0 else -1
        d = [sg * c for c in d]
        # d > 0 follows: |D| <= b d
        return P.within(D, [b * c for c in d], lo, hi)


class Alg(Fn):
    """functions whose derivative is rational, or the reciprocal of the square root of a polynomial"""
    monotone = True

    def __init__(self, w, N, kind, sign=1):
        Fn.__init__(self, w, N)
        self.kind, self.sign = kind, sign

    def ref(self, x):
        """the function at sign * x"""
        return {'atan': mpmath.atan, 'asin': mpmath.asin, 'acos': mpmath.acos, 'log': mpmath.log, 'log1p': mpmath.log1p, 'log2': lambda v: mpmath.log(v, 2) if v != 1 else mpmath.mpf(0),
                'log10': lambda v: mpmath.log(v, 10) if v != 1 else mpmath.mpf(0)}[self.kind](x * self.sign)

    def next(self, x):
        if self.kind in ('log', 'log2', 'log10'):
            return x * 2
        return x * 2 if x < F(1, 4) else x + max(F(1, 8), x / 4)

    def sqrtarg(self, term, x, aff, xl, xh):
        """(alpha, beta) when a square root of alpha + beta x is taken"""
        roots = [n for n in order([term]) if n.op == 'f:sqrt']
        if not roots:
            return None
        R = Real(self.w, F(0), xh - xl)
        v = R.value(roots[0].args[0], self.leaf(x, aff, xl, xh, [xl, F(1)]))
        if v.d is not None or len(v.n) != 2:
            raise Stuck('square root of a non-linear term')
        return v.n[0] - v.n[1] * xl, v.n[1]

    def piece(self, term, x, aff, xl, xh, P):
        sq = self.sqrtarg(term, x, aff, xl, xh)
        k = self.kind
        if sq:
            return self.piece_sqrt(term, x, aff, xl, xh, P, *sq)
        if k == 'atan':
            mb = self.quotient(term, x, aff, xl, xh)
            if mb:
                return self.piece_mobius(term, xl, xh, P, *mb)
        S = F(1)
        if k in ('log', 'log2', 'log10'):
            S = p2(flog2(xl))
        c = xl / S
        lo, hi = F(0), xh / S - c
        R = Real(self.w, lo, hi)
        v = R.value(term, self.leaf(x, aff, xl, xh, trim([c * S, S])))
        X = [c, F(1)]
        # f' with respect to z, as num/den or num/sqrt(den)
        if k == 'atan':
            num, den, root = [F(1)], padd([F(1)], pmul(X, X)), False
        elif k in ('asin', 'acos'):
            num, den, root = [F(1 if k == 'asin' else -self.sign)], padd([F(1)], pneg(pmul(X, X))), True
        elif k == 'log1p':
            num, den, root = [F(1)], padd([F(1)], X), False
        else:
            kap = {'log': F(1), 'log2': 1 / consts(mpmath.log, F(2)), 'log10': 1 / consts(mpmath.log, F(10))}[k]
            num, den, root = [kap], X, False
        return self.deriv(v, num, den, root, consts(self.ref, xl), self.tolmin(xl, xh), lo, hi, P)

    def quotient(self, term, x, aff, xl, xh):
        """(nodes, a, b, error) when the operand is used only through quotients (a0 + a1 x)/(b0 + b1 x)"""
        divs = [n for n in order([term]) if n.op == 'f:div']
        if not divs:
            return None
        R = Real(self.w, F(0), xh - xl)
        lf = self.leaf(x, aff, xl, xh, [xl, F(1)])
        res = []
        for m in divs:
            try:
                vs = [R.value(a, lf) for a in m.args]
            except Stuck:
                return None
            if any(v.d is not None or len(v.n) > 2 for v in vs):
                continue
            ab = []
            for v in vs:
                c0, c1 = (v.n + [F(0), F(0)])[:2]
                ab.append((c0 - c1 * xl, c1))
            res.append((m, tuple(ab), R.value(m, lf)))
        if len({r[1] for r in res}) != 1:
            return None
        ids = {r[0].id for r in res}
        # nothing else depends on the operand
        st, seen = [term], set()
        while st:
            n = st.pop()
            if n.id in ids or n.id in seen:
                continue
            seen.add(n.id)
            if n is x or n.id in aff:
                return None
            st.extend(n.args)
        return res, res[0][1][0], res[0][1][1]

    def piece_mobius(self, term, xl, xh, P, res, a, b):
        q = lambda v: (a[0] + a[1] * v) / (b[0] + b[1] * v)
        ends = q(xl), q(xh)
        if b[0] + b[1] * xl > 0 and b[0] + b[1] * xh <= 0 or b[0] + b[1] * xl < 0 and b[0] + b[1] * xh >= 0:
            raise Stuck('pole')
        lo, hi = min(ends), max(ends)
        R = Real(self.w, lo, hi)
        for m, _, v in res:
            R.memo[m.id] = Val([F(0), F(1)], None, v.E, v.g, lo, hi)
        v = R.value(term, lambda m: None)
        det = a[1] * b[0] - a[0] * b[1]
        n, d = [-a[0], b[0]], [a[1], -b[1]]       # x = n/d
        den = padd(pmul(d, d), pmul(n, n))
        return self.deriv(v, [det], den, False, consts(self.ref, xl if q(xl) == lo else xh), self.tolmin(xl, xh), lo, hi, P)

    def piece_sqrt(self, term, x, aff, xl, xh, P, al, be):
        # s = sqrt(al + be x), x = (s^2 - al)/be; asin'(x) dx/ds
        k = self.kind
        if k not in ('asin', 'acos'):
            raise Stuck('square root')
        nl, nh = sorted((al + be * xl, al + be * xh))
        if nl < 0:
            raise Stuck('square root of a negative number')
        sl = frac_of(mpmath.sqrt(mpf(nl))) if nl else F(0)
        sh = frac_of(mpmath.sqrt(mpf(nh)))
        if sl:
            sl = sl * (1 - p2(-200))
        sh = sh * (1 + p2(-200))
        n = [-al / be, F(0), 1 / be]
        R = Real(self.w, sl, sh)
        base = self.leaf(x, aff, xl, xh, n)
        sq = {}

        def lf(m):
            if m.op == 'f:sqrt':
                a = R.value(m.args[0], base) if m.id not in sq else None
                # argument is kappa^2 (al + be x)
                if len(a.n) != 3 or a.d is not None or a.n[0] != 0 or a.n[1] != 0:
                    raise Stuck('square root of another term')
                kap2 = a.n[2]
                kap = frac_of(mpmath.sqrt(mpf(kap2)))
                if a.E and not sl:
                    raise Stuck('square root near zero of an inexact argument')
                E = a.E / (kap * sl) if a.E else F(0)
                return R.rnd([F(0), kap], None, E + p2(-200), None)
            return base(m)
        # the roots first
        for m in order([term]):
            if m.op == 'f:sqrt':
                v = lf(m)
                R.memo[m.id] = v
        v = R.value(term, base)
        # 1 - x^2 as a polynomial in s; dx/ds = 2 s / be;  asin' = +-(2 s/be)/sqrt(1 - x^2)
        G = padd([F(1)], pneg(pmul(n, n)))
        num = [F(0), 2 / be]
        # both have a factor s
        if abs(G[0]) > p2(-220) or abs(G[1]) > p2(-220):
            num2, G2 = num, G
        else:
            num2, G2 = [2 / be], G[2:]
        if k == 'acos' and self.sign > 0:
            num2 = pneg(num2)
        xs = xh if be < 0 else xl
        return self.deriv(v, num2, G2, True, consts(self.ref, xs), self.tolmin(xl, xh), sl, sh, P)

    @staticmethod
    def slim(v, lo, hi):
        """shorter coefficients; the change of the function is added to the error"""
        Z = max(abs(lo), abs(hi), F(1))

        def cut(p):
            top = max(abs(c) for c in p)
            u = p2(flog2(top) - 110)
            q = [round(c / u) * u for c in p]
            e, zk = F(0), F(1)
            for a, b in zip(p, q):
                e += abs(a - b) * zk
                zk *= Z
            return q, e
        if not v.n:
            return v
        n, e = cut(v.n)
        if v.d is None:
            return Val(n, None, up(v.E + e), None, v.lo, v.hi)
        d, f = cut(v.d)
        a, b = prange(d, lo, hi)
        if a <= f and b >= -f:
            return v
        m = min(abs(a), abs(b)) - f
        return Val(n, d, up(v.E + (e + v.mx * f) / m), None, v.lo, v.hi)

    def deriv(self, v, num, den, root, f0, tol, lo, hi, P):
        """R(lo) is close to f0 and R' close to num/den (num/sqrt(den)) on [lo, hi]"""
        v = self.slim(v, lo, hi)
        cut = lambda p: [F(round(c * p2(230)), 1 << 230) for c in p]
        r0 = pev(v.n, lo)
        if v.d is not None:
            r0 /= pev(v.d, lo)
        d0 = abs(r0 - f0) + SLACK
        self.note(v.E, tol)
        b = tol - v.E - d0
        if b <= 0:
            if tol > v.E and d0 > tol + v.E:
                return lo
            raise Stuck('bound of the rounding error: %.2f of the tolerance (%.2f at the end)' % (float(v.E / tol), float(d0 / tol)))
        if hi == lo:
            return None
        tau = b / (hi - lo)
        if v.d is None:
            rn, rd = pder(v.n), None
        else:
            rn, rd = padd(pmul(pder(v.n), v.d), pneg(pmul(v.n, pder(v.d)))), pmul(v.d, v.d)
        if not root:
            # |rn/rd - num/den| <= tau, den > 0
            D = padd(pmul(rn, den), pneg(num if rd is None else pmul(num, rd)))
            S = [tau * c for c in (den if rd is None else pmul(den, rd))]
            return P.within(D, S, lo, hi)
        # |rn/rd - num/sqrt(den)| <= tau with num of constant sign
        q = rd or [F(1)]
        if pev(num, (lo + hi) / 2) < 0:
            rn, num = pneg(rn), pneg(num)
        n2 = pmul(num, num)
        U = padd(rn, [tau * c for c in q])      # (U/q)^2 den >= num^2, U >= 0
        L = padd(rn, [-tau * c for c in q])     # (L/q)^2 den <= num^2 (or L <= 0)
        q2 = pmul(n2, pmul(q, q))
        u2, l2 = pmul(pmul(U, U), den), pmul(pmul(L, L), den)
        # num^2 q^2 - L^2 den >= 0, U^2 den - num^2 q^2 >= 0, U >= 0
        for g in (padd(q2, pneg(l2)), padd(u2, pneg(q2)), U):
            bad = P.nonneg(g, lo, hi)
            if bad is not None:
                return bad
        return None


def make(kind, w, N, sign=1):
    """sign: of the operand; only acos is not symmetric"""
    return Trig(w, N, kind) if kind in ('sin', 'cos', 'tan') else Alg(w, N, kind, sign)



# ---------------------------------------------------------------- the check of one harness
def piece(f, z, x, aff, pl, ph, P, depth, end):
    """None, or a point that fails; Stuck when it cannot be bounded"""
    xl, xh = fv(pl, f.w), fv(ph, f.w)
    try:
        return f.piece(z, x, aff, xl, xh, P)
    except Stuck as e:
        if not depth or ph - pl < 4 or time.time() > end or not str(e).startswith('bound'):
            raise
    k = (pl + ph) // 2
    if pl and flog2(xh) > flog2(xl):
        k = fpc.from_frac(p2(flog2(xh)), f.w)
        if not pl < k <= ph:
            k = (pl + ph) // 2
    r = piece(f, z, x, aff, pl, k, P, depth - 1, end)
    return r if r is not None else piece(f, z, x, aff, k + 1, ph, P, depth - 1, end)


def value_of(b, w):
    e, m = t.FMT[w]
    if (b >> m) & ((1 << e) - 1) == (1 << e) - 1:
        return None
    return fv(b, w)


def decide(h, c, R, nat):
    """every entry of h.acc: (kind, sign, [(lo, hi)], N); nat(values) -> compiler, results per value"""
    import random
    end = time.time() + h.acc_budget
    rs, xs = c.out('r'), c.lanes('a')
    x = xs[0]
    w = x.w
    terms = []
    for r in rs:
        z = t.subst([r], {v.id: x for v in xs})[0]
        if not any(z is o for o in terms):
            terms.append(z)
    rnd = random.Random(5)
    undecided = []
    R.obls = 0
    P = Poly()
    sampled = 0
    worst = F(0)
    for kind, sign, dom, N in h.acc:
        f = make(kind, w, N, sign)
        m = 1 << (w - 1)

        def sample(pl, ph, pt, why):
            nonlocal sampled
            sampled += 1
            if sampled > 24:
                return False
            pts = {pl, ph}
            for q in (pt,):
                if q is not None:
                    pts.update(v for v in range(q - 8, q + 9) if pl <= v <= ph)
            span = ph - pl
            if span < 3000:
                pts.update(range(pl, ph + 1))
            else:
                pts.update(pl + rnd.randrange(span + 1) for _ in range(2000))
            pts = sorted(pts)
            for cxx, vals in nat([p | m if sign < 0 else p for p in pts]):
                for p, (raw, lanes) in zip(pts, vals):
                    v = mpf(fv(p, w))
                    ref = f.ref(v)
                    tol = f.tol(v, ref)
                    for i, b in enumerate(lanes):
                        g = value_of(b, w)
                        if g is None or abs(mpf(g) - ref) > tol:
                            R.violation = {'harness': h.id, 'isa': h.isa, 'code': h.body, 'inputs': {'a': ['0x%0*x' % (w // 4, p | m if sign < 0 else p)] * len(lanes)},
                                           'observed': {'r': ['0x%0*x' % (w // 4, k) for k in lanes]}, 'compiler': cxx, 'query': why,
                                           'what': 'r[%d]: %s(%s) = %s, mathematical value %s, tolerance %s' % (
                                               i, kind, mpmath.nstr(-v if sign < 0 else v, 20), mpmath.nstr(mpf(g), 20) if g is not None else 'not finite',
                                               mpmath.nstr(ref, 20), mpmath.nstr(tol, 3))}
                            R.status = 'violation'
                            return True
            return False

        for z0 in terms:
            if sign < 0:
                z0 = t.subst([z0], {x.id: t.xor_(x, t.const(m, w))})[0]
            C = Cells(z0, x)
            try:
                for lo, hi in dom:
                    lo, hi = fpc.from_frac(lo, w), fpc.from_frac(hi, w)
                    for a, b, z, aff, why in C.split(lo, hi):
                        if time.time() > end:
                            undecided.append('time budget')
                            break
                        if z is None:
                            R.obls += 1
                            if sample(a, b, None, 'cell: ' + why):
                                return
                            undecided.append('cell [%g, %g]: %s' % (fv(a, w), fv(b, w), why))
                            continue
                        for pl, ph in f.pieces(a, b):
                            R.obls += 1
                            pt, why = None, None
                            try:
                                bad = piece(f, z, x, aff, pl, ph, P, 3, end)
                                if bad is None:
                                    continue
                                pt = fpc.from_frac(bad, w) if bad > 0 else pl
                                pt = min(max(pt, pl), ph)
                                why = 'polynomial bound fails near %s' % mpmath.nstr(mpf(fv(pt, w)), 12)
                            except Stuck as e:
                                why = str(e)
                            if sample(pl, ph, pt, '%s on [%s, %s]: %s' % (kind, mpmath.nstr(mpf(fv(pl, w)), 12), mpmath.nstr(mpf(fv(ph, w)), 12), why)):
                                return
                            undecided.append('[%g, %g]: %s' % (fv(pl, w), fv(ph, w), why))
            except Stuck as e:
                undecided.append(str(e))
            finally:
                R.queries += C.queries
                R.solver_s += C.qt
        worst = max(worst, f.worst)
    R.queries += P.queries
    R.solver_s += P.qt
    R.worst = float(worst)
    if undecided:
        R.status = 'undecided'
        R.notes.append('%d not decided: ' % len(undecided) + '; '.join(undecided[:3])[:300])
