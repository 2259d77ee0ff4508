"""Accuracy of hypot: two operands, rounding errors as named variables.

The operands range over a box (intervals of bit patterns).  Boolean subterms the box decides are replaced (solver, `cases`),
the others are split.  Every operation of what remains is read as a polynomial in the operands and one variable per
rounding error, so that errors the code recovers (splitting a number, error-free products) cancel symbolically;
results that fit the grid of their operands are exact.  Z3 decides over the reals that the value stays within the tolerance
of sqrt(a^2 + b^2)."""
import random
import time
from fractions import Fraction as F
import mpmath
import z3
from . import term as t, fpc, cases, smt
from .acc import PREC, EMIN, Stuck, fv, flog2, p2, up, iup, idn, mpf, frac_of, signed, order, value_of


class Val:
    __slots__ = ('p', 'E', 'g', 'lo', 'hi', 'root')

    def __init__(self, p, E, g, lo, hi, root=None):
        # root: the value is root * hypot, p is not used
        self.p, self.E, self.g, self.lo, self.hi, self.root = p, E, g, lo, hi, root

    @property
    def mx(self):
        return max(abs(self.lo), abs(self.hi)) + self.E

    @property
    def mn(self):
        m = self.lo if self.lo > 0 else -self.hi if self.hi < 0 else F(0)
        return max(F(0), m - self.E)


class Box:
    """reading of a term on a box of operands"""

    def __init__(self, w, x, y, xr, yr):
        self.w, self.ops = w, (x, y)
        self.vars = [xr, yr]
        hl = mpmath.sqrt(mpf(xr[0]) ** 2 + mpf(yr[0]) ** 2)
        hh = mpmath.sqrt(mpf(xr[1]) ** 2 + mpf(yr[1]) ** 2)
        self.hl, self.hh = frac_of(hl) * (1 - p2(-200)), frac_of(hh) * (1 + p2(-200))
        self.memo = {}

    def same(self, x, i):
        """the bits of x are those of operand i (on the box)"""
        o, w = self.ops[i], self.w
        names = {n.p for n in order([x]) if n.op == 'var'}
        if names != {o.p} or any(n.op.startswith('f:') or n.op == 'lut' for n in order([x])):
            return False
        lo, hi = (pat(v, w) for v in self.vars[i])
        s = z3.SolverFor('QF_BV')
        s.set('timeout', 3000)
        enc = smt.Enc('bv')
        for q in (t.not_(t.ult(o, t.const(lo, w))), t.not_(t.ult(t.const(hi, w), o)), t.not_(t.eq(x, o))):
            s.add(enc.enc(q))
        return s.check() == z3.unsat

    def mrange(self, m):
        lo = hi = F(1)
        i = 0
        while i < len(m):
            k = i
            while k < len(m) and m[k] == m[i]:
                k += 1
            a, b = self.vars[m[i]]
            n = k - i
            a, b = a ** n, b ** n
            if n % 2 == 0 and self.vars[m[i]][0] < 0:
                a, b = F(0), max(a, b)
            q = (lo * a, lo * b, hi * a, hi * b)
            lo, hi = min(q), max(q)
            i = k
        return lo, hi

    def rng(self, p):
        lo = hi = F(0)
        for m, c in p.items():
            a, b = self.mrange(m)
            q = (a * c, b * c)
            lo += min(q)
            hi += max(q)
        return idn(lo), iup(hi)

    def slim(self, p, E):
        """terms of no importance go to the error"""
        if len(p) < 3:
            return p, E
        mags = {}
        for m, c in p.items():
            a, b = self.mrange(m)
            mags[m] = max(abs(a), abs(b)) * abs(c)
        top = max(mags.values())
        r = {}
        for m, c in p.items():
            if mags[m] < top * p2(-180):
                E += mags[m]
            else:
                r[m] = c
        return r, up(E)

    @staticmethod
    def padd(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def pmul(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def rnd(self, p, E, g, w):
        p, E = self.slim(p, E)
        lo, hi = self.rng(p)
        mx = max(abs(lo), abs(hi)) + E
        P = PREC[w]
        if g is not None and g >= EMIN[w] and mx <= p2(min(g + P, 4000)):
            return Val(p, E, g, lo, hi)
        if mx >= p2(1024 if w == 64 else 128):
            raise Stuck('overflow')
        e = p2(max(EMIN[w], flog2(mx) - P + 1) - 1) if mx else p2(EMIN[w] - 1)
        self.vars.append((-e, e))
        q = dict(p)
        q[(len(self.vars) - 1,)] = F(1)
        lo, hi = lo - e, hi + e
        r = Val(q, E, EMIN[w], lo, hi)
        if r.mn:
            r.g = max(EMIN[w], flog2(r.mn) - P + 1)
        if g is not None and g < 4000:
            r.g = max(r.g, g)
        return r

    def rndroot(self, k, E, w):
        """root * hypot + error"""
        mx = k * self.hh + E
        P = PREC[w]
        if mx >= p2(1024 if w == 64 else 128):
            raise Stuck('overflow')
        return Val(None, up(E + p2(max(EMIN[w], flog2(mx) - P + 1) - 1)), None, k * self.hl, k * self.hh, k)

    def const(self, b, w):
        if t.isnan(t.const(b, w)).p or t.isinf(t.const(b, w)).p:
            raise Stuck('not a finite constant')
        v = fv(b, w)
        g = (v.numerator & -v.numerator).bit_length() - 1 - (v.denominator.bit_length() - 1) if v else 1 << 20
        return Val({(): v} if v else {}, F(0), g, v, v)

    def leaf(self, i):
        lo, hi = self.vars[i]
        w = self.w
        if not hi:
            return Val({}, F(0), 1 << 20, F(0), F(0))
        return Val({(i,): F(1)}, F(0), max(EMIN[w], flog2(lo) - PREC[w] + 1) if lo else EMIN[w], lo, hi)

    def op(self, x, a):
        nm, w = x.op[2:], x.w
        if any(v.root is not None for v in a):
            if nm == 'fpext':
                return a[0]
            if nm == 'fptrunc':
                return self.rndroot(a[0].root, a[0].E, w)
            if nm == 'mul':
                r, c = (a[0], a[1]) if a[0].root is not None else (a[1], a[0])
                if c.root is None and not c.E and set(c.p) == {()}:
                    k = c.p[()]
                    if k > 0:
                        kk, E = k * r.root, k * r.E
                        if k.numerator & (k.numerator - 1) == 0 and k.denominator & (k.denominator - 1) == 0 and kk * self.hl - E > p2(EMIN[w] + PREC[w]) and kk * self.hh + E < p2(1024 if w == 64 else 128):
                            return Val(None, E, None, kk * self.hl, kk * self.hh, kk)
                        return self.rndroot(kk, E, w)
            raise Stuck('operation %s on a root' % nm)
        if nm in ('add', 'sub'):
            u, v = a
            p = self.padd(u.p, v.p, 1 if nm == 'add' else -1)
            return self.rnd(p, u.E + v.E, min(u.g, v.g), w)
        if nm in ('mul', 'fma'):
            u, v = a[:2]
            p = self.pmul(u.p, v.p)
            E = u.mx * v.E + v.mx * u.E
            g = u.g + v.g
            if nm == 'fma':
                p, E, g = self.padd(p, a[2].p), E + a[2].E, min(g, a[2].g)
            return self.rnd(p, E, g, w)
        if nm == 'sqrt':
            v = a[0]
            k2 = max(v.p.get((0, 0), F(0)), v.p.get((1, 1), F(0)))
            if not k2:
                raise Stuck('square root of another term')
            k = F(round(frac_of(mpmath.sqrt(mpf(k2))) * p2(200 - flog2(k2) // 2))) / p2(200 - flog2(k2) // 2)
            T = {}
            for i in (0, 1):
                if self.vars[i][1]:
                    T[(i, i)] = k * k
            q = self.padd(v.p, T, -1)
            lo, hi = self.rng(q)
            e = max(abs(lo), abs(hi)) + v.E
            return self.rndroot(k, up(e / (k * self.hl)), w)
        if nm == 'fpext':
            return a[0]
        if nm == 'fptrunc':
            return self.rnd(a[0].p, a[0].E, a[0].g, w)
        raise Stuck('operation ' + nm)

    def value(self, root):
        memo = self.memo
        st = [root]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            v = None
            for i, o in enumerate(self.ops):
                if x is o or x.w == o.w and not x.op.startswith('f:') and x.op not in ('const', 'var') and self.same(x, i):
                    v = self.leaf(i)
                    break
            if v is None and x.op == 'const':
                v = self.const(x.p, x.w)
            if v is not None:
                memo[x.id] = v
                st.pop()
                continue
            k = signed(x)
            if not k and not x.op.startswith('f:'):
                raise Stuck('term ' + t.show(x, 2)[:120])
            args = (k[0],) if k else x.args
            todo = [y for y in args if y.id not in memo]
            if todo:
                st.extend(todo)
                continue
            a = [memo[y.id] for y in args]
            if k:
                v = a[0]
                if v.root is not None:
                    raise Stuck('sign of a root')
                how = k[1]
                if how == 'abs':
                    if v.lo >= v.E:
                        how = 'id'
                    elif v.hi <= -v.E:
                        how = 'neg'
                    else:
                        raise Stuck('sign of an operand')
                if how == 'neg':
                    v = Val({m: -c for m, c in v.p.items()}, v.E, v.g, -v.hi, -v.lo)
            else:
                v = self.op(x, a)
            memo[x.id] = v
            st.pop()
        return memo[root.id]


class Real:
    """inequalities over the reals"""

    def __init__(self):
        self.queries, self.qt = 0, 0.0

    def within(self, B, v, tol):
        """None when |value - hypot| <= tol * hypot on the box, or why not"""
        (xl, xh), (yl, yh) = B.vars[:2]
        sc = p2(-flog2(max(xh, yh)))
        t0 = time.time()
        s = z3.SimpleSolver() if v.root is not None else z3.SolverFor('QF_NRA')
        s.set('timeout', 5000)
        q = lambda f: z3.Q(f.numerator, f.denominator)
        a, b, h, e = z3.Reals('a b h e')
        if v.root is not None:
            r, E = q(v.root) * h + e, v.E
            s.add(h >= q(idn(B.hl * sc)), h <= q(iup(B.hh * sc)))
        else:
            # rounding variables are bounded here
            r, E = e, v.E
            for m, c in v.p.items():
                if all(i < 2 for i in m):
                    y = q(c * sc / sc ** len(m))
                    for i in m:
                        y = y * (a, b)[i]
                    r = r + y
                else:
                    lo, hi = B.mrange(m)
                    E += max(abs(lo), abs(hi)) * abs(c)
            s.add(a >= q(xl * sc), a <= q(xh * sc), b >= q(yl * sc), b <= q(yh * sc))
        E = iup(E * sc)
        if v.root is not None:
            s.add(e >= q(-E), e <= q(E))
            T = q(iup(tol[0])) * h + q(iup(tol[1] * sc))
            s.add(z3.Or(r - h > T, h - r > T))
        else:
            if all(len(m) < 2 for m in v.p if all(i < 2 for i in m)):
                # linear: max(a, b) <= hypot <= a + b is enough most of the time
                l = z3.SimpleSolver()
                l.add(a >= q(xl * sc), a <= q(xh * sc), b >= q(yl * sc), b <= q(yh * sc), e >= q(-E), e <= q(E), h >= a, h >= b, h <= a + b)
                T = q(iup(tol[0])) * h + q(iup(tol[1] * sc))
                l.add(z3.Or(r - h > T, h - r > T))
                self.queries += 1
                if l.check() == z3.unsat:
                    self.qt += time.time() - t0
                    return None
            # r within E of the polynomial; both sides squared
            up_, lo_ = r - e + q(E - idn(tol[1] * sc)), r - e - q(E - idn(tol[1] * sc))
            c1, c2 = 1 + tol[0], 1 - tol[0]
            s.add(z3.Or(z3.And(up_ > 0, up_ * up_ > q(c1 * c1) * (a * a + b * b)), lo_ < 0, lo_ * lo_ < q(c2 * c2) * (a * a + b * b)))
        k = s.check()
        self.queries += 1
        self.qt += time.time() - t0
        if k == z3.unsat:
            return None
        return 'error bound %.3g of the tolerance' % float(max(v.E, F(0)) / (tol[0] * B.hl + tol[1])) if k == z3.sat else 'solver: ' + str(k)


def forks(u, limit=6):
    """the term with its undecided conditions replaced both ways"""
    st = [(u, 0)]
    while st:
        z, d = st.pop()
        c = None
        for n in order([z]):
            if n.op == 'ite' and n.w in t.FMT:
                c = n.args[0]
                break
        if c is None:
            yield z
            continue
        if d == limit:
            raise Stuck('too many conditions')
        for k in (t.TRUE(), t.FALSE()):
            st.append((t.subst([z], {c.id: k})[0], d + 1))


def pat(v, w):
    return fpc.from_frac(v, w)


def boxes(w, tier):
    """((xl, xh), (yl, yh)) closed intervals of numbers of the format, x in the larger binade"""
    P, em = PREC[w], EMIN[w]
    top = 126 if w == 32 else 1022
    if w == 32:
        I = [-149, -148, -140, -127, -126, -125, -86, -85, -62, -61, -60, -59, -58, -36, -35, -24, -1, 0, 1, 24, 59, 60, 61, 62, 84, 85, 100, 125, 126]
        D = [0, 1, 2, 3, 5, 8, 12, 18, 22, 23, 24, 25, 26, 27, 30, 40, 64, 100, 150]
    else:
        I = [-1074, -1073, -1060, -1044, -1043, -1042, -1041, -1030, -1023, -1022, -1021, -700, -500, -452, -451, -450, -449, -448, -386, -385, -1, 0, 1, 60, 450, 508, 509, 510, 511, 512, 574, 576, 900, 1021, 1022]
        D = [0, 1, 2, 3, 5, 10, 20, 26, 27, 28, 40, 50, 52, 53, 54, 55, 58, 62, 63, 64, 65, 66, 67, 80, 200, 512, 961, 1100, 1500]
    if tier == 'thorough':
        I = list(range(em, top + 1)) if w == 32 else sorted(set(I) | set(range(em, top + 1, 16)) | set(range(-460, -440)) | set(range(500, 520)))
        D = list(range(0, 32)) + [40, 64, 100, 150] if w == 32 else sorted(set(D) | set(range(0, 70, 3)))

    def cut(k, n):
        """parts of the binade 2^k, as pairs of numbers"""
        lo, hi = pat(p2(k), w), pat(p2(k + 1), w) - 1
        n = min(n, hi - lo + 1)
        for i in range(n):
            yield fv(lo + (hi - lo + 1) * i // n, w), fv(lo + (hi - lo + 1) * (i + 1) // n - 1, w)
    for i in I:
        for d in D:
            j = i - d
            if j < em:
                continue
            for xr in cut(i, 2):
                for yr in cut(j, 2 if d < 2 else 1):
                    yield xr, yr
        for xr in cut(i, 2):
            yield xr, (F(0), F(0))


def halves(r, w):
    lo, hi = pat(r[0], w), pat(r[1], w)
    if lo == hi:
        return [r]
    m = (lo + hi) // 2
    return [(r[0], fv(m, w)), (fv(m + 1, w), r[1])]


def decide(h, c, R, nat):
    """h.acc2: (relative tolerance in eps, tier); nat(pairs) -> compiler, results"""
    end = time.time() + h.acc_budget
    N, tier = h.acc2
    rs, xs, ys = c.out('r'), c.lanes('a'), c.lanes('b')
    x, y = xs[0], ys[0]
    w = x.w
    eps = p2(1 - PREC[w])
    tol = (N * eps, p2(EMIN[w] - 1) + p2(EMIN[w] - 20))
    env = {v.id: x for v in xs}
    env.update({v.id: y for v in ys})
    terms = []
    for r in rs:
        z = t.subst([r], env)[0]
        if not any(z is o for o in terms):
            terms.append(z)
    rnd = random.Random(7)
    real = Real()
    und, R.obls, sampled = [], 0, 0

    def sample(xr, yr, why):
        pts = set()
        xl, xh, yl, yh = (pat(v, w) for v in xr + yr)
        for p in (xl, xh, (xl + xh) // 2):
            for q in (yl, yh, (yl + yh) // 2):
                pts.add((p, q))
        for _ in range(2000):
            pts.add((rnd.randint(xl, xh), rnd.randint(yl, yh)))
        pts = sorted(pts)
        for cxx, vals in nat(pts):
            for (p, q), (raw, lanes) in zip(pts, vals):
                ref = mpmath.sqrt(mpf(fv(p, w)) ** 2 + mpf(fv(q, w)) ** 2)
                lim = mpf(tol[0]) * ref + mpf(tol[1])
                for i, b in enumerate(lanes):
                    g = value_of(b, w)
                    if g is None or abs(mpf(g) - ref) > lim:
                        R.violation = {'harness': h.id, 'isa': h.isa, 'code': h.body, 'inputs': {'a': ['0x%0*x' % (w // 4, p)] * len(lanes), 'b': ['0x%0*x' % (w // 4, q)] * len(lanes)},
                                       'observed': {'r': ['0x%0*x' % (w // 4, k) for k in lanes]}, 'compiler': cxx, 'query': why,
                                       'what': 'r[%d]: hypot(%s, %s) = %s, mathematical value %s, tolerance %s' % (
                                           i, mpmath.nstr(mpf(fv(p, w)), 20), mpmath.nstr(mpf(fv(q, w)), 20), mpmath.nstr(mpf(g), 20) if g is not None else 'not finite', mpmath.nstr(ref, 20), mpmath.nstr(lim, 3))}
                        R.status = 'violation'
                        return True
        return False

    worst = 0.0
    for z0 in terms:
        cache = {}
        for xr, yr in boxes(w, tier):
            if time.time() > end:
                und.append('time budget')
                break
            R.obls += 1
            # conditions are decided for whole binades first
            key = (flog2(xr[0]), flog2(yr[0]) if yr[0] else None)
            why = None
            try:
                rest = lambda v, lo, hi: t.and_(t.not_(t.ult(v, t.const(pat(lo, w), w))), t.not_(t.ult(t.const(pat(hi, w), w), v)))
                if key not in cache:
                    cache.clear()
                    if key[1] is None:
                        u = t.subst([z0], {y.id: t.const(0, w)})[0]
                        u = cases.assume([u], rest(x, p2(key[0]), fv(pat(p2(key[0] + 1), w) - 1, w)))[0]
                    else:
                        u = cases.assume([z0], t.and_(rest(x, p2(key[0]), fv(pat(p2(key[0] + 1), w) - 1, w)), rest(y, p2(key[1]), fv(pat(p2(key[1] + 1), w) - 1, w))))[0]
                    R.queries += 1
                    cache[key] = list(forks(u))
                for k in cache[key]:
                    st = [(xr, yr, 3)]
                    while st and not why:
                        p, q, d = st.pop()
                        B = Box(w, x, y, p, q)
                        v = B.value(k)
                        why = real.within(B, v, tol)
                        if why and d and why.startswith('error'):
                            # smaller boxes
                            why = None
                            st.extend((a, b, d - 1) for a in halves(p, w) for b in halves(q, w))
                        elif v.root is not None:
                            worst = max(worst, float(v.E / (tol[0] * B.hl + tol[1])))
                    if why:
                        xr, yr = p, q
                        break
            except Stuck as e:
                why = str(e)
            if why:
                sampled += 1
                why = '[%s, %s] x [%s, %s]: %s' % tuple([mpmath.nstr(mpf(v), 12) for v in xr + yr] + [why])
                if sampled <= 24 and sample(xr, yr, why):
                    break
                und.append(why)
        if R.violation:
            break
    R.queries += real.queries
    R.solver_s += real.qt
    R.worst = worst
    if not R.violation and und:
        R.status = 'undecided'
        R.notes.append('%d not decided: ' % len(und) + '; '.join(und[:3])[:300])
