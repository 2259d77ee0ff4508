"""SMT back end: decides satisfiability of conjunctions of terms with z3 (API) and cvc5 (CLI fallback).

FP operations are interpreted either as uninterpreted functions (congruence
plus NaN/exactness lemmas, refined by concrete evaluation) or via the SMT
FloatingPoint theory.
"""
import hashlib
import os
import pickle
import subprocess
import tempfile
import time
import z3
from .term import const
from . import lemmas, spec
from . import term as t
from . import fpc

FPOPS = {'add', 'sub', 'mul', 'div', 'sqrt', 'fma', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'frem'}
NANPROP = {'add', 'sub', 'mul', 'div', 'sqrt', 'fma', 'fpext', 'fptrunc'}


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.rounds = 0
        self.cached = 0

    def add(self, who, dt):
        self.queries += 1
        self.time += dt
        self.by[who] = self.by.get(who, 0) + 1


STATS = Stats()


def fsort(w):
    e, m = t.FMT[w]
    return z3.FPSort(e, m + 1)


class Enc:
    def __init__(self, mode, opaque=False, luts=False):
        self.mode = mode
        self.opaque = opaque      # conversions to integers uninterpreted
        self.memo = {}
        self.side = []
        self.fnodes = []
        self.vars = {}
        self.ufs = {}
        self.luts = luts          # constant tables as uninterpreted functions

    def uf(self, tm):
        k = (tm.op if tm.op != 'lut' else tm.p.tag, tm.w, tuple(a.w for a in tm.args))
        f = self.ufs.get(k)
        if f is None:
            name = '%s_%d_%s' % (k[0].replace(':', '_'), tm.w, '_'.join(map(str, k[2])))
            f = z3.Function(name, *([z3.BoolSort() if w == 1 else z3.BitVecSort(w) for w in k[2]]
                                    + [z3.BoolSort() if tm.w == 1 else z3.BitVecSort(tm.w)]))
            self.ufs[k] = f
        return f

    def enc(self, root):
        memo = self.memo
        st = [root]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            args = (t.f2i_bits(x),) if x.op == 'f2i' and not self.opaque else x.args
            todo = [a for a in args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = self.node(x, [memo[a.id] for a in args])
            st.pop()
        return memo[root.id]

    @staticmethod
    def bv(e, w):
        """bool -> bv1"""
        return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if w == 1 else e

    def node(self, x, a):
        op, w = x.op, x.w
        if op == 'const':
            return z3.BoolVal(bool(x.p)) if w == 1 else z3.BitVecVal(x.p, w)
        if op == 'var':
            v = z3.Bool(x.p) if w == 1 else z3.BitVec(x.p, w)
            self.vars[x.p] = (v, w)
            return v
        aw = [y.w for y in x.args]
        if op in ('and', 'or', 'xor', 'not', 'eq', 'ite'):
            if aw[-1] == 1 and op != 'ite':
                if op == 'and':
                    return z3.And(*a)
                if op == 'or':
                    return z3.Or(*a)
                if op == 'xor':
                    return z3.Xor(*a)
                if op == 'not':
                    return z3.Not(a[0])
                return a[0] == a[1]
            if op == 'and':
                return a[0] & a[1]
            if op == 'or':
                return a[0] | a[1]
            if op == 'xor':
                return a[0] ^ a[1]
            if op == 'not':
                return ~a[0]
            if op == 'eq':
                return a[0] == a[1]
            return z3.If(a[0], a[1], a[2])
        if op == 'add':
            return a[0] + a[1]
        if op == 'sub':
            return a[0] - a[1]
        if op == 'mul':
            return a[0] * a[1]
        if op == 'udiv':
            return z3.UDiv(a[0], a[1])
        if op == 'urem':
            return z3.URem(a[0], a[1])
        if op == 'sdiv':
            return a[0] / a[1]
        if op == 'srem':
            return z3.SRem(a[0], a[1])
        if op == 'shl':
            return a[0] << a[1]
        if op == 'lshr':
            return z3.LShR(a[0], a[1])
        if op == 'ashr':
            return a[0] >> a[1]
        if op == 'ult':
            return z3.ULT(a[0], a[1])
        if op == 'slt':
            return a[0] < a[1]
        if op == 'concat':
            return z3.Concat(*[self.bv(e, ww) for e, ww in zip(a, aw)])
        if op == 'extract':
            r = z3.Extract(x.p + w - 1, x.p, a[0])
            return r == z3.BitVecVal(1, 1) if w == 1 else r
        if op == 'zext':
            if aw[0] == 1:
                return z3.If(a[0], z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.ZeroExt(w - aw[0], a[0])
        if op == 'sext':
            if aw[0] == 1:
                return z3.If(a[0], z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
            return z3.SignExt(w - aw[0], a[0])
        if op == 'f2i':
            return self.uf(x)(*a) if self.opaque else a[0]
        if op == 'lut':
            if self.luts:
                return self.uf(x)(*a)
            r = z3.BitVecVal(x.p.last, w)
            for k, v in x.p.d.items():
                r = z3.If(a[0] == z3.BitVecVal(k, aw[0]), z3.BitVecVal(v, w), r)
            return r
        if op.startswith('f:'):
            self.fnodes.append(x)
            nm = op[2:]
            if self.mode == 'fp' and nm in FPOPS and nm != 'frem':
                r = z3.BitVec('fp!%d' % x.id, w)
                S = fsort(w)
                rm = z3.RNE()
                fa = [z3.fpBVToFP(e, fsort(ww)) if nm not in ('sitofp', 'uitofp') else e for e, ww in zip(a, aw)]
                if nm == 'add':
                    f = z3.fpAdd(rm, *fa)
                elif nm == 'sub':
                    f = z3.fpSub(rm, *fa)
                elif nm == 'mul':
                    f = z3.fpMul(rm, *fa)
                elif nm == 'div':
                    f = z3.fpDiv(rm, *fa)
                elif nm == 'sqrt':
                    f = z3.fpSqrt(rm, *fa)
                elif nm == 'fma':
                    f = z3.fpFMA(rm, *fa)
                elif nm == 'sitofp':
                    f = z3.fpSignedToFP(rm, a[0], S)
                elif nm == 'uitofp':
                    f = z3.fpUnsignedToFP(rm, a[0], S)
                else:
                    f = z3.fpFPToFP(rm, fa[0], S)
                self.side.append(z3.fpBVToFP(r, S) == f)
                # hardware quiet NaN results
                return r
            r = self.uf(x)(*a)
            if self.mode == 'uf':
                self.axioms(x, nm, a, r)
            return r
        raise NotImplementedError(op)

    # light axioms, sound for IEEE-754
    def axioms(self, x, nm, a, r):
        w = x.w

        def E(tm):
            return self.enc2(tm)
        if nm in NANPROP or nm.startswith('libm:') and len(a) == 1 and w in t.FMT and x.args[0].w == w:
            an = z3.Or(*[self.isnan(e, y.w) for e, y in zip(a, x.args)])
            self.side.append(z3.Implies(an, self.isnan(r, w)))
        if nm in ('add', 'sub', 'mul'):
            A, B = a
            fin = z3.Not(z3.Or(self.isnan(r, w)))
            ia, ib = self.isinf(A, w), self.isinf(B, w)
            na, nb = self.isnan(A, w), self.isnan(B, w)
            sa, sb = self.sg(A, w), self.sg(B, w)
            za, zb = self.isz(A, w), self.isz(B, w)
            s = self.side.append
            if nm == 'mul':
                sx = z3.Xor(sa, sb)
                bad = z3.Or(na, nb, z3.And(ia, zb), z3.And(ib, za))
                s(self.isnan(r, w) == bad)
                s(z3.Implies(z3.Not(bad), self.sg(r, w) == sx))
                s(z3.Implies(z3.And(z3.Not(bad), z3.Or(ia, ib)), self.isinf(r, w)))
                s(z3.Implies(z3.And(z3.Not(bad), z3.Or(za, zb)), self.isz(r, w)))
                one = z3.BitVecVal(fpc.from_int(1, w), w)
                s(z3.Implies(z3.And(A == one, z3.Not(nb)), r == B))
                s(z3.Implies(z3.And(B == one, z3.Not(na)), r == A))
            else:
                sb2 = sb if nm == 'add' else z3.Not(sb)
                negB = B if nm == 'add' else B ^ z3.BitVecVal(1 << (w - 1), w)
                bad = z3.Or(na, nb, z3.And(ia, ib, z3.Xor(sa, sb2)))
                s(self.isnan(r, w) == bad)
                s(z3.Implies(z3.And(z3.Not(bad), ia), r == A))
                s(z3.Implies(z3.And(z3.Not(bad), ib), r == negB))
                s(z3.Implies(z3.And(z3.Not(bad), zb, z3.Not(za)), r == A))
                s(z3.Implies(z3.And(z3.Not(bad), za, z3.Not(zb)), r == negB))
                s(z3.Implies(z3.And(za, zb), z3.And(self.isz(r, w), self.sg(r, w) == z3.And(sa, sb2))))
                s(z3.Implies(z3.And(z3.Not(bad), sa == sb2), self.sg(r, w) == sa))
        elif nm == 'div':
            A, B = a
            ia, ib = self.isinf(A, w), self.isinf(B, w)
            na, nb = self.isnan(A, w), self.isnan(B, w)
            za, zb = self.isz(A, w), self.isz(B, w)
            bad = z3.Or(na, nb, z3.And(ia, ib), z3.And(za, zb))
            s = self.side.append
            s(self.isnan(r, w) == bad)
            s(z3.Implies(z3.Not(bad), self.sg(r, w) == z3.Xor(self.sg(A, w), self.sg(B, w))))
            s(z3.Implies(z3.And(z3.Not(bad), z3.Or(ia, zb)), self.isinf(r, w)))
            s(z3.Implies(z3.And(z3.Not(bad), z3.Or(ib, za)), self.isz(r, w)))
        elif nm == 'sqrt':
            A = a[0]
            s = self.side.append
            s(z3.Implies(self.isz(A, w), r == A))
            neg = z3.And(self.sg(A, w), z3.Not(self.isz(A, w)))
            s(self.isnan(r, w) == z3.Or(neg, self.isnan(A, w)))
            s(z3.Implies(z3.And(z3.Not(neg), self.isinf(A, w)), r == A))
            s(z3.Implies(z3.Not(self.isnan(r, w)), self.sg(r, w) == self.sg(A, w)))
            s(z3.Implies(z3.And(z3.Not(neg), z3.Not(self.isinf(A, w)), z3.Not(self.isnan(A, w))), z3.Not(self.isinf(r, w))))
        elif nm in ('sitofp', 'uitofp'):
            A = a[0]
            n = x.args[0].w
            s = self.side.append
            s(z3.Not(self.isnan(r, w)))
            s(z3.Not(self.isinf(r, w)))
            z = A == z3.BitVecVal(0, n)
            s(self.isz(r, w) == z)
            s(self.sg(r, w) == (z3.Extract(n - 1, n - 1, A) == z3.BitVecVal(1, 1) if nm == 'sitofp' else z3.BoolVal(False)))
        elif nm in ('fpext', 'fptrunc'):
            A, n = a[0], x.args[0].w
            s = self.side.append
            s(self.isnan(r, w) == self.isnan(A, n))
            s(z3.Implies(z3.Not(self.isnan(A, n)), self.sg(r, w) == self.sg(A, n)))
            s(z3.Implies(self.isinf(A, n), self.isinf(r, w)))
            s(z3.Implies(self.isz(A, n), self.isz(r, w)))

    @staticmethod
    def sg(e, w):
        return z3.Extract(w - 1, w - 1, e) == z3.BitVecVal(1, 1)

    @staticmethod
    def _mag(e, w):
        return z3.Extract(w - 2, 0, e)

    def isnan(self, e, w):
        return z3.UGT(self._mag(e, w), z3.BitVecVal(t.finf(w).p, w - 1))

    def isinf(self, e, w):
        return self._mag(e, w) == z3.BitVecVal(t.finf(w).p, w - 1)

    def isz(self, e, w):
        return self._mag(e, w) == z3.BitVecVal(0, w - 1)


CVC5 = 'cvc5'


def _cvc5(smt2, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
    try:
        p = subprocess.run([CVC5, '--tlimit=%d' % int(timeout * 1000), '--fp-exp', f.name], capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        return out if out in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(f.name)


def has_fop(roots):
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op.startswith('f:'):
            return True
        st.extend(x.args)
    return False


def has_lut(roots):
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'lut':
            return True
        st.extend(x.args)
    return False


def _exact_candidate(conds):
    """some FP sum or product has operands that look like exact integers"""
    seen, st = set(), list(conds)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('f:add', 'f:sub', 'f:mul') and all(a.op in ('const', 'concat', 'f:sitofp', 'f:uitofp', 'f:add', 'f:sub', 'f:mul', 'add', 'or', 'xor') for a in x.args) \
                and any(a.op not in ('const', 'f:add', 'f:sub', 'f:mul') for a in x.args):
            return True
        st.extend(x.args)
    return False


CACHE = {}
CACHEDIR = None       # verdicts shared between the worker processes of one run


def canon(conds):
    """(key, variable names in order): structure of the conjunction up to renaming of variables"""
    num, names, vid, key = {}, [], {}, []
    for root in conds:
        st = [root]
        while st:
            x = st[-1]
            if x.id in num:
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in num]
            if todo:
                st.extend(reversed(todo))
                continue
            st.pop()
            if x.op == 'var':
                vid[x.p] = len(names)
                names.append(x.p)
                k = ('var', x.w, vid[x.p])
            elif x.op == 'const':
                k = ('const', x.w, x.p)
            else:
                k = (x.op, x.w, x.p) + tuple(num[a.id] for a in x.args)
            num[x.id] = len(key)
            key.append(k)
        key.append(('root', num[root.id]))
    return hashlib.blake2b(repr(key).encode(), digest_size=20).hexdigest(), len(key), names


def varset(c, memo):
    seen, st, vs = set(), [c], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            vs.add(x.p)
        st.extend(x.args)
    return vs


def solve_cached(pre, neg, memo=None, **kw):
    """decide pre & neg: preconditions over other variables are sliced away, and verdicts are shared
    between queries that differ only in variable names"""
    vs = varset(neg, memo)
    left, used = [(p, varset(p, memo)) for p in pre], []
    # preconditions over the query's own variables usually suffice
    own = [p for p, q in left if q <= vs]
    if len(own) < len([1 for p, q in left if q & vs]):
        if solve_cached(own, neg, memo, **kw)[0] == 'unsat':
            return 'unsat', None
    grown = True
    while grown:
        grown = False
        for q in list(left):
            if q[1] & vs or not q[1]:
                used.append(q[0])
                vs |= q[1]
                left.remove(q)
                grown = True
    k1, k2, names = canon(used + [neg])
    key = (k1, k2, tuple(sorted(kw.items())))
    r = CACHE.get(key)
    fn = '%s/q_%s' % (CACHEDIR, hashlib.blake2b(repr(key).encode(), digest_size=20).hexdigest()) if CACHEDIR else None
    if r is None and fn and os.path.exists(fn):
        try:
            with open(fn, 'rb') as f:
                r = pickle.load(f)
        except (OSError, EOFError, pickle.UnpicklingError):
            r = None
    if r is None:
        t0 = time.time()
        v, env = solve(used + [neg], **kw)
        CACHE[key] = (v, None if env is None else [env.get(n, 0) for n in names])
        if fn and time.time() - t0 > 0.05:
            with open('%s.%d' % (fn, os.getpid()), 'wb') as f:
                pickle.dump(CACHE[key], f)
            os.rename('%s.%d' % (fn, os.getpid()), fn)
    else:
        v, vals = r
        env = None if vals is None else dict(zip(names, vals))
        STATS.cached += 1
    if env is not None and left:
        v2, e2 = solve([q[0] for q in left], timeout=10, try_fp=False)
        if e2 is not None:
            env = {**e2, **env}
        elif v2 == 'unsat':
            return 'unsat', None
    return v, env


def distinct(negs):
    """number of queries left after renaming variables"""
    return len({canon([n])[:2] for n in negs})


def _exact(conds):
    from . import fexact

    def prove(c):
        if c.op == 'const':
            return bool(c.p)
        if has_fop([c]):
            return False
        return solve([t.not_(c)], 5, cvc5=False)[0] == 'unsat'
    return fexact.rewrite(conds, prove)


def _convs_proved(conds, timeout):
    """conds is unsatisfiable because two converted values T and S are equal: prove pre -> T = S for the
    operands of conversions to integers in the last condition, then conds & T = S unsatisfiable with the
    conversions uninterpreted"""
    xs, seen, st = {}, set(), [conds[-1]]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'f2i':
            xs[x.args[0].id] = x.args[0]
        st.extend(x.args)
    if not 2 <= len(xs) <= 4:
        return False
    ys = sorted(xs.values(), key=lambda x: has_fop([x]))
    S, eqs = ys[0], []
    for T in ys[1:]:
        if T.w == S.w:
            e = t.eq(T, S)
            if solve(conds[:-1] + [t.not_(e)], timeout, exact=False)[0] == 'unsat':
                eqs.append(e)
    if not eqs:
        return False
    enc = Enc('uf', True)
    s = z3.Solver()
    for c in conds + eqs:
        s.add(enc.enc(c))
    for z in enc.side:
        s.add(z)
    s.set('timeout', int(timeout * 1000))
    t0 = time.time()
    r = s.check()
    STATS.add('z3', time.time() - t0)
    return r == z3.unsat


def _scale_exp(x):
    """k when x is a product with the constant 2^k"""
    if x.op != 'f:mul' or x.w not in t.FMT:
        return None
    e, m = t.FMT[x.w]
    for c, y in (x.args, x.args[::-1]):
        if c.op == 'const' and y.op != 'const' and not c.p & ((1 << m) - 1) and 0 < c.p >> m < (1 << e) - 1:
            return y, (c.p >> m) - ((1 << (e - 1)) - 1)
    return None


def _unscale(conds):
    """products with constant powers of two as exact bit-vector operations; None when nothing changes or
    floating-point operations remain"""
    memo, st, used = {}, list(conds), False
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        k = _scale_exp(x)
        if k:
            used = True
            r = spec.scalbn(memo[k[0].id], t.const(k[1], 32))
        elif x.op == 'f2i' or x.op.startswith('f:'):
            return None
        else:
            a = tuple(memo[y.id] for y in x.args)
            r = x if all(p is q for p, q in zip(a, x.args)) else t._mk(x.op, a, x.w, x.p)
        memo[x.id] = r
    return [memo[c.id] for c in conds] if used else None


SWEEP = False


def _sweep(conds):
    from . import sweep

    def prove(eq):
        if eq.op == 'const':
            return bool(eq.p)
        enc = Enc('uf', True, True)
        s = z3.Solver()
        s.add(enc.enc(t.not_(eq)))
        for z in enc.side:
            s.add(z)
        s.set('timeout', 3000)
        t0 = time.time()
        r = s.check()
        STATS.add('z3', time.time() - t0)
        return r == z3.unsat
    return sweep.rewrite(conds, prove)


def _signs(conds):
    """the conjunction for either sign of the operand, the sign being a constant"""
    cnt, seen, st = {}, set(), list(conds)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op.startswith('f:'):
            for y in x.args:
                if y.op == 'var':
                    cnt[y.id] = (cnt.get(y.id, (0,))[0] + 1, y)
        for y in x.args:
            if x.op == 'extract' and y.op == 'var' and y.w in t.FMT:
                cnt[y.id] = (cnt.get(y.id, (0,))[0] + 1, y)
        st.extend(x.args)
    if not cnt:
        return [conds]
    v = max(cnt.values(), key=lambda z: (z[0], z[1].p))[1]
    low = t.extract(v, v.w - 2, 0)
    return [t.subst(conds, {v.id: t.concat(const(b, 1), low)}) + [t.eq(t.extract(v, v.w - 1, v.w - 1), const(b, 1))] for b in (0, 1)]


def solve(conds, timeout=20, max_cegar=12, try_fp=True, cvc5=True, fp_timeout=None, exact=True):
    """conds: list of bool terms (conjunction).
    Returns (verdict, env): verdict in unsat / sat (concretely confirmed model) / unknown."""
    conds = [c for c in conds]
    fop = has_fop(conds)
    if fop and exact:
        new = _unscale(conds)
        if new:
            v, env = solve(new, timeout, cvc5=cvc5)
            if v == 'sat':
                env = {**{n: 0 for n in varset(t.conj(conds), {})}, **env}
                if not all(t.evaluate(conds, env)):
                    raise AssertionError('scaling lemma refuted')
            if v in ('sat', 'unsat'):
                return v, env
    if exact and fop and _exact_candidate(conds):
        new = _exact(conds)
        if new and solve(new, timeout, max_cegar, try_fp=False, cvc5=False, exact=False)[0] == 'unsat':
            return 'unsat', None
    if fop and exact and _convs_proved(conds, min(timeout, 10)):
        return 'unsat', None
    if fop and exact and SWEEP:
        new = _sweep(conds)
        if new:
            if any(c.op == 'const' and not c.p for c in new):
                return 'unsat', None
            v, env = solve(new, min(timeout, 5), max_cegar, False, False, fp_timeout, exact=False)
            if v != 'unknown':
                return v, env
        for cs in _signs(conds):
            if any(c.op == 'const' and not c.p for c in cs):
                continue
            new = _sweep(cs) or cs
            if any(c.op == 'const' and not c.p for c in new):
                continue
            v, env = solve(new, timeout, max_cegar, try_fp, cvc5, fp_timeout, exact=False)
            if v == 'sat':
                break
            if v != 'unsat':
                return 'unknown', None
        else:
            return 'unsat', None
        return 'unknown', None
    lut = has_lut(conds)
    for mode in (('free', 'uf') if lut else ('free',) if fop else ()):
        # abstractions: operations without their axioms, constant tables as functions
        enc = Enc(mode, True, True)
        s = z3.Solver()
        for c in conds:
            s.add(enc.enc(c))
        for z in enc.side:
            s.add(z)
        s.set('timeout', int(timeout * (100 if mode == 'free' else 500)))
        t0 = time.time()
        r = s.check()
        STATS.add('z3', time.time() - t0)
        if r == z3.unsat:
            return 'unsat', None
    deadline = time.time() + timeout
    enc = Enc('uf')
    s = z3.Solver()
    ax = lemmas.axioms(conds) if fop else []
    zs = [enc.enc(c) for c in conds + ax]
    for z in zs:
        s.add(z)
    for z in enc.side:
        s.add(z)
    cand = None
    rounds = 0
    while True:
        left = deadline - time.time()
        if left <= 0.05:
            break
        s.set('timeout', int(left * 1000))
        t0 = time.time()
        r = s.check()
        STATS.add('z3', time.time() - t0)
        if r == z3.unsat:
            return 'unsat', None
        if r != z3.sat:
            break
        m = s.model()
        env = _env(m, enc.vars)
        try:
            ok = all(t.evaluate(conds, env))
        except NotImplementedError:
            return 'model', env
        if ok:
            return 'sat', env
        if ax and not all(t.evaluate(ax, env)):
            raise AssertionError('floating-point lemma refuted')
        if not fop:
            raise AssertionError('model of FP-free query does not evaluate to true')
        cand = env
        rounds += 1
        STATS.rounds += 1
        if rounds > max_cegar:
            break
        memo = {}
        t.evaluate(conds, env, memo=memo)
        n = 0
        for x in enc.fnodes:
            try:
                vals = t.evaluate(list(x.args), env, memo=memo)
                v = t.evaluate([x], env, memo=memo)[0]
            except NotImplementedError:
                continue
            ante = z3.And(*[enc.memo[y.id] == (z3.BoolVal(bool(q)) if y.w == 1 else z3.BitVecVal(q, y.w)) for y, q in zip(x.args, vals)])
            e = enc.memo[x.id]
            if fpc.isnan(v, x.w) if x.w in t.FMT else False:
                s.add(z3.Implies(ante, enc.isnan(e, x.w)))
            else:
                s.add(z3.Implies(ante, e == z3.BitVecVal(v, x.w)))
            n += 1
        if not n:
            break
    if not fop:
        # pure BV: try cvc5 as second opinion on timeouts
        if cvc5:
            t0 = time.time()
            r = _cvc5(s.to_smt2(), timeout)
            STATS.add('cvc5', time.time() - t0)
            if r == 'unsat':
                return 'unsat', None
        return 'unknown', cand
    if try_fp:
        enc = Enc('fp')
        s = z3.Solver()
        for c in conds + ax:
            s.add(enc.enc(c))
        for z in enc.side:
            s.add(z)
        if cvc5:
            t0 = time.time()
            r = _cvc5(s.to_smt2(), fp_timeout or timeout)
            STATS.add('cvc5', time.time() - t0)
            if r == 'unsat':
                return 'unsat', None
        s.set('timeout', int((fp_timeout or timeout) * 1000))
        t0 = time.time()
        r = s.check()
        STATS.add('z3-fp', time.time() - t0)
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            env = _env(s.model(), enc.vars)
            try:
                if all(t.evaluate(conds, env)):
                    return 'sat', env
            except NotImplementedError:
                return 'model', env
            cand = env
    return 'unknown', cand


def _env(m, vars):
    env = {}
    for n, (v, w) in vars.items():
        x = m.eval(v, model_completion=True)
        env[n] = (1 if z3.is_true(x) else 0) if w == 1 else x.as_long()
    return env
