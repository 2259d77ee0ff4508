"""Theorems of IEEE-754 arithmetic (round to nearest even) instantiated on the terms of a query.

Each axiom is a true statement about the floating-point operations occurring in the query, so adding it
changes no verdict; it spares the solver a bit-level proof of the same fact. lemmas_check.py
discharges every lemma schema with an SMT solver in the theory of floating-point numbers (run by P13)."""
from . import term as t
from .term import const


def _nodes(conds):
    seen, out, st = set(), [], list(conds)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(x.args)
    return out


def magic(w):
    """2^m: adding and subtracting it rounds smaller magnitudes to an integer"""
    e, m = t.FMT[w]
    return (((1 << (e - 1)) - 1 + m) << m)


def below_half(w):
    e, m = t.FMT[w]
    return (((1 << (e - 1)) - 3) << m) | ((1 << m) - 1)


def one(w):
    e, m = t.FMT[w]
    return ((1 << (e - 1)) - 1) << m


def lemma_magic(A, Y):
    """A = (Y + 2^m) - 2^m"""
    w = Y.w
    C = const(magic(w), w)
    return t.and_(t.or_(t.not_(t.isnan(Y)), t.isnan(A)),
                  t.or_(t.not_(t.and_(t.not_(t.fsign(Y)), t.flt(Y, C))), t.eq(A, t.fround(Y, 'rint'))))


def lemma_half(Z, X):
    """Z = X + copysign(predecessor of 0.5, X)"""
    return t.fsame(t.fround(Z, 'trunc'), t.fround(X, 'round'))


def lemma_down(S, R, y):
    """S = R - 1 where R = rint(y) > y"""
    g = t.and_(t.and_(t.eq(R, t.fround(y, 'rint')), t.flt(y, R)), t.flt(t.fabs_(y), const(magic(y.w), y.w)))
    return t.or_(t.not_(g), t.eq(S, t.fround(y, 'floor')))


def lemma_up(S, R, y):
    """S = R + 1 where R = rint(y) < y"""
    g = t.and_(t.and_(t.eq(R, t.fround(y, 'rint')), t.flt(R, y)), t.flt(t.fabs_(y), const(magic(y.w), y.w)))
    c = t.fround(y, 'ceil')
    return t.or_(t.not_(g), t.eq(S, t.ite(t.iszero(c), const(0, y.w), c)))


def axioms(conds):
    ns = _nodes(conds)
    out = []
    fl = [x for x in ns if x.op in ('f:add', 'f:sub') and x.w in (32, 64)]
    if not fl:
        return out
    cands = {}
    for A in fl:
        w = A.w
        C = magic(w)
        neg = C | 1 << (w - 1)
        x, c = A.args if A.args[1].op == 'const' else A.args[::-1]
        if A.op == 'f:add' and c.op == 'const' and c.p == neg and x.op == 'f:add':
            Y, d = x.args if x.args[1].op == 'const' else x.args[::-1]
            if d.op == 'const' and d.p == C:
                out.append(lemma_magic(A, Y))
                cands.setdefault(w, []).append(Y)
                if Y.op == 'and':
                    for q in Y.args:
                        if q.op != 'const':
                            cands[w].append(q)
                continue
        if A.op == 'f:add':
            for X, O in (A.args, A.args[::-1]):
                want = t.or_(t.and_(X, const(1 << (w - 1), w)), const(below_half(w), w))
                if O is want or O.id == want.id:
                    out.append(lemma_half(A, X))
    for S in fl:
        w = S.w
        if not cands.get(w):
            continue
        for R, K in (S.args, S.args[::-1]) if S.op == 'f:add' else (S.args,):
            if K.op != 'ite' or not all(q.op == 'const' for q in K.args[1:]):
                continue
            for y in cands[w][:6]:
                out.append(t.or_(t.not_(t.eq(K, const(one(w), w))), (lemma_down if S.op == 'f:sub' else lemma_up)(S, R, y)))
            nz = R if S.op == 'f:sub' else t.ite(t.iszero(R), const(0, w), R)
            if S.op == 'f:add':
                nz = t.ite(t.eq(R, const(1 << (w - 1), w)), const(0, w), R)
            out.append(t.or_(t.not_(t.eq(K, const(0, w))), t.fsame(S, nz)))
    return out
