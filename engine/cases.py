"""Case splits: the term a result reduces to under a hypothesis.

Boolean subterms over the operand's bits (no floating-point arithmetic below them) that the hypothesis decides are
replaced by their value; each replacement is proved by the solver."""
import z3
from . import term as t, smt
from .sweep import _order


def _plain(order):
    """ids of terms that do not depend on arithmetic or opaque operations"""
    ok = set()
    for x in order:
        if x.op.startswith('f:') or x.op == 'lut':
            continue
        if all(a.id in ok for a in x.args):
            ok.add(x.id)
    return ok


def _holds(s, enc, x):
    s.push()
    s.add(z3.Not(enc.enc(x)))
    r = s.check()
    s.pop()
    return r == z3.unsat


NANOPS = {'add', 'sub', 'mul', 'div', 'fma', 'sqrt', 'fpext', 'fptrunc'}


def _nan(w):
    e, m = t.FMT[w]
    return t.concat(t.fresh('nan', 1), t.ones(e + 1), t.fresh('nan', m - 1))


def _nans(roots, holds):
    """the roots with every operation on a NaN operand replaced by an arbitrary NaN"""
    order = _order(roots)
    ok, known, rep = _plain(order), set(), {}
    for x in order:
        if x.w in t.FMT and x.id in ok and x.op in ('var', 'concat', 'ite', 'and', 'or', 'xor') and holds(t.isnan(x)):
            known.add(x.id)
        elif x.op == 'ite' and all(a.id in known for a in x.args[1:]):
            known.add(x.id)
        elif x.op.startswith('f:') and x.w in t.FMT and (x.op[2:] in NANOPS or x.op.startswith('f:libm:') and len(x.args) == 1) and any(a.id in known for a in x.args):
            known.add(x.id)
            rep[x.id] = _nan(x.w)
    return t.subst(roots, rep) if rep else roots


def assume(roots, hyp, timeout=5, nans=False):
    """the roots with every boolean subterm that hyp decides replaced"""
    roots = list(roots)
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    enc = smt.Enc('bv')
    s.add(enc.enc(hyp))
    if s.check() != z3.sat:
        return roots
    models = [s.model()]
    while True:
        order = _order(roots)
        ok = _plain(order)
        rep = {}
        for x in order:
            if x.op in ('const', 'var') or x.id not in ok or x.w > 64:
                continue
            e = enc.enc(x)
            vals = {m.eval(e, model_completion=True).sexpr() for m in models}
            if len(vals) > 1:
                continue
            v = models[0].eval(e, model_completion=True)
            s.push()
            s.add(e != v)
            r = s.check()
            if r == z3.sat:
                models.append(s.model())
            s.pop()
            if r == z3.unsat:
                rep[x.id] = t.const(int(z3.is_true(v)) if x.w == 1 else v.as_long(), x.w)
        if rep:
            roots = t.subst(roots, rep)
        r2 = _nans(roots, lambda z: _holds(s, enc, z)) if nans else roots
        if not rep and all(a is b for a, b in zip(roots, r2)):
            return roots
        roots = r2
