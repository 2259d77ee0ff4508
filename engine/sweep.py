"""Merging of equal floating-point subterms.

Two computations of the same function along different paths (another width, another branch) share most of
their floating-point operations once the pieces in which they differ are known to be equal.  Candidates are
operations that agree on sample inputs; each candidate pair is proved equal by the solver, in topological order
and under the other conditions of the query, before one replaces the other."""
import random
from . import term as t

SPECIAL = {32: [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000001, 0x00400000, 0x7f7fffff, 0x3f000000],
           64: [0, 1 << 63, 0x3ff0 << 48, 0xbff0 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 1, (1 << 63) | 1, 0x0008 << 48, 0x7fefffffffffffff, 0x3fe0 << 48]}


def _rand(w, r):
    if w not in t.FMT:
        return r.getrandbits(w)
    k = r.random()
    e, m = t.FMT[w]
    if k < 0.15:
        return r.choice(SPECIAL.get(w, [0]))
    if k < 0.7:
        b = (1 << (e - 1)) - 1
        return (r.getrandbits(1) << (w - 1)) | ((b + r.randint(-12, 12)) << m) | r.getrandbits(m)
    return r.getrandbits(w)


def _order(conds):
    out, seen, st = [], set(), [(c, False) for c in conds]
    while st:
        x, done = st.pop()
        if done:
            out.append(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        st.append((x, True))
        st.extend((a, False) for a in x.args if a.id not in seen)
    return out


def _equal(m, n, prove):
    if m.op == n.op and m.w == n.w and m.p == n.p and len(m.args) == len(n.args) and [x.w for x in m.args] == [x.w for x in n.args]:
        if prove(t.conj([t.eq(x, y) for x, y in zip(m.args, n.args)])):
            return True
        if m.op in ('f:add', 'f:mul') and prove(t.conj([t.eq(x, y) for x, y in zip(m.args, reversed(n.args))])):
            return True
    return m.op != n.op and prove(t.eq(m, n))


def rewrite(conds, prove, samples=24, budget=60):
    """conds with equal floating-point operations merged, or None.  prove(hyps, eq) -> bool"""
    order = _order(conds)
    nodes = [x for x in order if x.op.startswith('f:')]
    if len(nodes) < 4:
        return None
    r = random.Random(len(order))
    vs = [x for x in order if x.op == 'var']
    envs = []
    for k in range(samples):
        env = {v.p: _rand(v.w, r) for v in vs}
        if k % 3 == 0:
            q = {}
            for v in vs:
                env[v.p] = q.setdefault(v.w, env[v.p])
        envs.append(env)
    sig = {}
    try:
        cols = [t.evaluate(nodes, env) for env in envs]
    except NotImplementedError:
        return None
    for i, x in enumerate(nodes):
        sig.setdefault((x.op, x.w) + tuple(c[i] for c in cols), []).append(x)
    groups = {}
    for g in sig.values():
        if len(g) > 1:
            for x in g:
                groups[x.id] = g
    memo, reps, used, tries = {}, {}, 0, 0
    for x in order:
        a = tuple(memo[y.id] for y in x.args)
        n = x if all(p is q for p, q in zip(a, x.args)) else t.rebuild(x.op, a, x.w, x.p)
        g = groups.get(x.id)
        if g is not None:
            for m in reps.setdefault(id(g), []):
                if m is n:
                    break
                if tries < budget:
                    tries += 1
                    if _equal(m, n, prove):
                        n = m
                        used += 1
                        break
            else:
                if len(reps[id(g)]) < 3:
                    reps[id(g)].append(n)
        memo[x.id] = n
    if not used:
        return None
    return [memo[c.id] for c in conds]
