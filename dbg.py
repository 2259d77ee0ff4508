"""development aid: show the terms and a model for one harness: dbg.py p10 <id>"""
import importlib, sys, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import runner, smt, term as t, symex
def main():
    mod = importlib.import_module('props.' + sys.argv[1])
    h = [h for tier in ('quick', 'thorough') for h in mod.gen(tier) if h.id == sys.argv[2]][0]
    wd = runner.workdir()
    head = ""; runner.pch(wd, h.isa)
    print(h.source())
    m = runner.compile_ll(wd, 'd', h.isa, [h], head)
    t.reset()
    c, ex = runner.symexec(h, m)
    pre = list(h.pre(c)) if h.pre else []
    for n, L in c.fin.items():
        for i, x in enumerate(L[:2]):
            print(n, i, t.show(x, int(os.environ.get('D', '8')))[:3000])
    for label, cond in h.spec(c):
        v, env = smt.solve_cached(pre, t.not_(cond), timeout=20)
        print(label, v, env)
        if env and v != 'unsat':
            env = dict(env)
            print({n: [hex(q) for q in t.evaluate(L, env)] for n, L in list(c.init.items()) + list(c.fin.items()) if L})
            break
    for o in ex.obls:
        v, env = smt.solve_cached(pre, o.cond, timeout=20)
        print(o.kind, o.what, v, env)
main()
