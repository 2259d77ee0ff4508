#!/usr/bin/env python3-vt
"""Discharge the floating-point lemma schemas of engine/lemmas.py in the SMT theory of floating-point
numbers: lemmas_check.py [timeout seconds]. Prints one line per lemma and format."""
import os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import lemmas, smt, spec, term as t

RNE, RTZ, RNA, RTN, RTP = z3.RNE(), z3.RTZ(), z3.RNA(), z3.RTN(), z3.RTP()


def goals(w):
    S = z3.Float32() if w == 32 else z3.Float64()
    bits = z3.BitVec('x', w)
    x = z3.fpBVToFP(bits, S)
    K = lambda v: z3.fpBVToFP(z3.BitVecVal(v, w), S)
    C, ph, one = K(lemmas.magic(w)), K(lemmas.below_half(w)), K(lemmas.one(w))
    rti = z3.fpRoundToIntegral
    rng = z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNegative(x)), z3.fpLT(x, C))
    fin = z3.And(z3.Not(z3.fpIsNaN(x)), z3.fpLT(z3.fpAbs(x), C))
    yield 'magic', [rng], z3.fpSub(RNE, z3.fpAdd(RNE, x, C), C) == rti(RNE, x)
    o = z3.fpBVToFP((bits & z3.BitVecVal(1 << (w - 1), w)) | z3.BitVecVal(lemmas.below_half(w), w), S)
    yield 'half', [z3.Not(z3.fpIsNaN(x))], rti(RTZ, z3.fpAdd(RNE, x, o)) == rti(RNA, x)
    R = rti(RNE, x)
    yield 'down', [fin, z3.fpLT(x, R)], z3.fpSub(RNE, R, one) == rti(RTN, x)
    c = rti(RTP, x)
    yield 'up', [fin, z3.fpLT(R, x)], z3.fpAdd(RNE, R, one) == z3.If(z3.fpIsZero(c), z3.fpPlusZero(S), c)


def scaling(w):
    """products with 2^k are exact scaling (spec.scalbn) for the constants the library uses; sign symmetry of constants"""
    e, m = t.FMT[w]
    bias = (1 << (e - 1)) - 1
    S = z3.Float32() if w == 32 else z3.Float64()
    for k in (m + 2, -(m + 2)):
        tx = t.var('x', w)
        enc = smt.Enc('uf')
        r = enc.enc(spec.scalbn(tx, t.const(k, 32)))
        bits = enc.vars['x'][0]
        x = z3.fpBVToFP(bits, S)
        y = z3.fpMul(RNE, x, z3.fpBVToFP(z3.BitVecVal((bias + k) << m, w), S))
        yield 'scale%+d' % k, [z3.Not(z3.fpIsNaN(x))] + enc.side, z3.fpBVToFP(r, S) == y
    a, b = z3.BitVec('a', w), z3.BitVec('b', w)
    F = lambda v: z3.fpBVToFP(v, S)
    sg = z3.BitVecVal(1 << (w - 1), w)
    yield 'mulsign', [z3.Extract(w - 1, w - 1, b) == 0], z3.fpMul(RNE, F(a), F(b | sg)) == z3.fpNeg(z3.fpMul(RNE, F(a), F(b)))


def run(w, name, pre, goal, timeout):
    s = z3.Solver()
    for p in pre:
        s.add(p)
    s.add(z3.Not(goal))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic QF_BVFP)\n' + s.to_smt2())
    t0, res = time.time(), 'unknown'
    ps = [(n, subprocess.Popen(c + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
          for n, c in (('z3', ['z3-new', '-T:%d' % timeout]), ('cvc5', ['cvc5', '--tlimit=%d' % (timeout * 1000)]))]
    who = ''
    while any(p.poll() is None for _, p in ps) and res == 'unknown':
        time.sleep(0.1)
        for n, p in ps:
            if p.poll() is not None and p.stdout and not p.stdout.closed:
                o = p.stdout.read().split('\n')[0]
                p.stdout.close()
                if o in ('sat', 'unsat'):
                    res, who = o, n
    for n, p in ps:
        if p.poll() is None:
            p.kill()
        elif p.stdout and not p.stdout.closed:
            o = p.stdout.read().split('\n')[0]
            if res == 'unknown' and o in ('sat', 'unsat'):
                res, who = o, n
    os.unlink(f.name)
    return w, name, res, who, time.time() - t0


def main():
    timeout = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    gen = scaling if 'scaling' in sys.argv else goals
    jobs = [(w, n, p, g) for w in (32, 64) for n, p, g in gen(w)]
    txt = []
    for w, n, p, g in jobs:        # z3 terms are built and printed on one thread
        txt.append(run(w, n, p, g, timeout))
        print('lemma %s f%d: %s (%s, %.1f s)' % (txt[-1][1], w, txt[-1][2], txt[-1][3], txt[-1][4]), flush=True)
    return 1 if any(r[2] == 'sat' for r in txt) else 0


if __name__ == '__main__':
    sys.exit(main())
