"""Compiles harnesses against /repo, executes them symbolically, discharges their specifications with
an SMT solver, replays counterexamples natively and writes evidence."""
import bisect
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import ir, smt, symex
from . import term as t
from .harness import ISAS, Ctx, layout, make_inputs
from .term import const

REPO = os.environ.get('DPM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
DEFS = ['-DDPM_INLINE_EXTENSIONS', '-DDPM_HANDLE_ERRORS', '-DDPM_PROPAGATE_NAN', '-DNDEBUG']
CFLAGS = ['-std=c++20', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-w', '-fPIC',
          '-fno-exceptions', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-strict-aliasing']
GFLAGS = ['-std=c++20', '-O2', '-w', '-fPIC', '-shared', '-ffp-contract=off']
HEAD = '#include <dpm/simd.hpp>\n#include <dpm/utility.hpp>\n#include <dpm/math.hpp>\n#include <array>\n#include <functional>\n'


class CompileError(Exception):
    pass


def workdir():
    d = tempfile.mkdtemp(prefix='dpmverif-')
    os.makedirs(d + '/inc', exist_ok=True)
    if not os.path.exists(REPO + '/dpm/detail/export.gen.hpp'):
        with open(d + '/inc/export.gen.hpp', 'w') as f:
            f.write('#pragma once\n#define DPM_EXPORT __attribute__((visibility("default")))\n'
                    '#define DPM_NO_EXPORT __attribute__((visibility("hidden")))\n')
    return d


def incs(wd):
    return ['-I' + REPO, '-I' + wd + '/inc', '-I' + REPO + '/dpm/detail']


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def alt_defs(alt):
    """flags of the second configuration of the library, which lives in its own namespace"""
    return ['-Ddpm=dpmb', '-DDPM_INLINE_EXTENSIONS', '-DNDEBUG'] + list(alt)


def lib_bc(wd, isa, dep, alt=None):
    """compile a library source to bitcode (cached per run)"""
    out = '%s/lib_%s_%s%s.bc' % (wd, isa, os.path.basename(dep).replace('.', '_'), '' if alt is None else '_' + ''.join(x[2:] for x in alt))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        rc, o = sh([CLANG] + CFLAGS + ISAS[isa] + (DEFS if alt is None else alt_defs(alt)) + incs(wd) + ['-c', '-emit-llvm', os.path.join(REPO, dep), '-o', tmp])
        if rc:
            raise CompileError('library source %s does not compile for %s:\n%s' % (dep, isa, o[:2000]))
        os.rename(tmp, out)
    return out


FIRST = '/*first*/'


def source(hs, head='', pch=False):
    if head.startswith(FIRST):
        # comes before the headers
        a, b = head + HEAD, ''
    else:
        a, b = HEAD, head
    return ('' if pch else a) + b + '\n'.join(h.source() for h in hs)


def pch(wd, isa, head=''):
    """precompiled header for an instruction set (clang, encoding flags)"""
    first = head.startswith(FIRST)
    out = '%s/head%s_%s.pch' % (wd, '1' if first else '', isa)
    if not os.path.exists(out):
        src = out[:-4] + '.hpp'
        tmp = '%s.%d' % (out, os.getpid())
        if not os.path.exists(src):
            with open(tmp + '.hpp', 'w') as f:
                f.write((head if first else '') + HEAD)
            try:
                os.link(tmp + '.hpp', src)
            except FileExistsError:
                pass
        rc, o = sh([CLANG] + CFLAGS + ISAS[isa] + DEFS + incs(wd) + ['-x', 'c++-header', src, '-o', tmp])
        if rc:
            raise CompileError('the headers do not compile for %s:\n%s' % (isa, o[:3000]))
        os.rename(tmp, out)
    return out


def compile_ll(wd, tag, isa, hs, head=''):
    src = '%s/%s.cpp' % (wd, tag)
    with open(src, 'w') as f:
        f.write(source(hs, head, True))
    deps = sorted({d for h in hs for d in h.deps})
    ll = '%s/%s.ll' % (wd, tag)
    inc = ['-include-pch', pch(wd, isa, head)]
    if any(getattr(h, 'cflags', None) for h in hs):
        with open(src, 'w') as f:
            f.write(source(hs, head))
        inc = hs[0].cflags
    if not deps:
        rc, o = sh([CLANG] + CFLAGS + ISAS[isa] + DEFS + incs(wd) + inc + ['-S', '-emit-llvm', src, '-o', ll])
        if rc:
            raise CompileError(o)
    else:
        bc = '%s/%s.bc' % (wd, tag)
        rc, o = sh([CLANG] + CFLAGS + ISAS[isa] + DEFS + incs(wd) + inc + ['-c', '-emit-llvm', src, '-o', bc])
        if rc:
            raise CompileError(o)
        more = []
        alt = getattr(hs[0], 'alt', None)
        if alt is not None:
            # the harnesses' counterparts over the second configuration
            asrc, abc = '%s/%s_alt.cpp' % (wd, tag), '%s/%s_alt.bc' % (wd, tag)
            with open(asrc, 'w') as f:
                f.write(HEAD + '\n'.join(h.alt_src for h in hs))
            rc, o = sh([CLANG] + CFLAGS + ISAS[isa] + alt_defs(alt) + incs(wd) + ['-c', '-emit-llvm', asrc, '-o', abc])
            if rc:
                raise CompileError(o)
            more = [abc] + [lib_bc(wd, isa, d, alt) for d in deps]
        rc, o = sh([LINK, '-S', bc] + [lib_bc(wd, isa, d) for d in deps] + more + ['-o', ll])
        if rc:
            raise CompileError('link: ' + o)
    with open(ll) as f:
        return ir.parse_module(f.read())


def compile_so(wd, tag, isa, hs, head='', cxx='g++'):
    src = '%s/%s_n.cpp' % (wd, tag)
    so = '%s/%s_%s.so' % (wd, tag, cxx.replace('+', 'x'))
    if os.path.exists(so):
        return so
    with open(src, 'w') as f:
        f.write(source(hs, head))
    deps = sorted({d for h in hs for d in h.deps})
    flags = GFLAGS if cxx == 'g++' else GFLAGS + ['-fno-vectorize']
    if getattr(hs[0], 'build', None):
        hs[0].build(cxx, [f for f in flags if f != '-shared'] + ISAS[isa] + DEFS + incs(wd) + hs[0].cflags, [src] + [os.path.join(REPO, d) for d in deps], so)
        return so
    objs = []
    alt = getattr(hs[0], 'alt', None)
    if alt is not None:
        asrc = src[:-4] + '_alt.cpp'
        with open(asrc, 'w') as f:
            f.write(HEAD + '\n'.join(h.alt_src for h in hs))
        for i, x in enumerate([asrc] + [os.path.join(REPO, d) for d in deps]):
            rc, o = sh([cxx] + [f for f in flags if f != '-shared'] + ISAS[isa] + alt_defs(alt) + incs(wd) + ['-c', x, '-o', '%s.%d.o' % (so, i)])
            if rc:
                raise CompileError('%s: %s' % (cxx, o[:3000]))
            objs.append('%s.%d.o' % (so, i))
    rc, o = sh([cxx] + flags + ISAS[isa] + DEFS + incs(wd) + [src] + [os.path.join(REPO, d) for d in deps] + objs + ['-o', so])
    if rc:
        raise CompileError('%s: %s' % (cxx, o[:3000]))
    return so


# ------------------------------------------------------------------ symbolic run of one harness
class Result:
    def __init__(self, h):
        self.id = h.id
        self.status = 'ok'      # ok | violation | undecided | nocompile
        self.notes = []
        self.queries = 0
        self.sat_candidates = 0
        self.solver_s = 0.0
        self.exec_s = 0.0
        self.fns = 0
        self.steps = 0
        self.blocks = 0
        self.fnames = ()
        self.obls = 0
        self.violation = None
        self.witness = None
        self.validated = 0
        self.known = []
        self.samples = []


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def symexec(h, mod):
    """returns (ctx with init/fin, exec object)"""
    ex = symex.Exec(mod)
    if h.stubs:
        ex.stubs.update(h.stubs)
    st = ex.new_state()
    sizes = {}
    for a in h.args:
        if a.kind == 'A':
            sizes[a.name] = a.n * (1 if a.boolean else TYS(a.T))
        else:
            g = ir.global_init(mod, '@%s__sz_%s' % (h.sym(), a.name))
            sizes[a.name] = g[1][1]
    c = make_inputs(h, sizes)
    if getattr(h, 'asm', None):
        ex.asm_hook = lambda x, st, ins: h.asm(c, x, st, ins)
    ptrs, oids = [], {}
    for a in h.args:
        n = sizes[a.name]
        cells = None
        if 'i' in a.io:
            cells = []
            s, k = layout(a, h.isa, n)
            for x in c.init[a.name]:
                cells += [(x, j) for j in range(s)]
        oid = ex.alloc(st, a.name, n, cells, ro=(a.io == 'i'))
        oids[a.name] = oid
        ptrs.append(symex.mkptr(oid, const(0, 64)))
    name = '@' + h.sym()
    st, _ = ex.call(st, name, ptrs)
    if st is None:
        raise symex.Unsupported('harness never returns')
    for a in h.args:
        if 'o' in a.io:
            s, k = layout(a, h.isa, sizes[a.name])
            ob = st.mem[oids[a.name]]
            fin = []
            for i in range(k):
                v = ex._rd(ob, i * s, s)
                if isinstance(v, symex.Ptr):
                    v = ex.ptrtoint(st, v, 64)
                fin.append(v)
            c.fin[a.name] = fin
    return c, ex


def TYS(T):
    from .harness import size
    return size(T)


def pack(h, c, env):
    """concrete buffers for every argument"""
    bufs = []
    for a in h.args:
        n = c.sizes[a.name]
        al = a.align
        if al is None:
            if a.kind == 'A':
                al = 1 if a.boolean else TYS(a.T)
            else:
                x = a.abi.x86(a.T, h.isa)
                al = x if x else max(16, 1)
                if a.kind == 'V' and a.abi.A not in ('scalar', -1, 0):
                    al = max(al, a.abi.A)
                while n % al and al > 1 and not x:
                    al //= 2
        if 'i' in a.io:
            s, k = layout(a, h.isa, n)
            vals = t.evaluate(c.init[a.name], env)
            b = b''.join(v.to_bytes(s, 'little') for v in vals)
        else:
            b = b'\xcc' * n
        bufs.append((b, al))
    return bufs


def run_native(so, h, inputs, timeout=60):
    job = pickle.dumps({'so': so, 'sym': h.sym(), 'inputs': inputs})
    p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'engine', 'replay.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(job, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return [], 'timeout'
    res = []
    import io
    f = io.BytesIO(out)
    while f.tell() < len(out):
        try:
            res.append(pickle.load(f))
        except Exception:
            break
    crash = None
    if p.returncode:
        crash = 'signal %d' % -p.returncode if p.returncode < 0 else 'exit %d: %s' % (p.returncode, err.decode()[-400:])
    return res, crash


def concrete_ctx(h, c, outs):
    """context whose final lanes are constants observed natively"""
    d = Ctx(h)
    d.sizes, d.init, d.ibits = c.sizes, c.init, c.ibits
    for a, o in zip(h.args, outs):
        if 'o' in a.io:
            s, k = layout(a, h.isa, c.sizes[a.name])
            d.fin[a.name] = [const(int.from_bytes(o[i * s:(i + 1) * s], 'little'), 8 * s) for i in range(k)]
    return d


def judge(h, c, env, native, crash):
    """does the native run violate the specification? returns description or None"""
    if not native:
        if crash and crash != 'timeout' and not crash.startswith('exit'):
            return 'native run died with ' + crash
        return None
    r = native[0]
    if crash and not crash.startswith('exit'):
        return 'native run died with ' + crash
    for key, ok in (('out', 'ok'), ('out2', 'ok2')):
        if key not in r:
            continue
        if h.mem:
            for a, good in zip(h.args, r[ok]):
                if not good:
                    return 'native run wrote outside argument %s' % a.name
        d = concrete_ctx(h, c, r[key])
        pre = list(h.pre(d)) if h.pre else []
        if not all(t.evaluate(pre, env)):
            return None
        for label, cond in h.spec(d):
            try:
                if not t.evaluate([cond], env)[0]:
                    return 'violates: ' + label
            except NotImplementedError:
                continue
    return None


def describe(h, c, env, native):
    d = {'harness': h.id, 'isa': h.isa, 'code': h.body, 'inputs': {}, 'observed': {}}
    for a in h.args:
        if 'i' in a.io:
            s, k = layout(a, h.isa, c.sizes[a.name])
            d['inputs'][a.name] = ['0x%0*x' % (2 * s, v) for v in t.evaluate(c.init[a.name], env)]
    if native and 'out' in native[0]:
        dd = concrete_ctx(h, c, native[0]['out'])
        for n, L in dd.fin.items():
            d['observed'][n] = ['0x%0*x' % (x.w // 4, x.p) for x in L]
    return d


SPECIAL = {}


def specials(w, rnd):
    r = [0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 2, 3, (1 << (w // 2)), (1 << w) - 2, (1 << (w - 1)) + 1]
    if w in (32, 64):
        from . import fpc
        e, m = t.FMT[w]
        inf = t.finf(w).p
        sb = 1 << (w - 1)
        fl = [fpc.from_int(1, w), fpc.from_int(2, w), fpc.from_int(3, w), inf, fpc.nan(w), inf - 1, 1 << m, (1 << m) - 1,
              fpc.from_int(1 << m, w), fpc.from_int((1 << 31), w), fpc.from_int((1 << 31) - 1, w), fpc.from_frac(fpc.Fraction(1, 2), w),
              fpc.from_frac(fpc.Fraction(3, 2), w), fpc.from_frac(fpc.Fraction(5, 2), w), fpc.from_int((1 << m) - 1, w), fpc.from_int((1 << 62), w),
              fpc.from_frac(fpc.Fraction(1, 2), w) - 1, fpc.from_int(10, w), fpc.from_int(1 << (m - 1), w) | 1]
        r += fl + [x | sb for x in fl]
    return r


def bank(c, h, n, seed):
    """special-value environments used for encoding validation and as counterexample candidates"""
    import random
    rnd = random.Random(seed)
    envs = []
    for k in range(n):
        env = {}
        for a in h.args:
            if 'i' not in a.io:
                continue
            for x in c.init[a.name]:
                if x.op == 'var':
                    sp = specials(x.w, rnd)
                    z = rnd.random()
                    env[x.p] = rnd.choice(sp) if z < 0.6 else rnd.getrandbits(x.w) if z < 0.85 else (rnd.choice(sp) ^ (1 << rnd.randrange(x.w)))
            for b in c.ibits[a.name]:
                env[b.p] = rnd.getrandbits(1)
        if getattr(h, 'cand', None):
            h.cand(c, env, rnd)     # hypotheses relating the operands
        envs.append(env)
    return envs


def clean_env(env, c):
    keep = {x.p for L in c.init.values() for x in L if x.op == 'var'} | {b.p for L in c.ibits.values() for b in L}
    return {k: v for k, v in env.items() if k in keep}


def check(h, mod, wd, tag, hs, head, opts):
    R = Result(h)
    t.reset()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    smt.SWEEP = bool(opts.get("sweep"))
    signal.alarm(opts.get('exec_timeout', 120))
    acc = getattr(h, 'acc', None) or getattr(h, 'acc2', None)
    t.CANON_DIV = not acc
    try:
        c, ex = symexec(h, mod)
        conds = list(h.spec(c))
        pre = list(h.pre(c)) if h.pre else []
    except (symex.Unsupported, symex.BoundExceeded, ir.ParseError, Timeout, NotImplementedError, RecursionError) as e:
        signal.alarm(0)
        R.status = 'undecided'
        R.notes.append('encoding: %s: %s' % (type(e).__name__, e))
        return R
    finally:
        signal.alarm(0)
    R.exec_s = time.time() - t0
    R.fns = len(ex.fns_used)
    R.steps, R.blocks, R.fnames = ex.steps, ex.blocks, tuple(sorted(ex.fns_used))
    so = {}

    def native_so(cxx):
        if cxx not in so:
            try:
                so[cxx] = compile_so(wd, tag, h.isa, hs, head, cxx)
            except CompileError as e:
                so[cxx] = None
                R.notes.append('native build failed: ' + str(e)[:300])

    def native(env, cxx):
        native_so(cxx)
        if so[cxx] is None:
            return None, None, None
        nat, crash = run_native(so[cxx], h, [pack(h, c, env)])
        return nat, crash, judge(h, c, env, nat, crash)

    if acc:
        from . import acc as accuracy

        def nat(vals):
            """native results of every lane for each operand (or pair of operands), per compiler"""
            for cxx in ('g++', CLANG):
                native_so(cxx)
                if so[cxx] is None:
                    continue
                ins = []
                for v in vals:
                    ins.append(pack(h, c, {x.p: u for o, u in (zip('ab', v) if isinstance(v, tuple) else (('a', v),)) for x in c.init[o] if x.op == 'var'}))
                res, _ = run_native(so[cxx], h, ins)
                out = []
                for r in res:
                    d = concrete_ctx(h, c, r['out'])
                    out.append((r, [x.p for x in d.out('r')]))
                yield cxx, out
        if getattr(h, 'acc2', None):
            from . import acc2
            acc2.decide(h, c, R, nat)
        else:
            accuracy.decide(h, c, R, nat)
        return R

    def replay(env, label):
        env = clean_env(env, c)
        for cxx in ('g++', CLANG):
            nat, crash, bad = native(env, cxx)
            if bad:
                d = describe(h, c, env, nat)
                d['what'], d['compiler'], d['query'] = bad, cxx, label
                d['env'] = env
                R.violation = d
                R.status = 'violation'
                return True
        return False

    # vacuity witness: preconditions satisfiable (and the return reachable)
    if pre:
        v, _ = smt.solve(pre, timeout=10, try_fp=False)
        R.queries += 1
        if v == 'unsat':
            R.status = 'undecided'
            R.notes.append('vacuous: preconditions unsatisfiable')
            return R
    # every lane, one query per condition, grouped: first the disjunction of all violations
    q0, s0 = smt.STATS.queries, smt.STATS.time
    todo = []
    for label, cond in conds:
        todo.append((label, t._mk('not', (cond,), 1) if cond.op == 'const' else t.not_(cond)))
    if h.mem:
        for o in ex.obls:
            if o.kind in ('mem', 'ub', 'trap', 'div'):
                todo.append(('%s: %s' % (o.kind, o.what), o.cond))
    R.obls = len(todo)
    # recorded findings: their inputs are excluded below and confirmed separately
    for fid, pred in h.known:
        if fid not in opts.get('known', ()):
            continue
        kp = pred(c)
        hit = False
        for label, n in todo:
            v, env = smt.solve_cached(pre + [kp], n, timeout=opts.get('timeout', 20), try_fp=h.fp, fp_timeout=5)
            if v == 'unsat' or env is None:
                continue
            if replay(env, label):
                hit = True
                R.known.append((fid, R.violation))
                R.status, R.violation = 'ok', None
                break
        pre = pre + [t.not_(kp)]
    tmo = h.timeout or opts.get('timeout', 20)
    fpt = h.fp_timeout or opts.get('fp_timeout', 20)
    pend = []
    live = [(l, n) for l, n in todo]
    # one combined query decides the common case
    fop = smt.has_fop([n for _, n in live])
    if len(live) > 1 and not fop and smt.distinct([n for _, n in live]) > 6:
        d = live[0][1]
        for l, n in live[1:]:
            d = t._mk('or', (d, n), 1)
        v, env = smt.solve(pre + [d], timeout=min(tmo, 0.4), max_cegar=4, try_fp=False, cvc5=False)
        if v == 'unsat':
            live = []
    undecided = []

    def candidates(label):
        """the open conditions evaluated on special values; a hit is only reported after its native replay"""
        t1, negs = time.time(), [n for _, n in live]
        for env in bank(c, h, opts.get('cand', 1500), 11):
            if time.time() - t1 > opts.get('cand_s', 8):
                break
            try:
                if all(t.evaluate(pre, env)) and any(t.evaluate(negs, env)) and replay(env, label):
                    return True
            except (NotImplementedError, KeyError):
                break
        return False

    for label, neg in live:
        v, env = smt.solve_cached(pre, neg, timeout=tmo, try_fp=h.fp, fp_timeout=fpt)
        if v == 'unsat':
            continue
        if env is not None:
            R.sat_candidates += 1
            if v in ('sat', 'model') or True:
                if replay(env, label):
                    break
        undecided.append((label, v))
        if len(undecided) == 1 and candidates(label):
            break
    if R.status == 'ok' and undecided:
        # special-value candidates, judged natively only
        hit = False
        labels = ', '.join('%s (%s)' % (l, v) for l, v in undecided[:4])
        for env in bank(c, h, opts.get('bank', 40), 7):
            try:
                okpre = all(t.evaluate(pre, env))
            except NotImplementedError:
                okpre = True
            if okpre and replay(env, undecided[0][0]):
                hit = True
                break
        if not hit:
            R.status = 'undecided'
            R.notes.append('not decided: ' + labels)
    if R.status == 'ok' and opts.get('validate_one') == h.id:
        # encoding validation: concrete native runs must agree with what the solver proved
        try:
            vso = compile_so(wd, tag + 'v', h.isa, [h], head, 'g++')
        except CompileError as e:
            vso = None
            R.notes.append('native build failed: ' + str(e)[:300])
        for env in bank(c, h, 12, opts.get('seed', 1)) if vso else ():
            try:
                if not all(t.evaluate(pre, env)):
                    continue
            except NotImplementedError:
                continue
            nat, crash = run_native(vso, h, [pack(h, c, env)])
            bad = judge(h, c, env, nat, crash)
            if nat is None:
                break
            R.validated += 1
            if bad:
                R.status = 'mismatch'
                R.notes.append('encoding validation: native run %s: %s' % (bad, json.dumps(describe(h, c, env, nat))[:600]))
                break
            if not R.samples:
                R.samples.append(describe(h, c, env, nat))
    R.queries += smt.STATS.queries - q0
    R.solver_s = smt.STATS.time - s0
    if R.status == 'ok' and h.args:
        R.witness = None
    return R


def blame(log, wd, tag, hs, head):
    """harness indices responsible for the errors in a compiler log"""
    starts, line = [], head.count('\n') + 1
    for h in hs:
        starts.append(line)
        line += h.source().count('\n') + 1
    bad, err = {}, None
    pat = re.compile(re.escape('%s/%s.cpp' % (wd, tag)) + r':(\d+):')
    for l in log.split('\n'):
        if ': error:' in l or 'fatal error' in l:
            err = l
        m = pat.search(l)
        if m and err and (': error:' in l or 'fatal error' in l or 'requested here' in l or 'in call to' in l or 'here]' in l or 'required' in l):
            i = bisect.bisect_right(starts, int(m.group(1))) - 1
            if 0 <= i < len(hs):
                bad.setdefault(i, err[err.find('error:'):][:300] if 'In file' in err else err[:300])
    return bad


def _chunk(job):
    wd, tag, isa, hs, head, opts = job
    try:
        out = []
        mod = None
        while hs:
            try:
                mod = compile_ll(wd, tag, isa, hs, head)
                break
            except CompileError as e:
                bad = blame(str(e), wd, tag, hs, head)
                if not bad:
                    if len(hs) > 1:
                        k = len(hs) // 2
                        return out + _chunk((wd, tag + 'a', isa, hs[:k], head, opts)) + _chunk((wd, tag + 'b', isa, hs[k:], head, opts))
                    bad = {0: str(e)[:500]}
                for i, msg in bad.items():
                    r = Result(hs[i])
                    r.status = 'nocompile'
                    r.notes.append(msg)
                    out.append(r)
                hs = [h for i, h in enumerate(hs) if i not in bad]
        if opts.get('validate') and hs and (int(tag.strip('cab')) % opts['validate']) == 0:
            opts = dict(opts, validate_one=hs[0].id)
        for h in hs:
            try:
                out.append(check(h, mod, wd, tag, hs, head, opts))
            except Exception:
                r = Result(h)
                r.status = 'undecided'
                r.notes.append('internal: ' + traceback.format_exc()[-1500:])
                out.append(r)
        for ext in ('.ll', '.bc', '.cpp'):
            try:
                os.unlink('%s/%s%s' % (wd, tag, ext))
            except OSError:
                pass
        return out
    except Exception:
        out = []
        for h in hs:
            r = Result(h)
            r.status = 'undecided'
            r.notes.append('internal: ' + traceback.format_exc()[-1500:])
            out.append(r)
        return out


_JOBS = []


def _run_job(i):
    return i, _chunk(_JOBS[i])


def nj_():
    return int(os.environ.get('DPM_JOBS', '8'))


def _prep(x):
    wd, isa, dep, alt = x
    try:
        if dep:
            lib_bc(wd, isa, dep, alt)
        else:
            pch(wd, isa)
    except CompileError:
        pass


def run(hs, opts=None, chunk=40, jobs=None, head='', budget=None, progress=False):
    """run harnesses; returns list of Result (same order)"""
    global _JOBS
    opts = dict(opts or {})
    wd = workdir()
    try:
        groups = {}
        for h in hs:
            groups.setdefault((h.isa, h.deps, getattr(h, 'alt', None)), []).append(h)
        joblist = []
        for (isa, deps, _), g in groups.items():
            n = max(1, (len(g) + chunk - 1) // chunk)
            # round-robin keeps expensive families spread out
            for k in range(n):
                joblist.append((wd, 'c%d' % len(joblist), isa, g[k::n], head, opts))
        _JOBS = joblist
        smt.CACHEDIR = wd
        # compile shared library parts first
        with mp.get_context('fork').Pool(nj_()) as pool:
            pool.map(_prep, sorted({(wd, isa, None, None) for isa, _, _ in groups} | {(wd, isa, d, x) for isa, deps, alt in groups for d in deps for x in {None, alt}}, key=str))
        res = {}
        nj = jobs or nj_()
        ctx = mp.get_context('fork')
        end = time.time() + budget if budget else None
        nviol, maxv = 0, opts.get('max_violations')
        with ctx.Pool(nj, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_run_job, range(len(joblist)))
            for _ in range(len(joblist)):
                try:
                    i, out = it.next(max(1, end - time.time()) if end else None)
                except mp.TimeoutError:
                    pool.terminate()
                    break
                for r in out:
                    res[r.id] = r
                    nviol += r.status == 'violation' 
                    if progress and r.status != 'ok':
                        print(r.status, r.id, '; '.join(r.notes)[:200], json.dumps(r.violation)[:600] if r.violation else '', flush=True)
                if maxv and nviol >= maxv:
                    pool.terminate()
                    break
        out = []
        for h in hs:
            r = res.get(h.id)
            if r is None:
                r = Result(h)
                r.status = 'undecided'
                r.notes.append('stopped after the first violations' if nviol else 'time budget exhausted')
            out.append(r)
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)
