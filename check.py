#!/usr/bin/env python3-vt
"""check.py <ID> [--tier quick|thorough] : decides one property on /repo's current tree
   check.py --replay <file>              : replays a reported violation against /repo's current tree
   check.py <ID> --tier T --rebaseline   : rewrites the list of harnesses that do not compile
Exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import argparse, importlib, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from collections import Counter, defaultdict
from engine import runner

TRUST = ['clang -O2 lowering of the instantiated headers to LLVM IR (counterexamples are replayed on g++ and clang builds)',
         'the LLVM IR and x86-intrinsic semantics implemented in /verif/engine', 'Z3 and cvc5']


def known_ids():
    r = {}
    for l in open(HERE + '/known_findings.txt'):
        m = re.match(r'known: property=(\w+) id=(\S+) (.*)', l.strip())
        if m:
            r[m.group(2)] = (m.group(1), m.group(3))
    return r


def baseline(pid, tier):
    try:
        return set(json.load(open('%s/baseline/%s.%s.json' % (HERE, pid, tier))))
    except OSError:
        return set()


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module('props.' + d['property'].lower())
    h = [h for tier in ('quick', 'thorough') for h in mod.gen(tier) if h.id == d['violation']['harness']][0]
    print(h.source())
    rs = runner.run([h], getattr(mod, 'OPTS', {}), head=getattr(mod, 'HEAD', ''))
    r = rs[0]
    print(r.status, json.dumps(r.violation, indent=1), r.notes)
    return 1 if r.status == 'violation' else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--rebaseline', action='store_true')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    pid, tier = a.id, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module('props.' + pid.lower())
    hs = list(mod.gen(tier))
    assert len({h.id for h in hs}) == len(hs), 'duplicate harness ids'
    skip = baseline(pid, tier)
    known = {k: v for k, v in known_ids().items() if v[0] == pid}
    run = [h for h in hs if a.rebaseline or h.id not in skip]
    opts = dict(getattr(mod, 'OPTS', {}))
    opts.update(known=set(known), seed=seed, validate=12 if tier == 'quick' else 4, max_violations=3)
    if a.rebaseline:
        opts.update(validate=0, max_violations=None)
    budget = a.budget or (780 if tier == 'quick' else 5400)
    lem = None
    if getattr(mod, 'LEMMAS', False):
        lem = subprocess.Popen([sys.executable, HERE + '/lemmas_check.py', '200'] + ([mod.LEMMAS] if isinstance(mod.LEMMAS, str) else []), stdout=subprocess.PIPE, text=True)
    rs = runner.run(run, opts, chunk=getattr(mod, 'CHUNK', 40), budget=budget, head=getattr(mod, 'HEAD', ''))
    if a.rebaseline:
        nc = sorted(r.id for r in rs if r.status == 'nocompile')
        os.makedirs(HERE + '/baseline', exist_ok=True)
        p = '%s/baseline/%s.%s.json' % (HERE, pid, tier)
        if nc:
            json.dump(nc, open(p, 'w'), indent=0)
        elif os.path.exists(p):
            os.unlink(p)
        print(pid, tier, Counter(r.status for r in rs), 'not compiling:', len(nc))
        return 0
    st = Counter(r.status for r in rs)
    viol = [r for r in rs if r.status == 'violation']
    nocomp = [r for r in rs if r.status == 'nocompile']
    und = [r for r in rs if r.status == 'undecided']
    mism = [r for r in rs if r.status == 'mismatch']
    # report
    kn = defaultdict(list)
    for r in rs:
        for fid, v in r.known:
            kn[fid].append(v)
    for fid in sorted(kn):
        print('KNOWN-FINDING: property=%s %s: %s (%d instantiations, e.g. %s)' % (pid, fid, known[fid][1], len(kn[fid]), kn[fid][0]['harness']))
    rdir = '%s/evidence/replay/%s' % (HERE, pid)
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        os.unlink(os.path.join(rdir, f))
    for r in viol[:8]:
        p = '%s/%s.json' % (rdir, re.sub(r'[^A-Za-z0-9_.-]', '_', r.id))
        v = {k: x for k, x in r.violation.items() if k != 'env'}
        json.dump({'property': pid, 'violation': v, 'replay_cmd': 'python3-vt /verif/check.py --replay ' + p}, open(p, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('   %s [%s]: %s ; inputs %s ; observed %s ; %s' % (r.id, v['isa'], v['code'], json.dumps(v['inputs'])[:300], json.dumps(v['observed'])[:300], v['what']))
    fam = defaultdict(Counter)
    for r in rs:
        fam[r.id.split('.')[1]][r.status] += 1
    fns = set()
    for r in rs:
        fns.update(r.fnames)
    samples = [s for r in rs for s in r.samples][:4]
    cov = {
        'states': sum(r.blocks for r in rs), 'transitions': sum(r.steps for r in rs),
        'traces_validated_against_impl': sum(r.validated for r in rs),
        'samples': samples or [{'harness': r.id} for r in rs[:3]],
        'harnesses': len(rs), 'harness_status': dict(st), 'harness_families': {k: dict(v) for k, v in sorted(fam.items())},
        'obligations': sum(r.obls for r in rs), 'queries': sum(r.queries for r in rs),
        'obligations_discharged': sum(r.obls for r in rs if r.status == 'ok'),
        'solver_s': round(sum(r.solver_s for r in rs), 2), 'symbolic_execution_s': round(sum(r.exec_s for r in rs), 2),
        'functions_encoded': len(fns), 'functions_sample': sorted(fns)[:20],
        'bounds': getattr(mod, 'BOUNDS', ''), 'outside': getattr(mod, 'OUTSIDE', ''),
        'not_instantiable_at_baseline': len(skip & {h.id for h in hs}),
        'explanation': 'states: basic blocks entered symbolically; transitions: IR instructions executed symbolically; every '
                       'obligation is an SMT query over all lane values, discharged unless listed as undecided',
        'undecided': [(r.id, '; '.join(r.notes)[:160]) for r in und][:60], 'undecided_count': len(und),
        'no_longer_compiling': [(r.id, '; '.join(r.notes)[:160]) for r in nocomp][:40],
        'validation_mismatch': [(r.id, '; '.join(r.notes)[:600]) for r in mism][:10],
        'known_findings_confirmed': {k: len(v) for k, v in kn.items()},
        'trusted_base': TRUST,
    }
    if lem:
        cov['lemmas'] = lem.communicate()[0].split('\n')[:-1]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUME', [])) + [x for x in (getattr(mod, 'BOUNDS', ''), getattr(mod, 'OUTSIDE', '')) if x],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (HERE, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses %s, %d obligations, %d queries, solver %.1f s, wall %.1f s' % (
        pid, tier, len(rs), dict(st), cov['obligations'], cov['queries'], cov['solver_s'], ev['wall_s']))
    if viol:
        return 1
    bad = 0
    if lem and any(' sat ' in l for l in cov['lemmas']):
        print('NO ANSWER: a floating-point lemma of the engine is refuted: %s' % cov['lemmas'])
        bad = 2
    for r in nocomp[:5]:
        print('NO ANSWER: %s no longer compiles: %s' % (r.id, '; '.join(r.notes)[:300]))
        bad = 2
    for r in mism[:5]:
        print('NO ANSWER: %s: %s' % (r.id, '; '.join(r.notes)[:600]))
        bad = 2
    if not st['ok']:
        print('NO ANSWER: nothing was decided')
        bad = 2
    if und:
        print('undecided: %d, e.g. %s %s' % (len(und), und[0].id, '; '.join(und[0].notes)[:200]))
    return bad


if __name__ == '__main__':
    sys.exit(main())
