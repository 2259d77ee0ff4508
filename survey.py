"""development aid: run one property module and print a status summary by harness family"""
import importlib, sys, time, json, re, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from collections import Counter, defaultdict
from engine import runner

def main():
    mod = importlib.import_module('props.' + sys.argv[1])
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    flt = sys.argv[3] if len(sys.argv) > 3 else ''
    hs = [h for h in mod.gen(tier) if re.search(flt, h.id)]
    assert len({h.id for h in hs}) == len(hs)
    t0 = time.time()
    rs = runner.run(hs, getattr(mod, 'OPTS', {}), chunk=getattr(mod, 'CHUNK', 40))
    print(len(hs), Counter(r.status for r in rs), 'wall %.1f exec %.1f solver %.1f' % (time.time() - t0, sum(r.exec_s for r in rs), sum(r.solver_s for r in rs)))
    fam = defaultdict(list)
    for r in rs:
        if r.status != 'ok':
            fam[(r.status, re.sub(r'\d+', '#', r.id.split('.')[1]))].append(r)
    W = int(os.environ.get('W', '110'))
    for k, v in sorted(fam.items()):
        notes = Counter(re.sub(r'In file included from[^\n]*\n?|/tmp\S+|/repo/dpm/detail/', '', n).strip() for r in v for n in r.notes)
        print('%s %s %d: %s' % (k[0][:4], k[1], len(v), ' '.join('.'.join(r.id.split('.')[2:]) for r in v)[:W]))
        for n, c in notes.most_common(int(os.environ.get('NN', '1'))):
            print('     %d x %s' % (c, n[:2 * W]))
        for r in v:
            if r.violation:
                d = r.violation
                print('    ', r.id, d['code'], {k: ' '.join(x[2:] for x in y) for k, y in d['inputs'].items()}, '->', {k: ' '.join(x[2:] for x in y) for k, y in d['observed'].items()}, d['what'][:80]); break
    tf = defaultdict(float)
    for r in rs:
        tf['.'.join(r.id.split('.')[1:4])] += r.exec_s + r.solver_s
    print('families', [(k, round(v, 1)) for k, v in sorted(tf.items(), key=lambda x: -x[1])[:12]])
    slow = sorted(rs, key=lambda r: -(r.exec_s + r.solver_s))[:5]
    print('slow', [(r.id, round(r.exec_s, 1), round(r.solver_s, 1)) for r in slow])
main()
