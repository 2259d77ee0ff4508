#!/usr/bin/env python3
"""development aid: turn the current (uncommitted) change of /repo into /verif/seeded/<id> and confirm it
mkseed.py <id> <property> <isa flags> <demo.cpp> <needs> <what> ; undoes the change afterwards"""
import json, os, subprocess, sys, shutil
sid, prop, flags, demo, needs, what = sys.argv[1:7]
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
run = lambda c, **k: subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
diff = run('git -C /repo diff').stdout
assert diff
open(d + '/patch.diff', 'w').write(diff)
if demo != d + '/demo.cpp':
    shutil.copy(demo, d + '/demo.cpp')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds demo.cpp against the repository in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -r "$t"' EXIT
mkdir "$t/inc"
[ -f dpm/detail/export.gen.hpp ] || printf '#pragma once\\n#define DPM_EXPORT __attribute__((visibility("default")))\\n#define DPM_NO_EXPORT __attribute__((visibility("hidden")))\\n' > "$t/inc/export.gen.hpp"
g++ -std=c++20 -O1 -w -ffp-contract=off %s -DDPM_INLINE_EXTENSIONS -DDPM_HANDLE_ERRORS -DDPM_PROPAGATE_NAN -I. -I"$t/inc" -Idpm/detail -o "$t/demo" "$here/demo.cpp" $(ls dpm/detail/*.cpp dpm/detail/x86/*.cpp) || exit 3
"$t/demo"
''' % flags)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
b = run('bash /opt/vp/build.sh')
t = run('bash /opt/vp/test.sh /tmp/seedtest.json')
print('build', b.returncode, t.stdout.strip().split('\n')[-1])
p = run(['bash', d + '/demo.sh'], cwd='/repo')
print('demo with patch:', p.returncode, (p.stdout + p.stderr)[-300:])
c = run(['python3-vt', 'check.py', prop], cwd='/verif')
print('check:', c.returncode, '\n'.join(l[:260] for l in c.stdout.split('\n') if 'VIOL' in l or 'quick' in l or 'NO ANS' in l)[:900])
run('git -C /repo checkout -- .')
p2 = run(['bash', d + '/demo.sh'], cwd='/repo')
print('demo clean:', p2.returncode, (p2.stdout + p2.stderr)[-300:])
ok = b.returncode == 0 and ' 0 failed' in t.stdout and p.returncode not in (0, 3) and p2.returncode == 0
print('SEED', sid, 'OK' if ok else 'BAD', 'CAUGHT' if c.returncode == 1 else 'MISSED')
