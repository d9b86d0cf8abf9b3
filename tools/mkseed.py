#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: confirm planted bugs in a scratch copy (/tmp/s/repo with /tmp/s/build.sh, test.sh) and store them in seeded/.
SPEC.py defines SEEDS = {id: dict(property, edits=[(file, old, new)...], demo=C++ text, needs, breaks)}"""
import json, os, subprocess, sys, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/s/repo'
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O1 -w -DWITH_MATSCS -DMATSLISE_LONG_DOUBLE -DMATSLISE_QUADMATH -DBOOST -isystem /usr/include/eigen3 -I. "$D/demo.cpp" %s_build/matslise/libmatslise.a -lquadmath -o "$T/demo" || exit 3
timeout 120 "$T/demo"
'''


def sh(c, cwd=S, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


seeds = runpy.run_path(sys.argv[1])['SEEDS']
ids = sys.argv[2:] or list(seeds)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
sh('git checkout -q -f master 2>/dev/null || true; git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD')
for i in ids:
    s = seeds[i]
    sh('git checkout -q -- .')
    d = R + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    b = sh('bash /tmp/s/build.sh')
    r0 = sh('bash %s/demo.sh' % d)
    for f, o, n in s['edits']:
        p = S + '/matslise/' + f
        t = open(p).read()
        assert t.count(o) >= 1, (i, 'not found', o)
        open(p, 'w').write(t.replace(o, n, 1))
    diff = subprocess.run('git diff', shell=True, cwd=S, stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    b = sh('bash /tmp/s/build.sh')
    if b.returncode:
        print(i, 'BUILD FAILS', b.stdout[-1500:]); continue
    r1 = sh('bash %s/demo.sh' % d)
    t = sh('bash /tmp/s/test.sh /tmp/s/out.json')
    o = json.load(open('/tmp/s/out.json'))
    lost = sorted(base - set(o['passed']))
    print(i, 'clean', r0.returncode, 'patched', r1.returncode, 'lost', lost, 'OK' if r0.returncode == 0 and r1.returncode and not lost else 'BAD', flush=True)
    if r0.returncode or not r1.returncode:
        print('   ', r0.stdout[-600:], '|', r1.stdout[-600:])
    sh('git checkout -q -- .')
