#!/usr/bin/env python3
"""development aid: write seeded/<id>/ from a description: mkseed.py FILE.py, which defines
ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new[, nth])], DEMO (C++ source)"""
import sys, os, json, subprocess, stat
ns = {}; exec(open(sys.argv[1]).read(), ns)
W = '/tmp/seed'; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('VERIF_REPO', '/repo'); D = V + '/seeded/' + ns['ID']; os.makedirs(D, exist_ok=True)
subprocess.run(f'cd {W} && git fetch -q {R} HEAD && git checkout -q -f FETCH_HEAD', shell=True, check=True)
for e in ns['EDITS']:
    p = W + '/' + e[0]; s = open(p, newline='').read(); e = list(e)
    if '\r\n' in s: e[1:3] = [x.replace('\n', '\r\n') for x in e[1:3]]
    n = s.count(e[1])
    if len(e) > 3:
        i = -1
        for _ in range(e[3]): i = s.index(e[1], i + 1)
        s = s[:i] + e[2] + s[i + len(e[1]):]
    else:
        assert n == 1, (e[0], n, e[1]); s = s.replace(e[1], e[2])
    open(p, 'w', newline='').write(s)
d = subprocess.run('git diff', shell=True, cwd=W, capture_output=True).stdout; assert d
open(D + '/patch.diff', 'wb').write(d); subprocess.run('git checkout -q -f .', shell=True, cwd=W)
open(D + '/demo.cpp', 'w').write(ns['DEMO'].lstrip())
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# run with the repository as working directory, after its build
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -w %s -I_build/include -Iinclude -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -L_build/lib -lfcl -lccd -loctomap -loctomath -lpthread -Wl,-rpath,"$PWD/_build/lib" || exit 3
cd "$T" && timeout 60 ./demo
''' % ns.get('FLAGS', ''))
os.chmod(D + '/demo.sh', 0o755)
json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(D + '/meta.json', 'w'), indent=1)
print(ns['ID'])
