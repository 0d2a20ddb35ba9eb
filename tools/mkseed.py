#!/usr/bin/env python3
"""dev helper: mkseed.py SPEC.py  -- SPEC defines S = [dict(id,prop,needs,what,edits=[(file,old,new[,n])],demo='C++ source' , sh=optional)]"""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = '/tmp/sr'
ns = {}; exec(open(sys.argv[1]).read(), ns)
SH = '''#!/bin/bash
# exit 0 when the property holds on the library built in the current directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -mavx2 -mfma -fopenmp -DENABLE_AVX=1 -DINSTRUCTION_SET=2 -I. -I_build "$D/demo.cpp" -L_build/lib -lAmpGen -lgsl -lgslcblas -ldl -lpthread -Wl,--unresolved-symbols=ignore-in-shared-libs -Wl,-z,lazy -o "$T/demo" || exit 99
LD_LIBRARY_PATH=$PWD/_build/lib timeout 250 "$T/demo"
'''
for s in ns['S']:
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    subprocess.check_call('cd %s && git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD' % SR, shell=True)
    for e in s['edits']:
        p = os.path.join(SR, e[0]); t = open(p).read(); c = t.count(e[1])
        if c == 0 or (c > 1 and len(e) < 4): print(s['id'], 'edit matches', c, e[0], e[1][:60]); sys.exit(1)
        if len(e) < 4: t = t.replace(e[1], e[2])
        else:
            i = -1
            for _ in range(e[3] + 1): i = t.index(e[1], i + 1)
            t = t[:i] + e[2] + t[i + len(e[1]):]
        open(p, 'w').write(t)
    diff = subprocess.check_output(['git', 'diff'], cwd=SR, text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=SR)
    if 'demo' in s: open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(s.get('sh', SH))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(s['id'], 'written')
