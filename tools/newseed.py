#!/usr/bin/env python3
"""helper: newseed(id, prop, edits, sources, demo, needs, breaks) writes seeded/<id>"""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def newseed(name, prop, edits, sources, demo, needs, breaks, flags=''):
    d = os.path.join(V, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    for f, a, b in edits:
        p = '/repo/src/app/' + f
        s = open(p).read()
        assert s.count(a) == 1, (name, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(os.path.join(V, 'tools', 'demo_env.h'), d)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run in the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC=$(find src/app -type d -not -name ut | sed 's/^/-I/')
g++ -std=c++20 -w -g -O0 -fno-access-control -fsanitize=address %s $INC -I"$D" "$D/demo.cpp" %s src/app/common/logger/*.cpp -o "$T/demo" -lpthread || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$T/demo"
''' % (flags, ' '.join('src/app/' + s for s in sources)))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
