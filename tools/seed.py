#!/usr/bin/env python3
"""tools/seed.py <dir>: confirms a planted bug kept in seeded/<id>: applies, builds, passes the stable tests,
demo 0 without and nonzero with; then runs the check of its property. Leaves /repo as it was."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(d):
    return sh('bash %s/demo.sh' % d, cwd='/repo')


for name in sys.argv[1:]:
    d = os.path.join(V, 'seeded', name)
    meta = json.load(open(d + '/meta.json'))
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
    sh('bash /opt/vp/build.sh')
    r0 = demo(d)
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        print(name, 'DOES NOT APPLY', r.stdout)
        continue
    try:
        b = sh('bash /opt/vp/test.sh /tmp/seed.json')
        t = json.load(open('/tmp/seed.json'))
        r1 = demo(d)
        c = sh('python3-vt engine/check.py %s' % meta['property'], cwd=V)
        lines = [l for l in c.stdout.split('\n') if l.startswith(('VIOLATION', 'NO-ANSWER', 'failed'))]
    finally:
        sh('git -C /repo checkout -- .')
    print('%s: demo clean %d, patched %d, tests %d passed %d failed; check %s exit %d' % (
        name, r0.returncode, r1.returncode, len(t['passed']), len(t['failed']), meta['property'], c.returncode))
    if r0.returncode or not r1.returncode:
        print(r0.stdout[-600:], '-----', r1.stdout[-300:])
    for l in lines[:4]:
        print('    ', l[:200])
sh('bash /opt/vp/build.sh')
