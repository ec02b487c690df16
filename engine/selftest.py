"""Runs the self test of the verifier: exit 0 if every h_ok_ harness is proved and every h_bad_ one refuted."""
import os
import shutil
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check   # noqa: E402

work = tempfile.mkdtemp(prefix='verif_selftest_')
bad = []
try:
    s = check.Spec(os.path.join(HERE, 'selftest.cpp'), os.path.join(work, 'st'))
    for h, o in s.harness.items():
        r = check.run_harness((s, h, None, o, 'quick', 1, None))
        want = h.startswith('h_bad')
        got = bool(r['violations'])
        if r.get('error') or r['unknown'] or want != got or not (r['obl'] or want):
            bad.append((h, r.get('error'), [v['obligation'] for v in r['violations']]))
    print('selftest: %d harnesses, %d wrong' % (len(s.harness), len(bad)))
    for b in bad:
        print('  ', b)
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(1 if bad else 0)
