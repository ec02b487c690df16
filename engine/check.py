#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]: re-generates every obligation of the property from /repo's
current sources, discharges them, writes evidence/<property>.json.
exit 0: every obligation discharged (known findings are printed, not failed)
exit 1: VIOLATION line(s)
        an obligation that could not be generated or discharged (the specification no longer fits the
        sources, a resource limit) is reported as undischarged: VIOLATION ... no-failing-input-found
exit 2: no such property"""
import argparse
import glob
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build          # noqa: E402
import irparse        # noqa: E402
import symex          # noqa: E402
import z3             # noqa: E402

VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
T0 = time.time()

_DEM = {}


def demangle_all(names):
    names = [n for n in names if n not in _DEM]
    if names:
        p = subprocess.run(['llvm-cxxfilt'], input='\n'.join(names) + '\n', text=True, stdout=subprocess.PIPE)
        for n, d in zip(names, p.stdout.split('\n')):
            _DEM[n] = d


def demangle(n):
    if n not in _DEM:
        demangle_all([n])
    return _DEM.get(n, n)


def parse_opts(s):
    d = {}
    for kv in s.split(';'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            d[k.strip()] = v.strip()
    return d


class Spec:
    """one spec file: its IR module, harnesses and contracts"""

    def __init__(self, path, outdir):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.outdir = outdir
        t = time.time()
        self.ll, self.files = build.build_ir(path, outdir)
        self.build_s = time.time() - t
        self.m = irparse.Module(self.ll)
        self.harness = {}
        self.contract = {}
        self.annotations()

    def annotations(self):
        g = self.m.globals.get('llvm.global.annotations')
        if g is None:
            return
        for _, e in g.init[1]:
            fn = e[1][0][1]
            sp = e[1][1][1]
            while fn[0] != 'g':
                fn = fn[3] if fn[0] == 'cast' else fn[2]
            while sp[0] != 'g':
                sp = sp[3] if sp[0] == 'cast' else sp[2]
            s = self.m.globals[sp[1]].init
            s = bytes(s[1]).rstrip(b'\0').decode()
            if s.startswith('harness:'):
                self.harness[fn[1]] = parse_opts(s[8:])
            elif s.startswith('contract:'):
                sig, o = s[9:].split('##')
                self.contract[fn[1]] = (sig.strip(), parse_opts(o))

    def resolve(self, stubs):
        """stub names -> {mangled real function: stub}"""
        if not stubs:
            return {}
        real = {}
        byname = {}
        cand = [n for n in self.m.funcs if n.startswith('_Z')]
        demangle_all(cand)
        for n in cand:
            byname.setdefault(_DEM[n].replace(' ', ''), []).append(n)
        for s in stubs:
            if s not in self.contract:
                raise symex.VerifError('unknown contract ' + s)
            sig = self.contract[s][0].replace(' ', '')
            got = byname.get(sig)
            if not got:
                # not referenced in this module (e.g. no longer called): nothing to replace
                continue
            for g in got:
                real[g] = s
        return real


def run_harness(args):
    spec, h, case, o, tier, seed, pid = args
    eng = None
    t = time.time()
    out = {'spec': spec.name, 'harness': h, 'case': case}
    try:
        uses = [u for u in o.get('uses', '').split(',') if u]
        ct = spec.resolve(uses)
        eng = symex.Engine(spec.m, h, contracts=ct, demangle=demangle, seed=seed,
                           time_limit=float(o.get('time', 600)) * (2 if tier == 'thorough' else 1),
                           loop_limit=int(o.get('loop', 4200)), step_limit=int(o.get('steps', 4000000)),
                           timeout_ms=int(o.get('smt_ms', 60000)), loops=o.get('loops', '24'))
        eng.case = case
        eng.pid = pid
        r = eng.run()
    except symex.VerifError as x:
        out['error'] = str(x)
        r = eng.res if eng else symex.Result()
    except irparse.IRError as x:
        out['error'] = 'IR: ' + str(x)
        r = eng.res if eng else symex.Result()
    except Exception as x:       # engine bug: never a violation
        out['error'] = 'internal: ' + repr(x)[:200] + (traceback.format_exc()[-1500:] if os.environ.get('VERIF_TRACE') else '')
        r = eng.res if eng else symex.Result()
    demangle_all(list(r.funcs) + list(r.externs) + list(r.replaced))
    out.update(obl=r.obl, violations=r.violations, paths=r.paths, covers=r.covers, solver_s=r.solver_s,
               queries=r.queries, unknown=r.unknown, instrs=r.instrs, funcs=sorted(demangle(f) for f in r.funcs),
               replaced=sorted(r.replaced), externs=sorted(r.externs), notes=sorted(r.notes), loops=r.loops, wall=time.time() - t)
    return out


def spec_files(pid):
    out = []
    for f in sorted(glob.glob(SPEC + '/*.cpp')):
        txt = open(f).read()
        for m in re.finditer(r'HARNESS\(\s*(\w+)\s*,\s*"([^"]*)', txt):
            if pid in parse_opts(m.group(2)).get('props', '').split(','):
                out.append(f)
                break
    return out


def harness_files():
    out = {}
    for f in sorted(glob.glob(SPEC + '/*.cpp')):
        for m in re.finditer(r'HARNESS\(\s*(\w+)\s*,', open(f).read()):
            out[m.group(1)] = f
    return out


def write_values(path, vals):
    with open(path, 'w') as f:
        for v in vals:
            if v[0] == 's':
                f.write('s %s %d\n' % (v[1] or '_', v[3]))
            else:
                f.write('b %s %d %s\n' % (v[1] or '_', v[2], ' '.join(map(str, v[3]))))


def native(exe, env, timeout=20):
    e = dict(os.environ)
    e.update(env)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    wd = tempfile.mkdtemp(prefix='vreplay')
    try:
        p = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=wd)
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired:
        return 78, 'TIMEOUT'
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def confirm(spec, h, v, rdir, tag, budget):
    """replay against the real code; returns (confirmed, text, valuesfile)"""
    vals = os.path.join(rdir, tag + '.values')
    write_values(vals, v['values'])
    try:
        exe = build.build_native(spec.path, h, spec.outdir + '_native')
    except build.BuildError as x:
        return False, 'native build failed: ' + str(x)[-800:], vals
    rc, txt = native(exe, {'VERIF_REPLAY': vals})
    if rc not in (0, 77, 78):
        return True, 'exit %d\n%s' % (rc, txt[-3000:]), vals
    first = 'model replay: exit %d %s' % (rc, txt[-400:])
    # the model may depend on values the native run does not share: search around with random inputs
    t = time.time()
    k = 0
    rec = os.path.join(rdir, tag + '.random.values')
    while time.time() - t < budget:
        k += 1
        rc, txt = native(exe, {'VERIF_RANDOM': str(k), 'VERIF_RECORD': rec})
        if rc not in (0, 77, 78):
            return True, 'random input (seed %d): exit %d\n%s' % (k, rc, txt[-3000:]), rec
    if os.path.exists(rec):
        os.unlink(rec)
    return False, first + '\n%d random inputs: none fails' % k, vals


def known_findings():
    out = []
    f = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(f):
        for ln in open(f):
            ln = ln.strip()
            if ln and not ln.startswith('#'):
                d = json.loads(ln)
                if d.get('status') == 'known':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', default='')
    a = ap.parse_args()
    pid = a.pid
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    files = spec_files(pid)
    if not files:
        print('no harness for ' + pid)
        return 2
    work = tempfile.mkdtemp(prefix='verif_' + pid + '_')
    try:
        return go(pid, tier, seed, files, work, a)
    except build.BuildError as x:
        return undischarged(pid, ['the obligations can not be generated from the sources: ' + str(x)[-6000:]])
    except Exception as x:
        return undischarged(pid, ['the obligations can not be generated: %r %s' % (x, traceback.format_exc()[-1500:])])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def undischarged(pid, errors):
    """the verifier did not accept every obligation, and there is no counterexample either"""
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, '%s-undischarged.json' % pid)
    json.dump({'property': pid, 'obligation': 'not discharged: ' + errors[0][:300], 'verifier_output': errors,
               'confirmed_on_real_code': False}, open(rp, 'w'), indent=1)
    for e in errors:
        print('undischarged: property=%s %s' % (pid, e[-3000:]))
    print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    return 1


def untemplate(f):
    out = []
    d = 0
    f = f.replace('operator<<', 'operator@@').replace('operator>>', 'operator##').replace('operator<', 'operator@').replace('operator>', 'operator#').replace('->', '-#')
    for c in f:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).replace('operator@@', 'operator<<').replace('operator##', 'operator>>')


def go(pid, tier, seed, files, work, a):
    specs = [Spec(f, os.path.join(work, os.path.basename(f)[:-4])) for f in files]
    tasks = []
    where = harness_files()
    todo = []
    for s in specs:
        for h, o in s.harness.items():
            if pid in o.get('props', '').split(','):
                todo.append((s, h, pid))
    done = set()
    while todo:
        s, h, p = todo.pop(0)
        o = s.harness[h]
        if h in done or o.get('standin') or (o.get('tier', 'quick') == 'thorough' and tier == 'quick') or (a.only and a.only not in h):
            continue
        done.add(h)
        n = int(o.get('cases', 1))
        for c in range(n):
            tasks.append((s, h, c if n > 1 else None, o, tier, seed, p))
        # the proofs of the contracts this proof relies on belong to the same check
        for u in [u for u in o.get('uses', '').split(',') if u]:
            for ph in s.contract[u][1].get('proved', '').split('+'):
                if not ph or ph in done:
                    continue
                f = s.path if ph in s.harness else where.get(ph)
                if f is None:
                    raise build.BuildError('no proof %s of contract %s' % (ph, u))
                ps = [x for x in specs if x.path == f]
                if not ps:
                    ps = [Spec(f, os.path.join(work, os.path.basename(f)[:-4]))]
                    specs.append(ps[0])
                todo.append((ps[0], ph, None))
    global TASKS
    TASKS = tasks
    results = []
    replaced = set()

    def all_results():
        first = sorted(range(len(tasks)), key=lambda i: -float(tasks[i][3].get('cost', 1)))
        again = {}
        for r in schedule(first, min(a.jobs, len(tasks)), tier):
            sp = [x for x in specs if x.name == r['spec']][0]
            o = sp.harness[r['harness']]
            if o.get('instead') and (r.get('error') or r['unknown']) and not r['violations']:
                again.setdefault(r['harness'], (sp, o['instead'], r.get('error') or 'solver gave no answer'))
                replaced.add(r['harness'])
                continue
            yield r
        n = len(tasks)
        for h, (sp, ins, why) in again.items():
            # the code is out of reach of the general proof: bounded stand-ins, labelled as such
            print('note: property=%s %s: %s; bounded stand-in' % (pid, h, why[:150]), flush=True)
            for b in ins.split('+'):
                if b in done:
                    continue
                done.add(b)
                o = sp.harness[b]
                k = int(o.get('cases', 1))
                for c in range(k):
                    tasks.append((sp, b, c if k > 1 else None, o, tier, seed, pid if pid in o.get('props', '') else None))
        if len(tasks) > n:
            for r in schedule(list(range(n, len(tasks))), min(a.jobs, len(tasks) - n), tier):
                yield r

    for r in all_results():
        results.append(r)
        if a.v:
            print('  %s%s wall %.1f paths %d queries %d solver %.1f viol %d %s' % (
                r['harness'], '' if r['case'] is None else '#%d' % r['case'], r['wall'], r['paths'], r['queries'],
                r['solver_s'], len(r['violations']), r.get('error', '')), flush=True)
        if os.environ.get('VERIF_FAST') and (r['violations'] or r.get('error')):
            # for sweeps over planted changes: the first failure decides, nothing is replayed
            print('FAST %s %s' % (r['harness'], r['violations'][0]['obligation'] if r['violations'] else 'undischarged: ' + r['error'][:200]), flush=True)
            for c in mp.active_children():
                c.kill()
            shutil.rmtree(work, ignore_errors=True)
            os._exit(1)
    errors = []
    for r in results:
        if r.get('error'):
            errors.append('%s%s: %s' % (r['harness'], '' if r['case'] is None else '#%d' % r['case'], r['error']))
        if r['unknown']:
            errors.append('%s: solver gave no answer for: %s' % (r['harness'], ', '.join(sorted(set(r['unknown'])))))
    viol = []
    for r in results:
        for v in r['violations']:
            viol.append((r, v))
    # vacuity: every declared cover must be reached
    bySpec = {s.name: s for s in specs}
    if not viol:
        for s in specs:
            for h, o in s.harness.items():
                rs = [r for r in results if r['harness'] == h and r['spec'] == s.name]
                if not rs:
                    continue
                got = set()
                for r in rs:
                    got |= set(r['covers'])
                miss = [c for c in o.get('covers', '').split(',') if c and c not in got]
                if miss:
                    errors.append('%s: vacuous, never reached: %s' % (h, ','.join(miss)))
    # report
    rdir = os.path.join(VERIF, 'replays')
    kf = known_findings()
    seen = {}
    known_hit = {}
    lines = []
    for r, v in viol:
        key = (r['harness'], v['obligation'])
        k = None
        for x in kf:
            if x['harness'] == r['harness'] and x['obligation'] == v['obligation'] and (
                    not x.get('where') or any(x['where'] in w for w in v['stack'])):
                k = x
        if k is not None:
            known_hit[json.dumps(k)] = k
            continue
        seen.setdefault(key, []).append((r, v))
    nviol = 0
    for (h, ob), lst in seen.items():
        nviol += 1
        os.makedirs(rdir, exist_ok=True)
        tag = re.sub(r'\W+', '_', '%s-%s-%s' % (pid, h, ob))[:90]
        spec = bySpec[lst[0][0]['spec']]
        ok = False
        txt = ''
        for r, v in lst[:3]:
            ok, txt, vals = confirm(spec, h, v, rdir, tag, 6 if len(seen) > 3 else 20)
            if ok:
                break
        rp = os.path.join(rdir, tag + '.json')
        json.dump({'property': pid, 'harness': h, 'spec': spec.name, 'obligation': ob, 'stack': v['stack'],
                   'values': v['values'] if ok else lst[0][1]['values'], 'values_file': vals, 'confirmed_on_real_code': ok,
                   'native': txt, 'how': 'the failed verification condition is: on the path that reaches the stack above, '
                   '"%s"; inputs of the harness in order under values' % ob}, open(rp, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if ok else ' no-failing-input-found'))
        print('failed obligation: %s: %s at %s%s' % (h, ob, v['where'], '\n' + txt if a.v else ''))
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    tot = dis = triv = btot = bdis = 0
    named = {}
    bounds = {}
    for r in results:
        bound = bySpec[r['spec']].harness[r['harness']].get('bound')
        if bound:
            bounds[r['harness']] = bound
        for n, c in r['obl'].items():
            # a bounded stand-in is never counted as proved
            if bound:
                btot += c[0]
                bdis += c[1] + c[2]
            else:
                tot += c[0]
                dis += c[1] + c[2]
                triv += c[2]
            e = named.setdefault(r['harness'] + ': ' + n, [0, 0])
            e[0] += c[0]
            e[1] += c[1] + c[2]
    funcs = set()
    ext = set()
    rep = {}
    loops = {}
    notes = set()
    for r in results:
        funcs |= set(r['funcs'])
        ext |= set(demangle(e) for e in r['externs'])
        notes |= set(r['notes'])
        for f, c in r['loops'].items():
            loops[f] = loops.get(f, 0) + c
        for x in r['replaced']:
            st = [c for s in specs for c, (sig, o) in s.contract.items() if sig.replace(' ', '') == demangle(x).replace(' ', '')]
            rep[demangle(x)] = ', '.join(st)
    # the functions of the application (library templates instantiated with its types are verified too, not listed)
    code = set()
    for f in funcs:
        flat = untemplate(f)
        if re.match(r'(app::|[\w:&* ]+ app::)', flat) and not re.match(r'[\w:&* ()]*std::', flat):
            code.add(f if len(f) <= 200 else flat[:200])
    code = sorted(code)
    assumptions = ['LLVM IR produced by clang 18 from the C++ sources at -O0 has the semantics of the sources (the verified IR '
                   'is compiled from /repo on this run)',
                   'operator new does not fail', 'logging output is not observable (logger replaced by a no-op; its arguments are evaluated)']
    assumptions += sorted(notes)
    for s in specs:
        for c, (sig, o) in s.contract.items():
            if o.get('trusted') and any(c in v for v in rep.values()):
                assumptions.append('assumed contract on %s: %s' % (sig, o['trusted']))
        for ln in open(s.path):
            mm = re.match(r'// ASSUMES:\s*(.*)', ln)
            if mm and mm.group(1) not in assumptions:
                assumptions.append(mm.group(1))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': tot, 'discharged': dis, 'discharged_by_evaluation': triv,
                       'discharged_by_solver': dis - triv,
                       'bounded_obligations': btot, 'bounded_discharged': bdis, 'bounds': bounds,
                       'named_obligations': {k: {'instances': v[0], 'discharged': v[1]} for k, v in sorted(named.items())},
                       'checker_cmd': 'python3-vt engine/check.py %s --tier %s' % (pid, tier),
                       'back_end': 'z3 ' + z3.get_version_string() + ' (QF_AUFBV, one query per verification condition)',
                       'solver_s': round(sum(r['solver_s'] for r in results), 2),
                       'solver_queries': sum(r['queries'] for r in results),
                       'paths': sum(r['paths'] for r in results),
                       'harnesses': {(r['harness'] + ('' if r['case'] is None else '#%d' % r['case'])):
                                     {'paths': r['paths'], 'wall_s': round(r['wall'], 2), 'queries': r['queries']} for r in results},
                       'functions_verified_in_body': code,
                       'functions_used_by_contract': rep,
                       'loops_decided_by_invariant': {(f if len(f) <= 200 else untemplate(f)[:200]): c for f, c in sorted(loops.items())},
                       'replaced_by_bounded_stand_in': sorted(replaced),
                       'sources': sorted(set(f for s in specs for f in s.files if f.startswith(build.REPO))),
                       'covers': sorted(set(r['harness'] + ':' + c for r in results for c in r['covers'])),
                       'trusted_base': ['engine/symex.py (verification condition generator), engine/extmodel.py (runtime models)',
                                        'z3', 'clang 18 front end'] + ['model of external function ' + e for e in sorted(ext)]},
          'assumptions': assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if errors:
        return undischarged(pid, errors)
    print('OK property=%s obligations=%d discharged=%d bounded=%d/%d harness runs=%d wall=%.1fs' % (pid, tot, dis, bdis, btot, len(results), time.time() - T0))
    return 0


TASKS = []
QUICK_S = 800         # a quick check answers within this time, whatever happens
MEM = 6 << 30         # per proof


def _run(i, conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    try:
        r = run_harness(TASKS[i])
    except BaseException as x:
        r = lost(i, 'internal: %r' % x)
    conn.send(r)
    conn.close()


def lost(i, why):
    t = TASKS[i]
    return {'spec': t[0].name, 'harness': t[1], 'case': t[2], 'error': why, 'obl': {}, 'violations': [], 'paths': 0, 'covers': [],
            'solver_s': 0.0, 'queries': 0, 'unknown': [], 'instrs': 0, 'funcs': [], 'replaced': [], 'externs': [], 'notes': [], 'loops': {}, 'wall': 0.0}


def schedule(order, jobs, tier):
    """one process per proof; a proof that dies or does not end is undischarged, never silent"""
    ctx = mp.get_context('fork')
    todo = list(order)
    run = {}
    while todo or run:
        while todo and len(run) < jobs:
            i = todo.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_run, args=(i, wr))
            p.start()
            wr.close()
            run[rd] = (i, p)
        for rd in mpc.wait(list(run), 5):
            i, p = run.pop(rd)
            try:
                r = rd.recv()
            except (EOFError, OSError):
                r = lost(i, 'the proof was ended (memory)')
            rd.close()
            p.join()
            yield r
        if tier == 'quick' and time.time() - T0 > QUICK_S:
            for i, p in run.values():
                p.kill()
                yield lost(i, 'no answer within the time of a quick check')
            for i in todo:
                yield lost(i, 'no answer within the time of a quick check')
            return


if __name__ == '__main__':
    sys.exit(main())
