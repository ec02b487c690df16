"""Compiles /repo's current sources plus one spec file to a single LLVM IR module."""
import glob
import hashlib
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
APP = REPO + '/src/app'


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def includes():
    ds = set()
    for root, dirs, files in os.walk(APP):
        if os.path.basename(root) == 'ut':
            continue
        if any(f.endswith('.hpp') or f.endswith('.h') for f in files):
            ds.add(root)
    ds.add(APP)
    return ['-I' + d for d in sorted(ds)] + ['-I' + SPEC]


def directives(spec):
    """// SOURCES: globs relative to src/app ; // ENV: files in spec/ ; // FLAGS: ..."""
    out = {'SOURCES': [], 'ENV': [], 'FLAGS': [], 'NATIVE': []}
    for ln in open(spec):
        m = re.match(r'// (SOURCES|ENV|FLAGS|NATIVE):\s*(.*)', ln)
        if m:
            out[m.group(1)] += m.group(2).split()
    out['ENV'] = list(dict.fromkeys(['env_logger.cpp', 'env_stdlib.cpp'] + out['ENV']))
    return out


def sources(pats):
    fs = []
    neg = []
    for p in pats:
        if p.startswith('!'):
            neg += glob.glob(APP + '/' + p[1:], recursive=True)
        else:
            got = sorted(glob.glob(APP + '/' + p, recursive=True))
            fs += [g for g in got if '/ut/' not in g]
    return [f for f in dict.fromkeys(fs) if f not in neg]


CXX = ['clang++', '-std=c++20', '-fno-access-control', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEBUG', '-DVERIF_SPEC']


def build_ir(spec, outdir, jobs=8):
    os.makedirs(outdir, exist_ok=True)
    d = directives(spec)
    inc = includes()
    files = sources(d['SOURCES']) + [os.path.join(SPEC, e) for e in d['ENV']] + [spec]
    if not d['SOURCES'] == [] and len(files) <= len(d['ENV']) + 1:
        raise BuildError('no sources match ' + ' '.join(d['SOURCES']))

    def comp(f):
        o = os.path.join(outdir, hashlib.md5(f.encode()).hexdigest()[:8] + '_' + os.path.basename(f) + '.bc')
        run(CXX + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-gline-tables-only', '-fno-threadsafe-statics']
            + d['FLAGS'] + inc + ['-c', '-emit-llvm', f, '-o', o])
        return o
    with ThreadPoolExecutor(jobs) as ex:
        bcs = list(ex.map(comp, files))
    allbc = os.path.join(outdir, 'all.bc')
    run(['llvm-link'] + bcs + ['-o', allbc])
    ll = os.path.join(outdir, 'all.ll')
    api = [l.split()[0] for l in run(['llvm-nm', '--defined-only', '-j', allbc]).split('\n')
           if re.match(r'h_\w+$', l.strip()) or re.match(r'(c|v_os)_\w+$', l.strip())]
    lst = os.path.join(outdir, 'api.txt')
    open(lst, 'w').write('\n'.join(api) + '\n')
    run(['opt', '-S', '-passes=internalize,globaldce,function(sroa)', '-internalize-public-api-file=' + lst, allbc, '-o', ll])
    return ll, files


def build_native(spec, entry, outdir, san=True):
    os.makedirs(outdir, exist_ok=True)
    d = directives(spec)
    inc = includes()
    files = sources(d['SOURCES']) + [os.path.join(SPEC, e) for e in d['ENV']] + [spec]
    if os.path.exists(os.path.join(outdir, 'objs.ok')):
        objs = open(os.path.join(outdir, 'objs.ok')).read().split()
    else:
        def comp(f):
            o = os.path.join(outdir, hashlib.md5(f.encode()).hexdigest()[:8] + '_' + os.path.basename(f) + '.o')
            run(['clang++', '-std=c++20', '-fno-access-control', '-w', '-DEBUG', '-g1', '-O1', '-DVERIF_NATIVE']
                + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment,null,nonnull-attribute,signed-integer-overflow,enum,bool,shift,pointer-overflow'] if san else [])
                + d['FLAGS'] + d['NATIVE'] + inc + ['-c', f, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, files))
        open(os.path.join(outdir, 'objs.ok'), 'w').write(' '.join(objs))
    exe = os.path.join(outdir, 'replay_' + entry)
    run(['clang++', '-std=c++20', '-w', '-g1', '-O1', '-DVERIF_ENTRY=' + entry]
        + (['-fsanitize=address,undefined'] if san else []) + ['-I' + SPEC, os.path.join(SPEC, 'native_rt.cpp')] + objs
        + ['-lpthread', '-o', exe])
    return exe
