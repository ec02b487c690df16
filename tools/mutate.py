#!/usr/bin/env python3
"""tools/mutate.py <out.log> <fraction> <seed> [file substring...]: sweeps simple changes of the sources (statement
dropped, comparison or constant changed, condition negated) over a scratch copy and runs the checks of the file;
a change that compiles and no check reports is printed as SURVIVED for review."""
import os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('controller/', 'C01'), ('modbus/ModbusCodec', 'M01 M02 M03'), ('modbus/client', 'M04 M05 M06 M07'), ('modbus/server', 'M08 M09 M10'), ('modbus/Modbus', 'M10'),
       ('Deployer', 'C01'), ('connector/', ''), ('detector/', ''), ('main.cpp', ''),
       ('common/reactor/MsgMem', 'R02'), ('utils/Queue', 'R01 R02'), ('reactor/EntityPool', 'R03'), ('UaEntityPool', 'R03'), ('reactor/Reactor.cpp', 'R03 R04'),
       ('reactor/ReactorManager', 'R04'), ('reactor/Epoll', 'R04'), ('reactor/Event', 'R06 R04'), ('reactor/Link', 'R06'), ('reactor/Timer', 'R06'), ('reactor/Acceptor', 'R06'),
       ('common/ua/common', 'U01 U02'), ('protocols/connection', 'U07'), ('ua/transport', 'U03'), ('ua/securechannel', 'U04'), ('ua/service', 'U05')]


def props(f):
    for k, v in MAP:
        if k in f:
            return v.split()
    return []


SWAP = [(' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' += ', ' -= '),
        ('true', 'false'), ('false', 'true')]


def mutants(f, src):
    out = []
    for i, ln in enumerate(src):
        t = ln.strip()
        if t.startswith(('//', '#', '*', '/*', 'LM(', 'namespace', 'using', 'case', 'default', 'template', ',', ':')) or not t:
            continue
        if re.match(r'^[\w\[\]().>:*&<,{}\' +\-|]+( = .*| \+= .*|\(.*\)|\+\+)?;$', t) and not t.startswith(('return', 'break', 'throw', 'auto', 'public', 'private', 'explicit', 'virtual', 'static', 'struct', 'class')) \
                and not re.match(r'^[\w:<>]+[&*]? [\w]+(;| = |\(|\{)', t):
            out.append((i, '', 'drop'))
        code = ln.split('LM(')[0]
        if 'virtual' in t or '= 0;' in t and '(' in t:
            continue
        for a, b in SWAP:
            k = code.find(a)
            if k >= 0 and 'for (' not in code or (k >= 0 and a in (' < ',)):
                out.append((i, ln[:k] + b + ln[k + len(a):], a + '->' + b))
        m = re.match(r'^(\s*(?:else )?(?:if|while) \()(.*)(\)\s*)$', code)
        if m:
            out.append((i, m.group(1) + 'not (' + m.group(2) + ')' + m.group(3), 'negate'))
        for m in re.finditer(r'(?<![\w.\[x])(\d+)(?![\w.])', code):
            if t.startswith(('return', 'if', 'case')) or '=' in t or '[' in t:
                out.append((i, ln[:m.start()] + str(int(m.group(1)) + 1) + ln[m.end():], m.group(1) + '+1'))
    return out


def main():
    log, frac, seed = open(sys.argv[1], 'a'), float(sys.argv[2]), int(sys.argv[3])
    jobs = os.environ.get('JOBS', '8')
    want = sys.argv[4:]
    base = '/tmp/mutrepo'
    shutil.rmtree(base, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', base], check=True)
    files = sorted(subprocess.run("find src/app -name '*.cpp' -o -name '*.hpp'", shell=True, cwd=base, stdout=subprocess.PIPE, text=True).stdout.split())
    todo = []
    for f in files:
        if '/ut/' in f or '/tests/' in f or not props(f) or (want and not any(w in f for w in want)):
            continue
        src = open(base + '/' + f).read().split('\n')
        todo += [(f, m) for m in mutants(f, src)]
    rnd = random.Random(seed)
    rnd.shuffle(todo)
    todo = todo[:int(len(todo) * frac)] if frac <= 1 else todo[:int(frac)]
    print(len(todo), file=log, flush=True)
    for f, (i, new, what) in todo:
        p = base + '/' + f
        old = open(p).read()
        src = old.split('\n')
        line = src[i]
        src[i] = new
        open(p, 'w').write('\n'.join(src))
        res = 'SURVIVED'
        try:
            for pr in props(f):
                r = subprocess.run(['python3-vt', V + '/engine/check.py', pr, '--jobs', jobs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env=dict(os.environ, VERIF_REPO=base, VERIF_FAST='1'))
                if r.returncode:
                    x = [l for l in r.stdout.split('\n') if l.startswith(('FAST', 'undischarged', 'failed', 'VIOL'))]
                    res = 'nocompile' if 'can not be generated from' in r.stdout and 'error:' in r.stdout else 'killed ' + pr + ' ' + (x[0] if x else r.stdout[-200:])[:160]
                    break
        finally:
            open(p, 'w').write(old)
        print('%s | %s:%d | %s | %s' % (res, f[8:], i + 1, what, line.strip()[:100]), file=log, flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
