"""Runs programs on the implementation (through the harness) and judges the recordings with TLC.

The verdict on every recorded execution is the specification's: spec/CordyTrace.tla runs the specified machine on the
program and compares it, step by step, with what was recorded."""
import json, os, re, subprocess, sys, tempfile, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
import cordyfront

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
TARGET = os.environ.get('CORDY_TARGET', os.path.join(VERIF, 'target'))


class ToolError(Exception):
    pass


def build_harness():
    """(re)builds the harness against /repo's working tree"""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET)
    cmd = '. /opt/vp/env.sh 2>/dev/null; cd %s/harness && cargo build --offline 2>&1' % VERIF
    p = subprocess.run(['bash', '-c', cmd], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('the harness does not build:\n' + p.stdout[-3000:])
    return os.path.join(TARGET, 'debug', 'cordy-harness')


_bin = None


def binary():
    global _bin
    if _bin is None:
        _bin = build_harness()
    return _bin


def _run_part(args):
    cases, ms, wd, tag = args
    path = os.path.join(wd, 'cases-%s.ndjson' % tag)
    with open(path, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    res = [None] * len(cases)
    start = 0
    while start < len(cases):
        env = dict(os.environ, CASE_MS=str(ms))
        p = subprocess.run(['bash', '-c', 'ulimit -v 6000000; exec "$0" "$@"', binary(), path, str(start)], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        cur = None
        for line in p.stdout.decode('utf-8', 'replace').split('\n'):
            if line.startswith('#'):
                cur = int(line[1:])
            elif line.startswith('{'):
                r = json.loads(line)
                res[r['i']] = r
        if p.returncode == 0 and all(r is not None for r in res[start:]):
            break
        if cur is None:
            raise ToolError('the harness gave no answer (exit %d)' % p.returncode)
        if res[cur] is None:
            res[cur] = {'i': cur, 'st': 'crash', 'out': '', 'ffi': [], 'error': 'the process died with code %d' % p.returncode}
        start = cur + 1
    os.unlink(path)
    return res


def run_impl(cases, ms=4000, jobs=8):
    """the implementation's recordings of the given cases, in order"""
    binary()
    wd = tempfile.mkdtemp(prefix='cordy-')
    try:
        k = max(1, min(jobs, len(cases) // 20 + 1))
        parts = [(cases[i::k], ms, wd, i) for i in range(k)]
        with ThreadPoolExecutor(k) as ex:
            rs = list(ex.map(_run_part, parts))
    finally:
        shutil.rmtree(wd)
    out = [None] * len(cases)
    for i in range(k):
        for j, r in enumerate(rs[i]):
            out[i + j * k] = r
    return out


_cli = []


def cli():
    """the interpreter and the native libraries, rebuilt from the working tree"""
    if not _cli:
        env = dict(os.environ, CARGO_TARGET_DIR=VERIF + '/target/cli')
        p = subprocess.run('. /opt/vp/env.sh 2>/dev/null; cd /repo && cargo build --offline -q -p cordy', shell=True, executable='/bin/bash', env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        exe = VERIF + '/target/cli/debug/cordy'
        if p.returncode or not os.path.exists(exe):
            raise ToolError('the interpreter does not build: ' + p.stdout.decode('utf-8', 'replace')[-2000:])
        for m in ('m', 'k'):
            p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I/repo/cordy', '-DMODULE="%s"' % m, '-o', VERIF + '/target/cli/lib%s.so' % m,
                                VERIF + '/harness/ffi/lib.c'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise ToolError('the native library does not build: ' + p.stdout.decode('utf-8', 'replace')[-2000:])
        _cli.append(exe)
    return _cli[0]


def _run_cli_one(job):
    wd = tempfile.mkdtemp(prefix='cordy-cli-')
    try:
        with open(wd + '/<test>', 'w', newline='') as f:
            f.write(job['src'])
        cmd = [cli()] + (['-o'] if job['opt'] else []) + list(job.get('flags', ()))
        for m in job.get('links', ()):
            os.symlink(VERIF + '/target/cli/lib%s.so' % m, wd + '/lib%s.so' % m)
            cmd += ['-l', '%s=./lib%s.so' % (m, m)]
        env = dict(job.get('env', {}), CORDY_FFI_LOG=wd + '/log', PATH='/usr/bin:/bin', RUST_BACKTRACE='0')
        try:
            p = subprocess.run(cmd + ['<test>'] + list(job['args']), cwd=wd, env=env, input=job['stdin'].encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=job.get('timeout', 20))
        except subprocess.TimeoutExpired as e:
            return dict(st='hang', out=(e.stdout or b'').decode('utf-8', 'replace'), error='', ffi=[])
        out, err = p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
        ffi = []
        if os.path.exists(wd + '/log'):
            with open(wd + '/log') as f:
                ls = f.read().split('\n')
            i = 0
            while i < len(ls) - 1:
                m, name, n = ls[i].split('\t')
                ffi.append([m, name, int(n), ls[i + 1:i + 1 + int(n)]])
                i += 1 + int(n)
        st = 'panic' if 'panicked at' in err else 'crash' if p.returncode else 'error' if err else 'exit'
        return dict(st=st, out=out, error=err, ffi=ffi)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run_cli(jobs):
    """the recordings of the interpreter itself, with real native libraries"""
    cli()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(_run_cli_one, jobs))


ORD = {chr(i): i for i in list(range(1, 127)) if chr(i).isprintable() or i in (9, 10, 13)}
for ch in 'éèñüßøæåÉÑ¿çλΩжあ語漢字€😀🎉¡°':
    ORD[ch] = ord(ch)
# TLC's strings are UTF-16: characters beyond the basic plane are given to it as one private character each
ASTRAL = {ch: chr(0xE000 + i) for i, ch in enumerate(c for c in ORD if ord(c) > 0xFFFF)}
ORD = {ASTRAL.get(k, k): v for k, v in ORD.items()}
CHR = {str(v): k for k, v in ORD.items()}
PLAIN = {v: k for k, v in ASTRAL.items()}
ASTRAL_TABLE = {ord(k): v for k, v in ASTRAL.items()}


class Tlc:
    def __init__(self):
        self.states = self.distinct = self.runs = 0
        self.wall = 0.0


STATS = Tlc()


def run_tlc(module, cfg, env, workers=8, timeout=600, extra=(), heap='6g'):
    wd = tempfile.mkdtemp(prefix='cordy-tlc-')
    t0 = time.time()
    try:
        cmd = ['timeout', str(timeout), 'java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8',
               '-Dstdout.encoding=UTF-8', '-DTLA-Library=' + VERIF + '/spec', '-cp', JAR + ':' + CM, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', wd, '-noGenerateSpecTE', '-config', cfg, *extra, module]
        p = subprocess.run(cmd, cwd=VERIF + '/spec', env=dict(os.environ, **env), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        out = p.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    if 'Parsing or semantic analysis failed' in out:
        raise ToolError('the specification does not parse: ' + out[-1500:])
    m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
    if m:
        STATS.states += int(m[-1][0])
        STATS.distinct += int(m[-1][1])
    STATS.runs += 1
    STATS.wall += time.time() - t0
    return p.returncode, out


def parse_verdicts(out):
    """lines <<"VERDICT", pid, <<kind, detail>>, steps>>, possibly wrapped over several lines"""
    v = {}
    for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*<<\s*"(\w+)",\s*("(?:[^"\\]|\\.)*")\s*>>,\s*(\d+)\s*>>', out, re.S):
        v[int(m.group(1))] = (m.group(2), m.group(3), int(m.group(4)))
    return v


def judge(programs, fuel=60000, chunk=400, timeout=100, deadline=None, module='CordyTrace'):
    """the same, with the texts which the programs give to eval supplied as they are asked for"""
    deadline = deadline or time.time() + timeout
    vs = judge_once(programs, fuel, chunk, timeout, deadline, module)
    for _ in range(30 if module == 'CordyTrace' else 6):
        ask = [i for i, v in enumerate(vs) if v[0] == 'ask']
        if not ask:
            break
        more = []
        for i in ask:
            t = tla_string(vs[i][1])
            try:
                more.append(cordyfront.with_evals(programs[i], [t]))
            except RecursionError:
                more.append(programs[i])
                programs[i]['evals'] = [dict(src='')]
            programs[i] = more[-1]
        for i, v in zip(ask, judge_once(more, fuel, chunk, timeout, deadline, module)):
            vs[i] = v
    return [('fuel', 'eval', v[2]) if v[0] == 'ask' else v for v in vs]


def tla_string(t):
    """a string as printed by TLC, read back"""
    t = re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(m.group(1), m.group(1)), t[1:-1], flags=re.S)
    return ''.join(PLAIN.get(ch, ch) for ch in t)


def judge_once(programs, fuel=60000, chunk=400, timeout=100, deadline=None, module='CordyTrace'):
    """programs: dicts with translate()'s keys, stdin, args, obs -> list of (kind, detail, steps)"""
    for p in programs:
        p.setdefault('real', False)
        p.setdefault('links', [])
        p.setdefault('opt', False)
        p.setdefault('kind', 'run')
        p.setdefault('syn', False)
        p.setdefault('text', [])
        p.setdefault('file', '<test>')
        p.setdefault('evals', [])
        p.setdefault('eof', 0)
    out = []
    deadline = deadline or time.time() + timeout
    for lo in range(0, len(programs), chunk):
        part = programs[lo:lo + chunk]
        if time.time() > deadline:
            out += [('fuel', 'out of time', 0)] * len(part)
            continue
        fd, path = tempfile.mkstemp(prefix='cordy-', suffix='.json')
        with os.fdopen(fd, 'w') as f:
            f.write(json.dumps({'ord': ORD, 'chr': CHR, 'progs': part, 'fuel': fuel}, ensure_ascii=False).translate(ASTRAL_TABLE))
        try:
            rc, txt = run_tlc(module + '.tla', module + '.cfg', {'CORDY_DATA': path}, timeout=max(20, deadline - time.time()))
        finally:
            if os.environ.get('CORDY_KEEP'):
                shutil.copy(path, os.environ['CORDY_KEEP'])
            os.unlink(path)
        v = parse_verdicts(txt)
        for i in range(len(part)):
            if i + 1 not in v:
                if len(part) == 1:
                    out.append(('spec', 'no verdict: ' + txt[-2500:], 0))
                    continue
                # TLC stopped at some program: judge the rest one by one to find it
                rest = [j for j in range(len(part)) if j + 1 not in v]
                if rc == 124:
                    v.update({j + 1: ('fuel', 'out of time', 0) for j in rest})
                elif len(rest) > 1:
                    h = len(rest) // 2
                    for half in (rest[:h], rest[h:]):
                        for j, r in zip(half, judge_once([part[j] for j in half], fuel, chunk, timeout, deadline, module)):
                            v[j + 1] = r
                else:
                    v[rest[0] + 1] = judge_once([part[rest[0]]], fuel, chunk, timeout, deadline, module)[0]
            out.append(v[i + 1])
    return out


ONE = re.compile(r'((?:\S.*?)?)\n  at: line (\d+)(?: - (\d+))? \(<\w+>\)\n((?:  at: [^\n]*\n|  \.\.\. above line [^\n]*\n)*)\n', re.S)


def reports(text, anonymous=False):
    """the error reports a text consists of, as far as it does"""
    out, i = [], 0
    while True:
        m = ONE.match(text, i)
        if not m or not m.group(1) and not anonymous:
            return out
        a, b = int(m.group(2)), int(m.group(3) or m.group(2))
        e = m.end()
        for _ in range(max(0, b - a) + 2):
            e = text.find('\n', e) + 1 or len(text)
        under = text[:e - 1].rsplit('\n', 1)[-1]
        w = len(str(b + 1)) + 3
        out.append(dict(rep=text[i:e], at=dict(msg=m.group(1), a=a, b=b, c=len(under[w:].rstrip('^')), n=under.count('^'), trace=m.group(4))))
        i = e + 1


def session(r, lines):
    """a recorded interactive session, as data for spec/CordyRepl.tla"""
    t = cordyfront.session(lines, r['steps'], r['prompt'])
    out, steps = '', []
    for s in r['steps']:
        out += s['out']
        steps.append(dict(prompt=s['prompt'], upto=len(out), res=s['res']))
    for e in t['entries']:
        shown = ''.join(s['out'] for s in r['steps'][e['from'] - 1:e['to']])
        e['reps'] = reports(shown) if e['kind'] != 'blank' else []
        e['text'] = e['text'] + ['']
        e['asides'] = asides(shown)
        at = [m.start() for m in re.finditer(r'\n  at: line \d', shown)]
        q = reports(shown[at[-1]:], True) if at else []
        e['fail'] = q[0]['at'] if q else dict(msg='', a=0, b=0, c=0, n=0, trace='')
    return dict(t, file='<stdin>', stdin='', args=[], obs=dict(st=r['st'], out=out, steps=steps, ffi=[], lines=True))


lines_of = cordyfront.lines_of


def asides(text):
    """the errors of a text given to eval, in what is shown"""
    h = "Encountered compilation error(s) within 'eval':\n\n"
    i = text.find(h)
    return reports(text[i + len(h):]) if i >= 0 else []


def reading(rep):
    """how an error report is to be read (spec/CordyReport.tla checks that this is what it says)"""
    m = re.match(r'(.*)\n  at: line (\d+)(?: - (\d+))? \(<\w+>\)\n', rep, re.S)
    if not m:
        return dict(msg='', a=0, b=0, c=0, n=0, trace='')
    a, b = int(m.group(2)), int(m.group(3) or m.group(2))
    rest = rep[m.end():].split('\n')
    k = max(0, b - a) + 3
    trace = ''.join(l + '\n' for l in rest[:-k][:-1])
    under = rest[-2] if len(rest) > 1 else ''
    w = len(str(b + 1)) + 3
    return dict(msg=m.group(1), a=a, b=b, c=len(under[w:].rstrip('^')), n=under.count('^'), trace=trace)


def observation(r, lines=True):
    st = r['st']
    errors = r.get('errors') or []
    if st in ('compile', 'ok'):
        return dict(st=st, errors=errors, at=[reading(e) for e in errors], cli=r.get('cli') or [], out='', error='', ffi=[], lines=lines)
    # a location of several lines is named by its first one
    error = r.get('error') or ''
    m = re.match(r'.*(\n  at: line \d+)((?: - \d+)?) \(<\w+>\)\n', error, re.S)
    if m:
        error = error[:m.start(2)] + error[m.end(2):]
    at = [reading(r['error'])] if m and st == 'error' and lines else []
    return dict(st=st, out=r.get('out', ''), rep=r.get('error') or '', at=at, error=error, ffi=r.get('ffi') or [], lines=lines, asides=asides(r.get('error') or ''))


def case(src, opt, stdin='', args=()):
    return dict(kind='run', src=src, opt=opt, stdin=stdin, args=list(args))


if __name__ == '__main__':
    # programs on stdin, separated by lines `----`
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('-o', action='store_true')
    a = ap.parse_args()
    srcs = [s for s in sys.stdin.read().split('\n----\n')]
    rs = run_impl([case(s, a.o) for s in srcs])
    ps = []
    for s, r in zip(srcs, rs):
        try:
            t = cordyfront.translate(s)
        except Exception as e:
            print('FRONT', repr(e), 'in', s[:200], '| impl:', r['st'])
            continue
        ps.append(dict(t, opt=a.o, stdin='', args=[], obs=observation(r), src=s, text=lines_of(s)))
    vs = judge(ps)
    bad = 0
    for p, v in zip(ps, vs):
        if v[0] != 'ok':
            bad += 1
            print('=' * 70)
            print(p['src'][:2500])
            print('--- recorded:', p['obs']['st'], repr(p['obs']['out'])[-500:], p['obs'].get('errors'), repr(p['obs']['error'][:600]))
            print('--- spec:', v[0], v[1][:700])
    print('%d programs, %d mismatches, %.1fs TLC, %d states' % (len(ps), bad, STATS.wall, STATS.states))
