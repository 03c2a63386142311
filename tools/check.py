#!/usr/bin/env python3
"""check.py PROPERTY TIER -- decides one property against /repo's working tree.

Every property draws programs from its families (families.py), runs each on the implementation without and with
optimisation, and lets TLC judge the recordings against the specification (spec/CordyTrace.tla)."""
import hashlib, itertools, json, os, random, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conf, cordyfront
from conf import ToolError

VERIF = conf.VERIF
WORK = os.path.join(VERIF, 'work')


class Case:
    """one program with its surroundings"""
    __slots__ = ('src', 'stdin', 'args', 'lines', 'family', 'opts', 'tree', 'links', 'kind')

    def __init__(self, src, stdin='', args=(), lines=True, opts=(False, True), links=None, kind='run'):
        self.src, self.stdin, self.args, self.lines, self.opts = src, stdin, list(args), lines, opts
        self.links = links          # None: in process; otherwise by the interpreter itself, with these libraries linked
        self.kind = kind            # 'text': it is only compiled
        self.family = ''
        self.tree = None


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.budget = float(os.environ.get('CHECK_SECONDS', 28 if tier == 'quick' else 600))
        self.cases = self.executions = self.validated = self.inconclusive = self.rejected_front = self.steps = 0
        self.distinct = set()
        self.families = {}
        self.samples = []
        self.violations = []
        self.known = load_known(pid)
        self.extra = {}
        self.notes = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def violation(self, what, replay):
        os.makedirs(os.path.join(WORK, 'replays'), exist_ok=True)
        txt = json.dumps(dict(replay, property=self.pid, what=what), indent=1, ensure_ascii=False)
        path = os.path.join(WORK, 'replays', '%s-%s.json' % (self.pid, hashlib.sha1(txt.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(txt)
        self.violations.append((what, path))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('  ' + what[:300].replace('\n', '\\n'))
        if replay.get('src'):
            print('  ' + replay['src'][:1200].replace('\n', '\n  '))
        sys.stdout.flush()


def load_known(pid):
    try:
        with open(os.path.join(VERIF, 'known-findings.json')) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == pid]
    except FileNotFoundError:
        return []


def same(a, b):
    return all(a.get(k) == b.get(k) for k in ('st', 'out', 'error', 'ffi', 'errors'))


def execute(cases):
    """recordings of the cases: list of {opt: record}"""
    jobs, where = [], []
    real = [(i, o, c) for i, c in enumerate(cases) if c.links is not None and c.kind == 'run' for o in c.opts]
    for i, c in enumerate(cases):
        for o in c.opts if c.links is None or c.kind == 'text' else ():
            jobs.append(conf.case(c.src, o, c.stdin, c.args) if c.kind == 'run' else dict(kind='compile', src=c.src, opt=o))
            where.append((i, o))
    # a text which is only compiled, is compiled again elsewhere
    again = [k for k, j in enumerate(jobs) if j['kind'] == 'compile']
    rs = conf.run_impl(jobs)
    for k, r in zip(again, conf.run_impl([jobs[k] for k in again], jobs=5) if again else ()):
        if rs[k]['st'] in ('ok', 'compile') and not same(r, rs[k]) and r['st'] != 'hang':
            rs[k] = dict(rs[k], st='different')
    # a time-out or a crash may be the machine's load: once more, alone and with more time
    slow = [k for k, r in enumerate(rs) if r['st'] in ('hang', 'crash')]
    if slow:
        for k, r in zip(slow[:24], conf.run_impl([jobs[k] for k in slow[:24]], ms=15000, jobs=4)):
            rs[k] = r
    out = [{} for _ in cases]
    for (i, o), r in zip(where, rs):
        out[i][o] = r
    # what the interpreter does with a rejected text
    rejected = [(i, o, c) for i, c in enumerate(cases) if c.links is not None and c.kind == 'text' for o in c.opts if out[i][o]['st'] == 'compile']
    if rejected:
        for (i, o, c), r in zip(rejected, conf.run_cli([dict(src=c.src, opt=o, stdin=c.stdin, args=c.args, links=c.links) for _, o, c in rejected])):
            out[i][o] = dict(out[i][o], cli=[r['out'], r['error']])
    if real:
        for (i, o, c), r in zip(real, conf.run_cli([dict(src=c.src, opt=o, stdin=c.stdin, args=c.args, links=c.links) for _, o, c in real])):
            if r['st'] == 'error' and r['error'].endswith('\n'):
                r['error'] = r['error'][:-1]  # the interpreter shows a report as a line
            out[i][o] = r
    return out


def decide(cases, fuel=60000, chunk=3000):
    """-> list of (case, opt, record, verdict kind, detail, steps) for each recording"""
    res, progs = [], []
    live = []
    for c in cases:
        try:
            c.tree = c.tree or cordyfront.translate(c.src)
            live.append(c)
        except cordyfront.FrontError as e:
            if c.kind == 'text':
                c.tree = dict(nodes=[['blk', 1, []]], root=1, structs=[], globals=[], syn=True, eof=cordyfront.eof_of(c.src))
                live.append(c)
                continue
            res.append((c, None, None, 'front', str(e), 0))
        except (RecursionError, IndexError, ValueError, TypeError, KeyError) as e:
            if c.kind != 'text':
                raise
            res.append((c, None, None, 'front', repr(e), 0))
    for c, recs in zip(live, execute(live)):
        groups = []
        for o, r in recs.items():
            for g in groups:
                if same(g[1], r):
                    g[0].append(o)
                    break
            else:
                groups.append(([o], r))
        for os_, r in groups:
            progs.append((c, os_, r))
    # the cells of c.tree are shared between recordings of one program
    vs = conf.judge([dict(c.tree, stdin=c.stdin, args=c.args, real=c.links is not None, links=c.links or [], opt=o == [True], kind=c.kind, text=conf.lines_of(c.src), obs=conf.observation(r, c.lines)) for c, o, r in progs], fuel, chunk)
    for (c, o, r), v in zip(progs, vs):
        res.append((c, o, r) + tuple(v))
    return res


def unending(c, fuel):
    """whether a session which does not end (or runs out of memory) does not end in the specification either: the entries before are
    recorded, and the one after is judged as if it had shown nothing"""
    lines = c.src.split('\n')

    def run(k):
        return conf.run_impl([dict(kind='repl', lines=lines[:k])], ms=4000)[0]
    lo, hi, best = 0, len(lines), None
    while hi - lo > 1:
        k = (lo + hi) // 2
        r = run(k)
        if 'steps' in r:
            lo, best = k, r
        else:
            hi = k
    best = best or run(0)
    if 'steps' not in best:
        return None
    r = dict(best, prompt='>>> ', steps=best['steps'] + [dict(out='', prompt=best['prompt'], res='ok')])
    try:
        v = conf.judge([conf.session(r, lines[:hi])], fuel, 1000, module='CordyRepl')[0]
    except RecursionError:
        return None
    return tuple(v) if v[0] == 'fuel' else None


def decide_sessions(cases, fuel=60000):
    """the same for interactive sessions"""
    jobs = [dict(kind='repl', lines=c.src.split('\n')) for c in cases]
    rs = conf.run_impl(jobs)
    slow = [k for k, r in enumerate(rs) if r['st'] in ('hang', 'crash')]
    for k, r in zip(slow[:24], conf.run_impl([jobs[k] for k in slow[:24]], ms=6000, jobs=4) if slow else ()):
        rs[k] = r
    res, progs, live = [], [], []
    for c, j, r in zip(cases, jobs, rs):
        if 'steps' not in r:
            res.append((c, [False], r) + (unending(c, fuel) or ('status', 'the session ends with ' + r['st'], 0)))
            continue
        try:
            progs.append(conf.session(r, j['lines']))
            live.append((c, r))
        except RecursionError as e:
            res.append((c, None, None, 'front', repr(e), 0))
    for (c, r), v in zip(live, conf.judge(progs, fuel, 1000, module='CordyRepl')):
        res.append((c, [False], r) + tuple(v))
    return res


def decide_shown(cases, fuel=60000):
    """the same for texts which are highlighted: src after stdin; links: the classes left out by the interpreter, if it is asked"""
    rs = conf.run_impl([dict(kind='format', src=c.src, prefix=c.stdin) for c in cases])
    ask = [i for i, c in enumerate(cases) if c.links is not None]
    pages = dict(zip(ask, conf.run_cli([dict(src=cases[i].src, opt=False, stdin='', args=[], flags=['-f', '--format-no-style'] + (['--format-no=' + ','.join(cases[i].links)] if cases[i].links else [])) for i in ask]))) if ask else {}
    res, progs, live = [], [], []
    for i, (c, r) in enumerate(zip(cases, rs)):
        page = pages.get(i, dict(st='exit', out=''))
        if r['st'] != 'ok' or page['st'] != 'exit':
            res.append((c, [False], r, 'status', 'the highlighter ends with ' + (r['st'] if r['st'] != 'ok' else 'an error: ' + page['error']), 0))
            continue
        progs.append(dict(prefix=c.stdin, input=c.src, events=r['events'], blocked=r['blocked'], html=page['out'], no=[x.capitalize() for x in c.links or ()], errors=r['errors'], text=cordyfront.lines_of(c.stdin + c.src)))
        live.append((c, dict(r, html=page['out'])))
    for (c, r), v in zip(live, conf.judge(progs, fuel, 1000, module='CordyHighlight')):
        res.append((c, [False], r) + tuple(v))
    return res


def decide_parsed(cases, fuel=60000):
    """the grammar of the specification (CordyParse) says whether a text is a program, and which; if so says the tree which is used
    otherwise, the text is judged with it.  kind 'tree': it is run, 'parse': only compiled"""
    progs, live, res, out = [], [], [], []
    for c in cases:
        try:
            c.tree = cordyfront.translate(c.src)
            progs.append(dict(c.tree, src=c.src, whole=True))
            live.append(c)
        except cordyfront.IllError:     # a program of the grammar with a static error of its shape: only CordyTrace knows
            res.append(c)
        except cordyfront.FrontError:
            progs.append(dict(nodes=[], root=0, structs=[], src=c.src, whole=False))
            live.append(c)
    for c, v in zip(live, conf.judge_once(progs, fuel, 1000, module='CordyGrammar')):
        if v[0] == 'ok':
            res.append(c)
        else:
            out.append((c, [False], dict(st='')) + tuple(v))
    for c in res:
        c.kind = 'run' if c.kind == 'tree' and c.tree else 'text'
    return out + decide(res, fuel)


DECIDERS = {'repl': decide_sessions, 'show': decide_shown, 'tree': decide_parsed, 'parse': decide_parsed}


def run_batch(ctx, cases, fuel=60000):
    known = {k['src']: k for k in ctx.known if 'src' in k}
    cases = [c for c in cases if c.src not in known]
    for c in cases:
        ctx.cases += 1
        ctx.distinct.add(hash((c.src, c.stdin)))
        ctx.families[c.family] = ctx.families.get(c.family, 0) + 1
    kinds = {}
    for c in cases:
        kinds.setdefault(DECIDERS.get(c.kind, decide), []).append(c)
    for c, o, r, kind, detail, steps in [x for f, cs in kinds.items() for x in f(cs, fuel)]:
        ctx.steps += steps
        if kind == 'front':
            ctx.rejected_front += 1
            ctx.notes.setdefault('front', []).append((detail, c.src[:300]))
            continue
        ctx.executions += len(o)
        if kind == 'ok':
            ctx.validated += len(o)
        elif kind in ('fuel', 'spec', 'tool'):
            ctx.inconclusive += 1
            ctx.notes.setdefault(kind, []).append((detail[:200], c.src[:1500]))
        else:
            ctx.violation('%s: %s' % (kind, detail),
                          dict(kind=c.kind, src=c.src, stdin=c.stdin, args=c.args, lines=c.lines, links=c.links, optimised=o, recorded={k: r.get(k) for k in ('st', 'out', 'error', 'ffi', 'errors', 'msg', 'steps', 'events', 'html')},
                               verdict=kind, detail=detail, family=c.family))
            if len(ctx.violations) >= 3:
                return
    if cases and len(ctx.samples) < 6:
        c = cases[len(cases) // 3]
        ctx.samples.append(dict(family=c.family, program=c.src[:600]))


def run_known(ctx):
    """re-runs the recorded findings of this property"""
    ks = [k for k in ctx.known if 'src' in k]
    cs = [Case(k['src'], k.get('stdin', ''), opts=(False,)) for k in ks]
    for k in ctx.known:
        if 'repeat' in k:       # a text too long to write out, which is not of the syntax
            ks.append(k)
            cs.append(Case(k['repeat'][0] * k['repeat'][1], opts=(False,), kind='text'))
            cs[-1].tree = dict(nodes=[['blk', 1, []]], root=1, structs=[], globals=[], syn=True)
    for k, (c, o, r, kind, detail, steps) in zip(ks, decide(cs)) if ks else []:
        if kind not in ('ok', 'fuel', 'front'):
            print('KNOWN-FINDING: property=%s %s' % (ctx.pid, k['what']))


def run_families(ctx, fams):
    """fams: list of (name, iterator of Case or str, batch size, fuel, share of the time)"""
    live = [[n, iter(it), size, fuel] for n, it, size, fuel in fams]
    while live and not ctx.violations:
        for f in list(live):
            if ctx.left() <= 0 or ctx.violations:
                return
            n, it, size, fuel = f
            part = []
            for c in itertools.islice(it, size):
                if isinstance(c, str):
                    c = Case(c)
                c.family = n
                part.append(c)
            if len(part) < size:
                live.remove(f)
            if part:
                run_batch(ctx, part, fuel)


def evidence(ctx, level, rule):
    cov = dict(states=conf.STATS.distinct, transitions=conf.STATS.states, traces_validated_against_impl=ctx.validated,
               machine_steps=ctx.steps, tlc_runs=conf.STATS.runs, evaluations=ctx.executions, distinct_nontrivial=len(ctx.distinct), rule=rule,
               families=ctx.families, inconclusive=ctx.inconclusive, outside_the_specified_syntax=ctx.rejected_front,
               samples=ctx.samples or ['none'], **ctx.extra)
    e = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, wall_s=round(time.time() - ctx.t0, 1))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
    return e


def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import families
    ctx = Ctx(pid, tier, seed)
    try:
        conf.binary()
        ctx.t0 = time.time()
        fam = families.REGISTRY[pid]
        fam.run(ctx)
        if not ctx.violations:
            run_known(ctx)
        e = evidence(ctx, fam.level, fam.rule)
    except ToolError as ex:
        print('TOOL ERROR: %s' % str(ex)[:3000])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    c = e['coverage']
    print('%s %s: %d programs, %d executions, %d validated, %d inconclusive, %d outside the specified syntax, %d machine steps, %d TLC states, %.0f s' % (
        pid, tier, ctx.cases, ctx.executions, ctx.validated, ctx.inconclusive, ctx.rejected_front, ctx.steps, c['states'], e['wall_s']))
    if os.environ.get('CHECK_NOTES'):
        for k, v in ctx.notes.items():
            for d, s in v[:int(os.environ['CHECK_NOTES'])]:
                print('--', k, d[:300], '\n' + s[:1000])
    return 1 if ctx.violations else 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if r.get('kind') not in ('run', 'text', 'repl', 'show', 'tree', 'parse'):
        print(json.dumps(r, indent=1, ensure_ascii=False)[:4000])
        return 0
    bad = 0
    for c, o, rec, kind, detail, steps in DECIDERS.get(r['kind'], decide)([Case(r['src'], r['stdin'], r['args'], r['lines'], links=r.get('links'), kind=r['kind'])]):
        print('optimised=%s recorded=%s %r %r verdict=%s %s' % (o, rec and rec['st'], rec and rec.get('out'), rec and rec.get('error'), kind, detail))
        bad |= kind not in ('ok', 'fuel', 'spec', 'tool')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
