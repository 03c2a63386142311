"""Families about calls, patterns and structs (C04 - C06)."""
import itertools, random
import gen, values
from check import Case
from families import Property, forever, shuffled, mixed
from values import lit, STRS, PRE

# ---------------------------------------------------------------- C04
FUNS = '''fn k(x) { print('k', x) ; x }
fn f0() -> 'f0'
fn f1(a) -> [a]
fn f2(a, b) -> [a, b]
fn f3(a, b, c) -> [a, b, c]
fn d1(a, b = 70) -> [a, b]
fn d2(a?, b = 80) -> [a, b]
fn d3(a, b?, c = 90) -> [a, b, c]
fn v0(*a) -> [a]
fn v1(a, *b) -> [a, b]
fn v2(a, b, *c) -> [a, b, c]
fn dv(a, b = 60, *c) -> [a, b, c]
fn dd(a = k(51), b = k(52)) -> [a, b]
fn p1((a, b), c) -> [a, b, c]
fn t(x) { print('t', x) ; x }
struct S(x, y) { fn m(self, a, b) -> [x, y, a, b]
 fn s(a, b) -> [a, b]
 fn z(self) -> [x, y]
 fn w(self, *a) -> [x, a]
 fn q(self, a, b = 40) -> [x, a, b] }
struct T(x)
struct E()
module M { fn g(a, b) -> [a, b]
 fn h(a, *b) -> [a, b] }
let o = S(31, 32)
let l1 = fn(a) -> [a]
let l2 = fn(a, b) -> [a, b]
let l3 = fn(a, b, c) { return [a, b, c] }
let l0 = fn() -> 'l0'
let n = 0
let c2 = fn(a, b) { n += 1 ; [n, a, b] }
'''
CALLABLES = ['f0', 'f1', 'f2', 'f3', 'd1', 'd2', 'd3', 'v0', 'v1', 'v2', 'dv', 'dd', 'l0', 'l1', 'l2', 'l3', 'c2', 'S', 'T', 'E', 'o->m', 'o->z', 'o->w', 'o->q', 'S->s', 'S->m', 'S->z', 'M->g', 'M->h',
             '(+)', '(-)', '(*)', '(<)', '(+ 3)', '(3 <)', '(==)', '(not)', '(->x)', '(->y)', 'f3(91)', 'f3(91, 92)', 'v2(91)', 'd3(91)', 'o->m(91)', 'S(91)', 'f2(91)', 'p1',
             '(f1 . f1)', '(fn(q) -> f2)', 'f3(91)(92)', 'v1(91)', 'dv(91)', '[0]', '[1:]', '[5]', '5', 'nil', "'s'", 'true', '{1: 2}', 'o', 'range', 'list', 'set', 'vector',
             'min', 'max', 'sum', 'print', 'len', 'abs', 'repr', 'str', 'int', 'bool', 'gcd', 'enumerate', 'zip', 'push', 'insert', 'default', 'sort', 'reverse', 'map', 'memoize', 'memoize(f1)', 'heap',
             'in', '(in [1, 2])', '(is int)', 'typeof', 'find', 'push(91)', 'min(91)', 'map(f1)', 'gcd(90)', 'insert(0)', 'insert(0, 95)', 'reduce', 'filter((> 2))', 'list', 'join', "join(',')", "replace('a')", "replace('a', 'b')",
             'combinations', 'combinations(1)', 'group_by(2)', 'any', 'all((> 1))', '(/ 2)', '(12 /)', 'hex', 'ord', 'union', 'pop', 'l3(91, 92)', 'real', 'rational', 'permutations(2)', 'concat', 'flat_map(nil)', 'split', "split('a')", 'trim', 'index_of',  'argv', 'read_line', 'bin', 'counter', 'keys', 'values', 'sqrt', 'count_ones', 'clear', 'copy', 'peek', 'merge', 'pop_front', 'push_front(91)', 'remove(1)', 'to_lower', 'to_upper', 'search("a")', 'lcm(4)', 'min_by((-))', 'max_by(abs)', 'sort_by((-))', 'intersect({1})', 'difference({1})', 'imag', 'numer', 'denom', 'function', 'any', 'iterable']
CALLABLES = [c for c in CALLABLES if c not in ('in', 'merge', 'heap', 'search("a")', 'group_by(2)', 'int', '5')] + ['5 . fn(x) -> x', 'heap . len']
CALLABLES = list(dict.fromkeys(c for c in CALLABLES if ' . ' not in c or c[0] == '('))
ARGS = ['1', '2', '3', '4', '5', '6']
ARGKINDS = ['1', '2', '7', 't(8)', '[4, 5]', '[]', "'ab'", '(6, 7)', '{3}', 'nil', 'true', 'f1', '(+ 1)', 'o', 'range(3)', "'a'", '{1: 2}', '(-3)']


def form(r, f, args):
    """one way to apply f to args, in one or more calls"""
    if f[0] == '[':
        f = '(%s)' % f if False else f
    out = f
    i = 0
    n = len(args)
    first = True
    while i < n or first:
        m = r.choice([n - i, n - i, r.randint(0, n - i)]) if n - i > 0 else 0
        part = args[i:i + m]
        i += m
        k = r.random()
        if k < .12 and len(part) >= 1:
            # the first argument through composition
            out = '(%s . %s)' % (part[0], out + ('(%s)' % ', '.join(part[1:]) if len(part) > 1 else '')) if len(part) > 1 or True else out
            if len(part) > 1:
                # a . f(b) is f(b)(a)
                pass
        elif k < .3 and part:
            # some unrolled
            s = []
            j = 0
            while j < len(part):
                w = r.randint(1, len(part) - j)
                if r.random() < .5:
                    s.append('...' + r.choice(['[%s]', '[%s]', '(%s,)' if w == 1 else '(%s)', 'vector([%s])']) % ', '.join(part[j:j + w]))
                    j += w
                else:
                    s.append(part[j])
                    j += 1
                if r.random() < .15:
                    s.append('...[]')
            out = '%s(%s)' % (out, ', '.join(s))
        elif k < .36 and len(part) == 1 and part[0].isdigit():
            out = '%s %s' % (out, part[0]) if out[-1:] != ']' or True else out
        else:
            out = '%s(%s%s)' % (out, ', '.join(part), ',' if len(part) > 1 and r.random() < .08 else '')
        first = False
        if r.random() < .06:
            break
    return out


def calls(r):
    f = r.choice(CALLABLES)
    n = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5])
    args = r.sample(ARGS, n) if r.random() < .6 else [r.choice(ARGKINDS) for _ in range(n)]
    if r.random() < .3:
        args = ['t(%s)' % a if not a.startswith('t(') else a for a in args]
    e = form(r, f, args)
    k = r.random()
    body = 'print(%s)\n' % e
    if k < .15:
        body = 'let q = %s\nprint(q)\nprint(q(7))\n' % e
    elif k < .25:
        body = 'let q = %s\nprint(q)\nprint([9, 8] . map(q))\n' % form(r, f, args[:max(0, n - 1)])
    elif k < .3:
        body = 'fn u() { %s }\nprint(u())\n' % e
    elif k < .35:
        body = 'let q = %s\nlet w = q(1)\nprint(q(2), w, q(3, 4))\n' % form(r, f, args[:1])
    return FUNS + body


def apply_all(r, ctx):
    """every callable with every number of plain arguments, whole and split in two"""
    for f in shuffled(r, CALLABLES):
        for n in range(0, 6):
            a = ARGS[:n]
            yield Case(FUNS + 'print(%s(%s))\n' % (f, ', '.join(a)))
            yield Case(FUNS + 'print(%s(...[%s]))\n' % (f, ', '.join(a)))
            for m in range(1, n):
                yield Case(FUNS + 'print(%s(%s)(%s))\n' % (f, ', '.join(a[:m]), ', '.join(a[m:])))
            if n:
                yield Case(FUNS + 'print(%s . %s(%s))\n' % (a[-1], f, ', '.join(a[:-1])) if n > 1 else FUNS + 'print(%s . %s)\n' % (a[0], f))
            for kind in ("'ab'", '[4, 5]', 'nil', '(2, 3)'):
                if n:
                    yield Case(FUNS + 'print(%s(%s))\n' % (f, ', '.join(a[:-1] + [kind])))
        yield Case(FUNS + 'print(%s)\nprint(%s == %s)\n' % (f, f, f) if 'memo' not in f and '(' not in f else FUNS + 'print(%s)\n' % f)


def params(r):
    """random parameter lists called with random argument lists"""
    req, opt, var = r.randint(0, 3), r.randint(0, 2), r.random() < .4
    names = ['a%d' % i for i in range(req + opt + 1)]
    ps = []
    used = []
    for i in range(req):
        if r.random() < .15:
            ps.append('(%s, %sx)' % (names[i], names[i]))
            used += [names[i], names[i] + 'x']
        else:
            ps.append(names[i])
            used.append(names[i])
    for i in range(req, req + opt):
        ps.append(names[i] + r.choice(['?', ' = %d' % (100 + i), ' = t(%d)' % (200 + i), ' = [%d]' % i]))
        used.append(names[i])
    if var:
        ps.append('*' + names[-1])
        used.append(names[-1])
    n = r.randint(0, req + opt + 2)
    args = [('(%d, %d)' % (i, 50 + i) if i < req and ps[i][0] == '(' else str(i)) for i in range(n)]
    args = ['t(%s)' % a if r.random() < .3 else a for a in args]
    body = '[%s]' % ', '.join(used)
    kind = r.randint(0, 3)
    if kind == 0:
        d, f = 'let g = fn(%s) -> %s\n' % (', '.join(ps), body), 'g'
    elif kind == 1:
        d, f = 'struct Z(zz) {\n fn g(%s) -> %s\n}\n' % (', '.join(['self'] + ps), body), 'Z(0)->g'
    elif kind == 2:
        d, f = 'module Z {\n fn g(%s) -> %s\n}\n' % (', '.join(ps), body), 'Z->g'
    else:
        d, f = 'fn g(%s) { %s }\n' % (', '.join(ps), body), 'g'
    return 'fn t(x) { print(x) ; x }\n' + d + 'print(%s)\n' % form(r, f, args) + 'print(%s)\n' % f


Property('C04', 'a program is one callable applied in one way to one argument list; non-trivial when distinct',
         ('every callable with every number of arguments', apply_all, 1500),
         ('random arguments, splits and call forms', forever(calls), 1500),
         ('random parameter lists', forever(params), 1500))


# ---------------------------------------------------------------- C05
def pattern(r, d, names, top=True):
    """-> list of parts; each part is a name, '_', '*name', '*_', or a list"""
    n = r.choice([1, 2, 2, 3, 3, 4]) if not top else r.choice([1, 2, 2, 3, 4])
    out = []
    rest = False
    for _ in range(n):
        k = r.random()
        if k < .2 and not rest:
            rest = True
            out.append('*' + (names() if r.random() < .7 else '_'))
        elif k < .32:
            out.append('_')
        elif k < .5 and d > 0:
            out.append(pattern(r, d - 1, names, False))
        else:
            out.append(names())
    return out


def ptext(p):
    return ', '.join(x if isinstance(x, str) else '(%s%s)' % (ptext(x), '') for x in p)


def flat(p):
    out = []
    for x in p:
        if isinstance(x, list):
            out += flat(x)
        elif x.strip('*') not in ('_', ''):
            out.append(x.lstrip('*'))
    return out


COUNT = [0]


def matching(r, p, wrong):
    """an expression whose value fits p, or nearly"""
    parts = []
    for x in p:
        if isinstance(x, list):
            parts.append(matching(r, x, wrong))
        elif x[0] == '*':
            parts += [str(r.randint(0, 99)) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        else:
            parts.append(r.choice([str(r.randint(0, 99)), str(r.randint(0, 99)), 't(%d)' % r.randint(0, 99), "'ab'", 'nil', '[1, 2]']))
    if r.random() < wrong:
        k = r.randint(0, 4)
        if k == 0:
            parts.append('77')
        elif k == 1 and parts:
            parts.pop()
        elif k == 2:
            return r.choice(['5', 'nil', "''", "'a'", "'ab'", "'xyz'", '[]', 'range(2)', 'range(3)', '{1, 2}', '{0: 1}', '{1: 2, 0: 3}', 'f', 'heap([1])', 'true', 'S(1, 2)', 'enumerate([4])', "'éb'"])
    n = len(parts)
    k = r.randint(0, 9)
    if k < 4 or n == 0:
        return '[%s]' % ', '.join(parts)
    if k < 8:
        return '(%s%s)' % (', '.join(parts), ',' if n == 1 else '')
    return 'vector([%s])' % ', '.join(parts)


def some(f):
    def g(r):
        while True:
            x = f(r)
            if x is not None:
                return x
    return g


def patterns(r):
    n = [0]

    def names():
        n[0] += 1
        return 'v%d' % n[0]
    p = pattern(r, 2, names)
    if len(p) == 1 and p[0][0] == '*':
        return None
    vs = flat(p)
    v = matching(r, p, .12)
    show = 'print(%s)\n' % ', '.join(["'is'"] + vs)
    pre = 'struct S(x, y)\nfn t(x) { print(x) ; x }\nfn f() -> 1\n'
    k = r.randint(0, 6)
    if not vs:
        return None
    if k == 0:
        return pre + 'let %s = %s\n' % (ptext(p), v) + show
    if k == 1:
        return pre + 'fn g() {\n let %s = %s\n %s}\ng()\n' % (ptext(p), v, show)
    if k == 2:
        return pre + 'for %s in [%s, %s] {\n %s}\n' % (ptext(p), v, matching(r, p, .1), show)
    if k == 3:
        # as parameters: the pattern is the list of parameters
        star = [x for x in p[:-1] if isinstance(x, str) and x[0] == '*']
        if star:
            p = [p]
        q = [x if isinstance(x, str) and x != '_' and x != '*_' else x for x in p]
        return pre + 'let g = fn(%s) { %s }\ng(...%s)\n' % (ptext(q), show.strip(), v if q is p and not star else '[%s]' % v)
    if k == 4:
        return pre + 'fn g((%s), z) { %s }\ng(%s, 1)\n' % (ptext(p), show.strip(), v)
    # assignment to existing variables, indices and fields: nested patterns have no rest there, and a
    # statement does not start with one
    def plain(q, top):
        return [plain(x, False) if isinstance(x, list) else x if top and i > 0 else x.lstrip('*') for i, x in enumerate(q)]
    q = plain(p, True)
    if q == p or r.random() < .8:
        p = q
        vs = flat(p)
        v = matching(r, p, .12)
        show = 'print(%s)\n' % ', '.join(["'is'"] + vs)
    if q != p or len(p) == 1 and not (isinstance(p[0], str) and p[0] in vs):
        return None
    targets = {}
    decl = 'let l = [10, 11, 12], o = S(1, 2), d = {0: 5}\n'
    loc = r.random() < .5
    for x in vs:
        kk = r.randint(0, 5)
        targets[x] = x if kk < 3 else r.choice(['l[0]', 'l[t(1)]', 'l[-1]', 'o->x', 'o->y', 't(o)->x', 'd[0]', "d['k']", 'l[t(9)]' if r.random() < .2 else 'l[2]', 't(l)[1]'])
    star = {x.lstrip('*') for x in stars(p)}
    for x in star:
        targets[x] = x
    if vs:
        decl += 'let %s\n' % ', '.join(vs)

    def sub(p):
        return ', '.join(('(%s)' % sub(x)) if isinstance(x, list) else x if x in ('_', '*_') else ('*' if x[0] == '*' else '') + targets[x.lstrip('*')] for x in p)
    st = '%s = %s' % (sub(p), v)
    if st[0] in '*(':
        st = ';' + st if False else 'print(%s)' % st if False else st
    fin = 'print(%s)\n' % ', '.join(['l', 'o', 'd'] + vs)
    if len(p) == 1 and isinstance(p[0], str) and p[0][0] != '*':
        fin = fin
    body = decl + (';\n' if True else '') + st + '\n' + fin
    if loc:
        cap = 'let cc = fn() -> [%s]\n' % ', '.join(vs) if vs and r.random() < .4 else ''
        return pre + 'fn g() {\n%s%s\n%s%s%s}\ng()\n' % (decl, ';', cap, st + '\n', fin + ('print(cc())\n' if cap else ''))
    return pre + body


def stars(p):
    out = []
    for x in p:
        if isinstance(x, list):
            out += stars(x)
        elif x[0] == '*' and x != '*_':
            out.append(x)
    return out


OPS = ['+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '&=', '|=', '^=', 'max=', 'min=', '.=']


def compound(r):
    """compound assignments on every kind of target, with side effects in target and value"""
    pre = 'struct S(x, y) {\n fn up(self, v) { x = v ; [x, y] }\n fn add(self, v) { x += v ; y .= (+ v) ; self }\n}\nfn t(k, x) { print(k) ; x }\n'
    body = 'let a = 5, b = 7, l = [1, 2, 3], m = [[1], [2]], o = S(8, [9]), d = {"k": 3, 0: 1}, s = "x"\n'
    n = [0]

    def num():
        n[0] += 1
        return n[0]

    def target():
        return r.choice(['a', 'b', 'l[0]', 'l[-1]', 'l[t(%d, 1)]' % num(), 't(%d, l)[t(%d, 2)]' % (num(), num()), 'o->x', 't(%d, o)->x' % num(), 'd["k"]', 'd[t(%d, 0)]' % num(), 'm[1][0]', 'o->y[0]', 'm[t(%d, 0)]' % num(), 's', 'o->y', 'l[5]', 'd["no"]', 'a'])

    def value(d=1):
        k = r.random()
        if k < .5:
            return r.choice(['2', '3', 't(%d, 4)' % num(), 'a', 'l[0]', 'b + 1', 'o->x'])
        if k < .65 and d:
            return '(%s %s %s)' % (target(), r.choice(['=', '=', '+=', '-=', 'max=']), value(0))
        if k < .75:
            return r.choice(["'z'", '[4]', 'nil', 'true', '(1, 2)', 'l', '-1', '0'])
        return '%d' % r.randint(0, 6)
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < .55:
            op = r.choice(OPS)
            v = value() if op != '.=' else r.choice(['(+ 1)', 'fn(q) -> q * 2', 'abs', 't(%d, (- 1))' % num() if False else '(* 3)', 'str', 'len', 't(%d)' % num()])
            st = '%s %s %s' % (target(), op, v)
        elif k < .75:
            st = '%s = %s' % (target(), value())
        elif k < .85:
            st = '%s = %s = %s' % (target(), target(), value())
        elif k < .92:
            st = r.choice(['o->up(%s)' % value(), 'o->add(2)', 'S(1, 2)->add(3)->y', 'a, b = b, a', 'l[0], l[1] = l[1], l[0]', 'a, l[a %% 3] = (1, 9)' .replace('%%', '%'), 'l[0], a = (a, l[0])'])
        else:
            st = '%s += %s -= %s' % (target(), target(), value())
        body += r.choice(['%s\n', '%s\n', 'print(%s)\n' if ',' not in st.split('=')[0] or '(' in st else '%s\n', 'let z%d = [%%s]\nprint(z%d)\n' % (num(), n[0]) if ', ' not in st.split('=')[0] else '%s\n']) % st
        body += 'print(a, b, l, m, o, d, s)\n'
    if r.random() < .4:
        body = 'fn main() {\n%s}\nmain()\n' % body
    elif r.random() < .3:
        body = 'fn main() {\n' + body.split('\n', 1)[0] + '\nlet run = fn() {\n%s}\nrun()\nprint(a, b, l, m, o, d, s)\n}\nmain()\n' % body.split('\n', 1)[1]
    return pre + body


Property('C05', 'a program is one pattern with values for it, or a few compound assignments; non-trivial when distinct',
         ('patterns in declarations, loops, parameters, assignments', forever(some(patterns)), 1500),
         ('assignments to every kind of target', forever(compound), 1000),
         ('random programs with many assignments', mixed(dict(patlet=6, patasg=6, idxasg=6, opassign=8, asgexpr=5, size=20)), 300))


# ---------------------------------------------------------------- C06
def structs(r):
    """several struct types and modules which share field and method names; a history of uses"""
    FN = ['x', 'y', 'z', 'w']
    MN = ['m', 'n', 'get', 'set']
    n = [0]

    def num():
        n[0] += 1
        return n[0]
    types = {}
    out = ''
    count = r.randint(2, 4)
    order = ['A', 'B', 'C', 'D'][:count]
    mods = {t: r.random() < .2 for t in order}
    fields = {t: [] if mods[t] else r.sample(FN, r.randint(0, 3)) for t in order}
    known = [f for f in FN if any(f in fs for fs in fields.values())]     # other names do not compile
    if not known:
        mods['A'], fields['A'], known = False, ['x', 'y'], ['x', 'y']
    FN = known
    for t in order:
        mod = mods[t]
        fs = fields[t]
        ms = {}
        body = ''
        for m in r.sample(MN, r.randint(0, 3)):
            inst = not mod and r.random() < .75
            par = r.sample(['p', 'q'], r.randint(0, 2))
            ms[m] = (inst, len(par))
        for m, (inst, np) in ms.items():
            par = ['p', 'q'][:np]
            see = (fs if inst else []) + par
            e = []
            for _ in range(r.randint(1, 3)):
                k = r.random()
                if inst and fs and k < .25:
                    e.append('%s = %s' % (r.choice(fs), r.choice(see)))
                elif inst and fs and k < .4:
                    e.append('%s += %d' % (r.choice(fs), num()))
                elif inst and k < .5:
                    f = r.choice(FN)
                    e.append('self->%s = %d' % (f, num()))
                elif inst and k < .6:
                    e.append('print(self->%s)' % r.choice(FN))
                elif inst and fs and k < .7:
                    e.append('let cl%d = fn() { %s += 1 ; %s } ; cl%d() ; print(cl%d())' % (num(), fs[0], fs[0], n[0], n[0]))
                elif k < .8:
                    others = [(o, oi, onp) for o, (oi, onp) in ms.items() if o > m and (inst or not oi)]
                    if others:
                        o, oi, onp = r.choice(others)
                        e.append('print(%s(%s))' % (o, ', '.join(str(num()) for _ in range(onp))))
                    else:
                        e.append('print(%s)' % ', '.join(["'%s%s'" % (t, m)] + see))
                else:
                    e.append('print(%s)' % ', '.join(["'%s%s'" % (t, m)] + see))
            e.append(r.choice(see) if see else str(num()))
            if inst and r.random() < .3:
                e[-1] = 'self'
            body += ' fn %s(%s) { %s }\n' % (m, ', '.join((['self'] if inst else []) + par), ' ; '.join(e))
        types[t] = (mod, fs, ms)
        out += ('module %s {\n%s}\n' % (t, body)) if mod else ('struct %s(%s)%s\n' % (t, ', '.join(fs), ' {\n%s}' % body if ms else ''))
    sts = [t for t in order if not types[t][0]]
    vs = []
    for i in range(r.randint(1, 4)):
        if not sts:
            break
        t = r.choice(sts)
        nf = len(types[t][1])
        v = 'o%d' % i
        vs.append(v)
        out += 'let %s = %s(%s)\n' % (v, t, ', '.join(r.choice([str(num()), '[%d]' % num()] + vs[:-1]) for _ in range(nf)))

    def recv():
        return r.choice(vs) if vs and r.random() < .85 else r.choice(order + ['5', 'nil', '[1]', "'s'", 'f', '{1: 2}'])
    allm = sorted({(m, np) for t in order for m, (i, np) in types[t][2].items()})
    allf = sorted({f for t in order for f in types[t][1]})
    fail = r.random() < .35

    def pick(kind):
        """a receiver expression which has (or, when failing is wanted, may not have) the member"""
        v = r.choice(vs)
        return v
    # the static type of each variable is known: values never move between them except by alias statements
    ty = {}
    for l in out.split('\n'):
        if l.startswith('let o'):
            ty[l.split()[1]] = l.split('= ')[1].split('(')[0]
    for _ in range(r.randint(3, 9)):
        k = r.random()
        if not vs:
            out += 'print(%s)\n' % ', '.join(order)
            continue
        v = r.choice(vs)
        mod, fs, ms = types[ty[v]]
        f = r.choice(fs) if fs and not (fail and r.random() < .25) else r.choice(FN) if fail and allf else None
        if f is not None and f not in allf:
            f = r.choice(allf) if fail and allf else None
        if k < .2 and f:
            out += 'print(%s->%s)\n' % (v, f)
        elif k < .35 and f:
            out += '%s->%s = %s\n' % (v, f, r.choice([str(num()), '(%s->%s = %d)' % (v, f, num()), 'nil']))
        elif k < .42 and f:
            out += "%s->%s = %d\nprint(%s->%s += %d)\n" % (v, f, num(), v, f, num())
        elif k < .6 and ms:
            m, (inst, np) = r.choice(list(ms.items()))
            args = ', '.join(str(num()) for _ in range(np))
            if inst:
                out += r.choice(['print(%s->%s(%s))\n' % (v, m, args), 'let g%d = %s->%s\nprint(g%d(%s))\n' % (num(), v, m, n[0], args), 'print(%s->%s)\n' % (v, m)])
            else:
                out += 'print(%s->%s(%s))\n' % (ty[v], m, args)
        elif k < .66:
            out += 'print([%s] . map(fn(u) -> [%s]))\n' % (', '.join(vs), ', '.join('u is ' + t for t in order if not types[t][0]))
        elif k < .72 and f:
            out += 'print([%s] . filter(is %s) . map(->%s))\n' % (', '.join(vs), ty[v], f) if f in fs else 'print(%s)\n' % v
        elif k < .8:
            w = r.choice(vs)
            out += 'print(%s == %s, %s < %s, {%s: 1}[%s])\n' % (v, w, v, w, v, v)
        elif k < .86:
            w = r.choice([x for x in vs if ty[x] == ty[v]])
            out += '%s = %s\n' % (v, r.choice([w, 'copy %s' % w if False else w]))
        elif k < .9:
            out += 'print(%s, typeof(%s), %s)\n' % (v, v, ty[v])
        elif k < .94 and fail:
            out += 'print(%s->%s)\n' % (recv(), r.choice([m for m, _ in allm] + allf) if allm or allf else 'x') if allm or allf else ''
        elif k < .97 and fail:
            out += 'print(%s is %s)\n' % (recv(), recv())
        else:
            out += 'print(%s)\n' % ', '.join(vs)
    out += 'print(%s)\n' % ', '.join(vs + order)
    return 'fn f() -> 1\n' + out


Property('C06', 'a program is a history of uses of several struct types and modules sharing names; non-trivial when distinct',
         ('struct and module histories', forever(structs), 1500))
