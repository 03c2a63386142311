"""Families about native modules (C23): every call form, in process (recorded) and through real libraries."""
import itertools, random
from check import Case
from families import Property, forever, shuffled

NAMES = ['fail', 'count', 'sum', 'last', 'nothing', 'pack']


def params(r):
    """a parameter list and (required, total or None)"""
    req, opt, var = r.choice([0, 0, 1, 1, 2, 2, 3]), r.choice([0, 0, 0, 1, 2]), r.random() < .25
    ns = list('abcdefg')
    out = ns[:req]
    for q in ns[req:req + opt]:
        out.append(r.choice([q + '?', q + ' = ' + r.choice(['5', "'d'", 'nil', '1 + 2', '[1]', "print('d')", 'len([1, 2])', 'tick()'])]))
    if var:
        out.append('*' + ns[req + opt])
    return ', '.join(out), req, None if var else req + opt


def declare(r, mods, extra=()):
    src, sigs = '', {}
    for m in mods:
        fs = []
        for q in r.sample(NAMES, r.randint(2, 5)) + list(extra):
            p, lo, hi = params(r)
            fs.append('fn %s(%s)' % (q, p))
            sigs[m + '->' + q] = (lo, hi)
        r.shuffle(fs)
        src += 'native module %s {%s}\n' % (m, r.choice([' ', '\n  ']) + r.choice([' ', '\n  ', ' ']).join(fs) + ' ')
    return src, sigs


VALS = ['1', '-7', '0', 'true', 'nil', "'s'", "'é'", "''", '4611686018427387903', 'min(int)', '[1, 2]', '(3, 4)', 'x', 'l', '[nil, true]', '(1, [2, (3)])'[:-1] + ')', 't(2)', "'a' + 'b'", 'x + 1']
ODD = ['{1}', '{1: 2}', 'print', 'range(3)', '1i', '[{}]', 'int', 'fn(q) -> q', '(1, {2})']


def val(r, odd=.06):
    return r.choice(ODD) if r.random() < odd else r.choice(VALS)


def callexpr(r, sigs, odd, depth=1):
    f = r.choice(sorted(sigs))
    lo, hi = sigs[f]
    n = r.choice([lo, lo, hi if hi is not None else lo + 2, lo + 1, max(0, lo - 1)])
    if hi is not None and n > hi and r.random() < .8:
        n = hi
    a = [callexpr(r, sigs, odd, depth - 1) if depth and r.random() < .2 else val(r, odd) for _ in range(n)]
    k = r.random()
    A = ', '.join(a)
    if k < .4 or not a:
        return '%s(%s)' % (f, A)
    if k < .5:
        return '%s(...[%s])' % (f, A)
    if k < .6:
        i = r.randint(1, n)
        return '%s(%s)(%s)' % (f, ', '.join(a[:i]), ', '.join(a[i:]))
    if k < .68:
        return '(%s . %s)' % (a[0], f) if n == 1 else '(%s . %s(%s))' % (a[-1], f, ', '.join(a[:-1]))
    if k < .76:
        return '[%s] . map(%s)' % (A, f)
    if k < .82:
        return '[%s] . reduce(%s)' % (A, f)
    if k < .86:
        return 'memoize(%s)(%s)' % (f, A)
    if k < .9:
        return '(fn(g) -> g(%s))(%s)' % (A, f)
    if k < .94:
        return '[%s] . filter(%s)' % (A, f)
    if k < .97:
        return '(%s%s %s)' % (a[0], r.choice([' . [0] ==' if False else ' ==', ' !=']), '%s(%s)' % (f, A))
    return '%s(%s, ...[%s])' % (f, a[0], ', '.join(a[1:]))


PRE = "fn t(v) { print('t', v) ; v }\nfn tick() { kk += 1 ; kk }\nlet kk = 0, x = 3, l = [1, true]\n"


def statement(r, sigs, odd, n):
    e = callexpr(r, sigs, odd)
    k = r.randint(0, 13)
    if k < 4:
        return 'print(%s)\n' % e
    if k == 4:
        return 'if %s { %s } else { print(%s) }\n' % (r.choice(['true', 'false', 'x == 3', e]), e, callexpr(r, sigs, odd))
    if k == 5:
        return 'for i in %s { print(i, %s) }\n' % (r.choice(['range(2)', '[]', "'ab'"]), e)
    if k == 6:
        return 'let f%d = %s\nprint(f%d, f%d is function)\n' % (n, r.choice(sorted(sigs)), n, n)
    if k == 7:
        return 'fn g%d(a) { let q = %s\n print(q, a)\n q }\nprint(g%d(1), g%d(2))\n' % (n, e, n, n)
    if k == 8:
        return 'print(%s or %s, %s and %s)\n' % (r.choice(['nil', '1']), e, r.choice(['nil', '1']), callexpr(r, sigs, odd))
    if k == 9:
        return 'let c%d = %s\nprint(c%d)\nlet m%d = memoize(fn(*a) -> %s)\nprint(m%d(1), m%d(1), m%d(2))\n' % (n, e, n, n, callexpr(r, sigs, odd), n, n, n)
    if k == 10:
        return 'print([1, 2] . map(fn(v) -> %s))\n' % e
    if k == 11:
        return 'fn r%d(n) -> if n < 1 then %s else r%d(n - 1)\nprint(r%d(2))\n' % (n, e, n, n)
    if k == 12:
        return 'fn h%d() -> %s\n' % (n, e)      # never called
    return 'assert %s is any : %s\n' % (e, callexpr(r, sigs, odd))


def inproc(r):
    mods = r.choice([['m'], ['m', 'k'], ['k', 'm', 'n'], ['m', 'k']])
    src, sigs = declare(r, mods)
    return Case(PRE + src + ''.join(statement(r, sigs, .12, i) for i in range(r.randint(1, 6))))


def real(r):
    mods = r.choice([['m'], ['m', 'k'], ['k', 'm'], ['m', 'k', 'n']])
    src, sigs = declare(r, mods, ['zork'] if r.random() < .15 else [])
    return Case(PRE + src + ''.join(statement(r, sigs, .04, i) for i in range(r.randint(1, 6))), links=['m', 'k'] if r.random() < .9 else ['m'])


def forms(real):
    """every parameter list with every number of arguments and every way to give them"""
    def it(r, ctx):
        ps = ['', 'a', 'a, b', 'a, b, c', 'a?', 'a, b?', 'a?, b?', 'a = 5', 'a, b = 5', 'a = print(1), b = 2', '*a', 'a, *b', 'a, b?, *c', 'a = 1, *b']
        ways = ['%(f)s(%(a)s)', '%(f)s(...[%(a)s])', 'print(%(f)s(%(a)s))', 'let g = %(f)s\nprint(g(%(a)s))', '[%(a)s] . map(%(f)s) . print', '[%(a)s] . reduce(%(f)s) . print',
                'print((%(a)s,) . map(%(f)s))', 'memoize(%(f)s)(%(a)s) . print', 'fn w() -> %(f)s(%(a)s)\nprint(w())\nw()', 'print([3, 1, 2] . sort_by(%(f)s(%(a)s)))' if False else 'print(%(f)s(%(a)s)(9))']
        for p, w, n, q in shuffled(r, itertools.product(ps, ways, range(5), ['count', 'last', 'sum', 'fail', 'nothing'])):
            a = ', '.join(r.choice(VALS[:12]) for _ in range(n))
            if '(%(a)s,)' in w and n == 0 or 'reduce' in w and n == 0:
                continue
            yield Case(PRE + 'native module m { fn %s(%s) fn other(z) }\n' % (q, p) + w % dict(f='m->' + q, a=a) + "\nprint('end', m, m->%s, kk)\n" % q, links=['m'] if real else None)
    return it


def members(r):
    """modules with members of the same names: each call reaches its own"""
    mods = r.sample(['m', 'k', 'n', 'q'], r.randint(2, 4))
    out, fs = '', []
    for m in mods:
        ns = r.sample(NAMES, r.randint(1, 5))
        out += 'native module %s { %s }\n' % (m, ' '.join('fn %s(*a)' % n for n in ns))
        fs += ['%s->%s' % (m, n) for n in ns if n != 'fail']
    if not fs:
        return inproc(r)
    out += ''.join('print(%s(%s))\n' % (r.choice(fs), ', '.join(r.choice(VALS[:12]) for _ in range(r.randint(0, 3)))) for _ in range(r.randint(2, 6)))
    out += 'let fs = [%s]\nprint(fs . map(fn(f) -> f(1)))\nprint(fs[0] == %s, fs)\n' % (', '.join(r.choice(fs) for _ in range(3)), r.choice(fs))
    return Case(PRE + out)


Property('C23', 'a program is one set of native module declarations with calls of their functions; every call is logged by the foreign side; non-trivial when distinct',
         ('every parameter list, number of arguments and call form', forms(False), 1400),
         ('real libraries', forever(real), 120),
         ('random programs', forever(inproc), 800),
         ('every parameter list through a real library', forms(True), 120),
         ('modules with the same members', forever(members), 400))
