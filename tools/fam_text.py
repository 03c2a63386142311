"""Families about text, numbers, notation, input/output and assertions (C14, C15, C21, C22, C26, C27)."""
import itertools, random
import gen, values
from check import Case
from families import Property, forever, shuffled, mixed
from values import lit, STRS, INTS, BIG, PRE

TEXTS = STRS + ['aXbXc', 'XX', 'aaa', 'ABC def', ' \\t x ', '%', '%d', '100%', 'a.b', 'a+b', '(x)', 'line one', 'ß', 'straße', 'É', 'a漢a漢', '\\n', 'x\\ny', '😀😀', "it"]


def q(s):
    return "'%s'" % s


def text(r):
    if r.random() < .7:
        return r.choice(TEXTS)
    return ''.join(r.choice(['a', 'b', 'A', ' ', '1', 'é', '漢', ',', 'X', 'z', '-']) for _ in range(r.randint(0, 12)))


# ---------------------------------------------------------------- C14
PLAIN = ['a', 'b', 'X', ',', ' ', 'ab', 'aa', 'é', '漢', '😀', '1', 'zzz', 'o w', 'A', '']
STR1 = ['to_upper', 'to_lower', 'trim', 'len', 'ord', 'int', 'str', 'repr', 'bool', 'reverse', 'list', 'set', 'sort', 'vector', 'hex', 'bin', 'char', 'enumerate', 'max', 'min', 'sum', 'typeof', 'copy', 'concat', 'counter']


def strings_all(r, ctx):
    """every string function of one argument on every string"""
    for f, s in shuffled(r, itertools.product(STR1, TEXTS + ['15', '-7', '+3', '0x1f', '1_000', ' 5', '5 ', '00012', '4.5', '9' * 25, '-0', 'ff', '1010', '-ff', '0b11', 'é1', '4611686018427387903', '-4611686018427387904'])):
        if f in ('int', 'hex', 'bin') and s in ('9' * 25,):
            continue
        yield Case('print(%s(%s))\n' % (f, q(s)))
    for f in STR1:
        for v in values.UNIVERSE[:8] + ['[1]', 'print', '(1, 2)', 'range(3)', '[]']:
            if f not in ('list', 'set', 'vector', 'sum', 'char'):
                yield Case('print(%s(%s))\n' % (f, v))


def string_ops(r):
    a, b, c = text(r), text(r), r.choice(PLAIN)
    k = r.randint(0, 20)
    n = r.choice(['0', '1', '2', '3', '5', '-1'])
    if k == 0:
        e = '%s . split(%s)' % (q(a), q(c))
    elif k == 1:
        e = '%s . join(%s)' % (r.choice(['[%s]' % ', '.join(q(text(r)) for _ in range(r.randint(0, 4))), '[1, nil, [2]]', q(a), 'range(4)', '{1, 2}', '5']), 'nil' if False else q(b)) if False else 'join(%s, %s)' % (q(b), r.choice(['[%s]' % ', '.join(q(text(r)) for _ in range(r.randint(0, 4))), '[1, nil, [2]]', q(a), 'range(4)', '{1, 2}', '5']))
    elif k == 2:
        e = '%s . replace(%s, %s)' % (q(a), q(r.choice([x for x in PLAIN if x])), q(text(r).replace('$', '')))
    elif k == 3:
        e = '%s . replace(%s, fn(x) { print(x) ; %s })' % (q(a), q(r.choice([x for x in PLAIN if x])), r.choice(["'<' + str(x) + '>'", "'y'", "x . str . to_upper", '5', 'nil + 1']))
    elif k == 4:
        e = '%s + %s' % (q(a), r.choice([q(b), '1', 'nil', '[1]', 'true', '(1, 2)']))
    elif k == 5:
        e = '%s * %s' % (r.choice([(q(a), n), (n, q(a))])) if False else ('%s * %s' % (q(a), n) if r.random() < .5 else '%s * %s' % (n, q(a)))
    elif k == 6:
        e = '%s in %s' % (q(r.choice(PLAIN)), q(a))
    elif k == 7:
        e = '[%s, %s, %s . sort] . sort' % (q(a), q(b), q(c)) if False else '(%s < %s, %s == %s, %s >= %s)' % (q(a), q(b), q(a), q(b), q(a), q(c))
    elif k == 8:
        e = 'char(%s)' % r.choice(['32', '65', '97', '126', '233', '0x6f22', '0x1f600', '-1', '0x110000', '0xd800', '57343', "'a'", 'nil', '48'])
    elif k == 9:
        e = 'ord(%s)' % q(r.choice(['a', 'é', '漢', '😀', '', 'ab', 'é漢', '~', ' ']))
    elif k == 10:
        e = 'char(ord(%s)) == %s' % (q(r.choice('abzéñ漢😀 ~')), q(r.choice('abzéñ漢😀 ~')))
    elif k == 11:
        e = '[hex(%s), bin(%s)]' % (lit(r.choice(INTS + BIG) * r.choice([1, -1])), lit(r.choice(INTS + BIG)))
    elif k == 12:
        w = r.choice(['ff', '10', '-a', '0', 'FF', '1f', '7fffffff', 'zz', '', '101', '-101', 'abcdef'])
        e = r.choice(['hex(%s)', 'bin(%s)', 'int(%s)']) % q(w)
    elif k == 13:
        e = 'int(%s, %s)' % (q(r.choice(['5', 'x', '', '-8', '3.5', ' 7', '0x1f'])), r.choice(['nil', '-1', "'d'", '[]']))
    elif k == 14:
        e = '%s . split(%s) . join(%s)' % (q(a), q(r.choice([x for x in PLAIN if x])), q(b))
        e = 'join(%s, %s . split(%s))' % (q(b), q(a), q(r.choice([x for x in PLAIN if x])))
    elif k == 15:
        e = '[%s . to_upper . to_lower, %s . to_lower . to_upper, %s . trim . len]' % (q(a), q(a), q(a))
    elif k == 16:
        e = '%s[%s]' % (q(a), r.choice(['0', '-1', '1:', ':2', '::-1', '1:3', '9', '-9', '::2']))
    elif k == 17:
        e = '%s . map(ord) . map(char) . concat' % q(a) if False else "join('', %s . map(ord) . map(char)) == %s" % (q(a), q(a))
    elif k == 18:
        e = 'str(%s) + repr(%s)' % (q(a), q(a))
    elif k == 19:
        e = '%s . %s(%s)' % (r.choice(['5', 'nil', '[1]', 'print']), r.choice(['split', 'join', 'trim', 'to_upper', 'find', 'replace(%s)' % q('a')]), q(c)) if False else r.choice(['split', 'join', 'search']) + '(%s, %s)' % (r.choice(['5', q('a'), 'nil', '[]']), r.choice(['5', 'nil', '[1, 2]', '(1, 2)', 'print']))
    else:
        e = 'search(%s, %s)' % (q(r.choice([x for x in PLAIN if x])), q(a))
    return 'print(%s)\n' % e


FSPECS = ['%d', '%x', '%b', '%s', '%%', '%5d', '%05d', '%3x', '%03x', '%8b', '%08b', '%5s', '%05s', '%1d', '%10s', '%010d', '%2s']
FBAD = ['%', '%q', '%0', '%5', '%00d', '%-5d', '%é', '% d', '%5%', '%.2d', '%0x1', '%5é']
FARGS = ['0', '1', '-1', '42', '255', '-255', 'true', 'false', "'s'", "'é漢'", 'nil', '[1, 2]', '(3, 4)', 'max(int)', 'min(int)', "''", '{1: 2}', 'rational(1, 2)', '(1 + 2i)', 'print', 'P(1, 2)', "'long enough text'", '123456']


def formats_all(r, ctx):
    for s, a in shuffled(r, itertools.product(FSPECS + FBAD, FARGS)):
        yield Case(PRE + "print('<%s>' %% %s)\n" % (s, a))
        if r.random() < .4:
            yield Case(PRE + "print('<%s>' %% vector([%s]))\n" % (s, a))


def formats(r):
    n = r.randint(0, 4)
    s = ''
    want = 0
    for _ in range(n):
        sp = r.choice(FSPECS) if r.random() < .93 else r.choice(FBAD)
        want += sp != '%%'
        s += r.choice(['', 'a', ' ', '=', 'é', ', ']) + sp
    s += r.choice(['', '', '!', ' end'])
    args = [r.choice(FARGS) if r.random() < .5 else str(r.randint(-99, 999)) for _ in range(max(0, want + r.choice([0, 0, 0, 0, 1, -1])))]
    k = r.random()
    if len(args) == 1 and k < .5:
        a = args[0]
    elif len(args) < 2 or k < .3:
        a = 'vector([%s])' % ', '.join(args)
    else:
        a = '(%s)' % ', '.join(args)
    return PRE + r.choice(["print('%s' %% %s)\n", "let f = '%s'\nprint(f %% %s)\n", "let f = ('%s' %%)\nprint(f(%s))\n"]) % (s, a)


Property('C14', 'a program is one string operation or one format with its arguments; non-trivial when distinct',
         ('every format with every argument', formats_all, 1000),
         ('every string function on every string', strings_all, 1500),
         ('random string operations', forever(string_ops), 2000),
         ('random formats', forever(formats), 2000))

# ---------------------------------------------------------------- C15
NUMS = ['0', '1', '-1', '2', '3', '-7', '6', 'true', 'false', '(1 + 1i)', '(0 + 1i)', '(2 - 3i)', '((-1) + 0i)', '(0 - 2i)', '(5 + 12i)', 'rational(1, 2)', 'rational(-1, 3)', 'rational(4, 2)', 'rational(0)', 'rational(7, 4)', 'rational(-5)', 'max(int)', 'min(int)', 'rational(10 ** 18, 3)', 'rational(max(int), min(int))', '2i', '(3 + 4i)', 'rational(1)']
NOPS = ['+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&', '|', '^', '<<', '>>', 'and', 'or', 'in', 'is', 'is not']
OTHERS = ["'a'", 'nil', '[1]', '(1, 2)', 'print', '{1}', '((1 + 1i), 2)']


def number_pairs(r, ctx):
    ops = [o for o in NOPS if 'i' not in o or o == 'in'][:17]
    ps = [(a, o, b) for a in NUMS for o in ops for b in NUMS] + [(a, o, b) for a in NUMS for o in ops for b in OTHERS] + [(b, o, a) for a in NUMS for o in ops for b in OTHERS]
    r.shuffle(ps)
    for i in range(0, len(ps)):
        a, o, b = ps[i]
        huge, cplx = ('max' in a + b or 'min' in a + b or '10 **' in a + b), ('i)' in (a + b).replace('min(int)', '').replace('max(int)', '') or '2i' in (a, b))
        if o == '*' and ('max' in a + b or '10 **' in a + b) and any(x in (a, b) for x in OTHERS):
            continue        # an enormous text
        if o in ('<<', '>>') and False:
            continue
        if huge and cplx and o in ('+', '-', '*', '/', '%', '**'):
            continue        # complex components are 64-bit
        if o == '**' and 'rational(max' in a + b:
            continue        # too slow to specify
        if o == '**' and '[' in b and any(q in a for q in ('max', 'min', '10 ** 18', '46116')):
            continue
        if o == '**' and ('max' in b or 'min' in b or '10 ** 18' in b) and not (a.lstrip('-').isdigit() or a in ('true', 'false')):
            continue
        yield Case('print(%s %s %s)\n' % ('(%s)' % a if a[0] == '-' else a, o, '(%s)' % b if b[0] == '-' else b))
    for a in NUMS:
        for f in ('real', 'imag', 'numer', 'denom', 'abs', 'int', 'bool', 'str', 'repr', 'typeof', 'rational', 'sqrt', '-', '!', '~', 'hex', 'complex' if False else 'len', 'not '):
            yield Case('print(%s%s)\n' % (f, '(%s)' % a))


def num(r, big=False):
    k = r.random()
    if big:
        k = k / 2 if k < .7 else k / 2 + .5 if k > .85 else .75
    elif k >= .8:
        k = k - .5
    n = lambda hi=12: str(r.randint(-hi, hi)) if True else ''
    p = lambda x: '(%s)' % x if x[0] == '-' else x
    if k < .25:
        return p(n(30))
    if k < .5:
        return 'rational(%s, %s)' % (p(n(60)), p(str(r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, -1, -2, -3, 100, 0 if r.random() < .1 else 8]))))
    if k < .75:
        return '(%s %s %di)' % (p(n()), r.choice('+-'), r.randint(0, 9))
    if k < .8:
        return r.choice(['true', 'false'])
    if k < .9:
        return p(str(r.choice(BIG) * r.choice([1, -1])))
    return 'rational(%s, %s)' % (p(str(r.choice(BIG))), p(str(r.choice(BIG))))


def arithmetic(r):
    """random expressions over numbers of every kind"""
    # integers of full range and complex numbers (of 64-bit components) do not meet
    big = r.random() < .4
    num = lambda r: globals()['num'](r, big)

    def e(d):
        if d <= 0:
            return num(r)
        o = r.choice(['+', '-', '*', '+', '-', '*', '/', '%', '**'])
        if o == '**':
            b = r.choice(['0', '1', '2', '(-1)'] if big else ['0', '1', '2', '3', '4', '(-1)', '(-2)', '5', '7'])
            return '(%s ** %s)' % (num(r), b)
        if r.random() < .1:
            return '(-%s)' % e(d - 1) if False else '(0 - %s)' % e(d - 1)
        return '(%s %s %s)' % (e(d - 1), o, e(d - 1) if r.random() < .5 else num(r))
    x = e(r.randint(1, 3))
    k = r.random()
    if k < .6:
        return 'print(%s)\n' % x
    if k < .7:
        return 'let x = %s\nprint(x, typeof(x), x == %s, -x)\n' % (x, num(r))
    if k < .8:
        return 'let x = %s, y = %s\nprint(x + y == y + x, x * y == y * x, (x + y) - y == x)\n' % (num(r), num(r))
    if k < .9:
        return 'print([%s, %s, %s] . %s)\n' % (num(r), num(r), num(r), r.choice(['sum', 'sort', 'max', 'min', 'set', 'map(typeof)', 'reduce((*))', 'reduce((-))', 'map(abs)']))
    return 'let x = %s\nx %s %s\nprint(x)\n' % (num(r), r.choice(['+=', '-=', '*=', '/=', '%=']), num(r))


Property('C15', 'a program is one expression over numbers of mixed kinds; non-trivial when distinct',
         ('every pair of numbers under every operator', number_pairs, 2500),
         ('random arithmetic', forever(arithmetic), 2500))

# ---------------------------------------------------------------- C21
def data(r, d):
    """a value of nil, booleans, integers, strings, lists, vectors, sets and dictionaries, as text"""
    return values.value(r, d, 'slvSd')


def notation(r):
    v = values.value(r, 3)
    return PRE + 'let v = %s\nprint(v)\nprint(repr(v))\nprint([v], (v, v), {1: v})\nprint(str(v) == repr(v), typeof(v))\n' % v


def readback(r):
    v = data(r, 3)
    return 'let v = %s\nlet t = repr(v)\nprint(t)\nlet w = %s\nprint(v == w, repr(w) == t)\n' % (v, v)


def cyclic(r):
    """collections that contain themselves, directly and through others"""
    out = 'let a = [1], b = [a], d = {1: a}, v = (1, a), s = P(a, b), h = {(1, 2): b}\n'
    for _ in range(r.randint(1, 4)):
        out += r.choice(['a . push(a)', 'a . push(b)', 'b . push(a)', 'a . push(d)', 'd[2] = d', 'd[3] = a', 'a . push(v)', 'v[0] = v', 'v[0] = b', 's->x = s', 's->y = a', 'a . push(s)', 'h[1] = h', 'b . push(h)', 'b . push([b])', 'a . push((a, b))']) + '\n'
    out += ''.join('print(%s)\n' % x for x in r.sample(['a', 'b', 'd', 'v', 's', 'h', '[a, b]', '(a, a)', 'repr(a)', 'str(d)', 'len(repr(b))', 'copy(a)', 'copy(s)'], 4))
    return PRE + out


def functions(r):
    """notation of functions, types, operators and other values that cannot be read back"""
    v = r.choice(values.UNIVERSE + ['fa', 'fn(x) -> x', 'fn() -> 1', 'fn(a, b = 1, *c) -> 1', 'fn((a, b), c) -> 1', 'P(1)', 'push(1)', '(- 3)' if False else '(* 3)', '(->x)', '[1:2:3]', '[:]', '[::-1]', 'P(1, 2)->x', 'o->m', 'O->m', 'O', 'memoize(fa)', "(%)", '(. fa)', '(fa .)', '(is int)', '(not in [1])', '(!)', '(~)', 'M', 'M->g', 'f3(1)', 'f3(1, 2)', 'f3', 'O(5)', 'enumerate(P)' if False else 'enumerate({1})', 'insert(1, 2)', 'insert(1)', '(<=)', '(1 <=)', '(+ [1])'])
    pre = 'struct O(k) { fn m(self, a, b) -> k\n fn z() -> 1 }\nmodule M { fn g(a, *b) -> a }\nlet o = O([1])\nfn f3(a, b, c) -> 1\n'
    return UPRE_ + pre + 'let v = %s\nprint(v)\nprint([v])\nprint(repr(v), typeof(v))\n' % v


UPRE_ = values.UPRE
Property('C21', 'a program prints one value in every notation; non-trivial when distinct',
         ('random values', forever(notation), 1000),
         ('values of readable types against their own text', forever(readback), 1000),
         ('collections that contain themselves', forever(cyclic), 700),
         ('functions, types, operators', forever(functions), 500))

# ---------------------------------------------------------------- C22
def memos(r):
    """memoised functions called with equal and different arguments, re-entering and failing"""
    kind = r.randint(0, 6)
    pool = r.choice([['1', '2', '3', '4'], ['1', 'true', 'rational(1)', "'1'", '(1 + 0i)', '1.5' if False else '2'], ['[1]', '[2]', '[1]', 'vector([1])', '{1}'], ["'a'", "'b'", "'ab'", "''"], ['(1, 2)', '(2, 1)', '[1, 2]', '{1: 2}', '{1, 2}', '{2, 1}'], ['nil', '0', 'false', '[]', "''", 'set()']])
    arg = lambda: r.choice(pool)
    out = 'let n = 0\n'
    if kind == 0:
        out += 'fn f(x) { n += 1 ; print("call", x) ; [n, x] }\nlet g = memoize(f)\n'
    elif kind == 1:
        out += '@memoize\nfn g(x) { n += 1 ; print("call", x) ; n }\n'
    elif kind == 2:
        out += 'let g = memoize(fn(x, y) { n += 1 ; print("call", x, y) ; (n, x, y) })\n'
    elif kind == 3:
        pool = ['0', '1', '2', '3', '4', '5', '6', '7', '8']
        out += '@memoize\nfn g(x) { n += 1 ; if x < 2 then x else g(x - 1) + g(x - 2) }\n'
    elif kind == 4:
        out += 'let g = memoize(fn(*a) { n += 1 ; print("call", a) ; n })\n'
    elif kind == 5:
        out += 'let g = memoize(fn(x) { n += 1 ; if n == %d { nil[0] } ; n })\n' % r.randint(2, 5)
    else:
        pool = ['0', '1', '2', '3']
        out += 'let g\ng = memoize(fn(x) { n += 1 ; print("in", x) ; let z = if x > 0 then g(x - 1) else [] ; print("out", x, z) ; [x, z] })\n'
    for _ in range(r.randint(2, 9)):
        k = r.random()
        if kind == 2:
            st = 'print(g(%s, %s))' % (arg(), arg()) if k < .9 else 'print([%s, %s] . reduce(g))' % (arg(), arg())
        elif kind == 4:
            st = 'print(g(%s))' % ', '.join(arg() for _ in range(r.randint(0, 3)))
        elif k < .7:
            st = 'print(g(%s))' % arg()
        elif k < .8:
            st = 'print([%s] . map(g))' % ', '.join(arg() for _ in range(r.randint(0, 4)))
        elif k < .86 and kind < 2:
            st = 'let q = g(%s)\nif q is list { q . push(9) }\nprint(q)' % arg() if 'let q' not in out else 'n += 10'
        elif k < .9:
            st = 'n = n + 100'
        elif k < .94:
            st = 'let l = [%s]\nprint(g(l))\nl = l + [5]\nprint(g(l), g([%s]))' % (arg(), arg()) if 'let l' not in out and kind in (0, 1, 5) else 'print(n)'
        else:
            st = 'print(g, typeof(g))'
        out += st + '\n'
    return out + 'print(n)\n'


def defaults(r):
    """dictionaries with a default value or factory, read, written, re-entered and aliased"""
    kind = r.randint(0, 5)
    out = 'let n = 0\n'
    v = ['0', '[]', '(fn() { n += 1 ; print("make", n) ; n })', '(fn() -> [])', 'nil', '(fn() { n += 1 ; if n == %d { nil[0] } ; [n] })' % r.randint(2, 4)][kind]
    if r.random() < .15 and kind == 2:
        v = '(fn() { n += 1 ; d[n * 10] = n ; len(d) })'
    out += 'let d\nd = %s\nlet e = d\n' % r.choice(['dict() . default(%s)', 'default(%s, dict())', "{1: 5, 'k': 6} . default(%s)"] if '%' in '%s' else []) % v if True else ''
    key = lambda: r.choice(['1', '2', "'k'", "'j'", '[1]', '(1, 2)', 'nil', '1 + 1', '20'])
    for _ in range(r.randint(2, 9)):
        x = r.choice('de')
        k = r.random()
        if k < .35:
            st = 'print(%s[%s])' % (x, key())
        elif k < .45:
            st = '%s[%s] = %d' % (x, key(), r.randint(50, 99))
        elif k < .55 and kind in (0, 2):
            st = '%s[%s] += 1' % (x, key())
        elif k < .65 and kind in (1, 3, 5):
            st = 'if %s[%s] is list { %s[%s] . push(%d) }' % ((x,) + (key(),) * 1 + (x, key(), r.randint(1, 9))) if False else '%s[7] . push(%d)' % (x, r.randint(1, 9))
        elif k < .75:
            st = 'print(%s in %s, len(%s))' % (key(), x, x)
        elif k < .8:
            st = 'print(%s . remove(%s))' % (x, key())
        elif k < .86:
            st = 'print([1, 2, 3] . map(fn(q) -> %s[q]))' % x
        elif k < .9:
            st = 'print(keys(%s), values(%s))' % (x, x)
        elif k < .93:
            st = 'let f = %s[%s]\nprint(f, %s)' % (x, key(), x) if 'let f' not in out else 'print(d)'
        else:
            st = 'print(%s)' % x
        out += st + '\nprint(d, n)\n'
    return out


Property('C22', 'a program is one history of calls of a memoised function or of reads of a dictionary with a default; non-trivial when distinct',
         ('memoised functions', forever(memos), 1500),
         ('dictionaries with defaults', forever(defaults), 1500))

# ---------------------------------------------------------------- C26
LINES = ['', 'a', 'hello world', '  x ', '12', 'é漢', 'a,b', '%d', '-5', 'tab\there']


def stdin_of(r):
    out = ''
    for _ in range(r.randint(0, 5)):
        out += r.choice(LINES) + r.choice(['\n', '\n', '\n', '\r\n', '\n\n'])
    if r.random() < .4:
        out += r.choice(LINES)
    return out


def inputs(r):
    st = []
    for _ in range(r.randint(1, 7)):
        st.append(r.choice(['print(read_line())', 'print(repr(read_line()))', 'print(repr(read_line()))', 'print(repr(read()))', 'let l = read_line() ; print(repr(l), l == nil)' if not any('let l' in x for x in st) else 'print(1)',
                            'while true { let x = read_line() ; if x == "" or x == nil { break } ; print(repr(x), len(x)) }', 'print(read_line() . int)' if r.random() < .3 else 'print(argv())', 'print(read() . split("\\n"))', 'print(argv() . len)',
                            'fn g() -> read_line()\nprint(repr(g()))' if not any('fn g' in x for x in st) else 'print(repr(g()))', 'print(repr(read_line()), repr(read_line()))', 'print([1, 2] . map(fn(x) -> read_line()))']))
    return Case('\n'.join(st) + '\n', stdin_of(r), [r.choice(['x', '-v', 'é', 'a b', '', '--flag=1', '7']) for _ in range(r.randint(0, 3))])


def outputs(r):
    """print with values and strings of every kind, in loops and callbacks"""
    st = ''
    for _ in range(r.randint(1, 6)):
        args = [r.choice([values.value(r, 2), q(text(r)), q(text(r)), str(r.randint(-99, 99))]) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        e = ', '.join(args)
        st += r.choice(['print(%s)\n', 'print(%s)\n', 'print(...[%s])\n', 'let z = print(%s)\nprint(z)\n' if 'let z' not in st else 'print(%s)\n', '[%s] . map(print)\n', 'for x in [%s] { print(x, x) }\n', 'fn() { print(%s) } ()\n' if False else 'print(print(%s))\n']) % e
    return PRE + st


def files(r):
    """write_text and read_text on a scratch file given by the harness through the arguments"""
    return None


Property('C26', 'a program reads a random input with random calls, or prints random values; non-trivial when distinct',
         ('reading the input', forever(inputs), 1000),
         ('printing', forever(outputs), 1000))

# ---------------------------------------------------------------- C27
def asserts(r):
    pre = PRE + 'fn t(x) { print("t", x) ; x }\n'
    v = lambda: r.choice(['1', '2', 't(1)', 't(2)', 't(3)', "'a'", 't([1])', 'nil', 'true', 'false', '[1, 2]', 't(nil)', '(1, 2)', 'n', 'n + 1', '{1: 2}', '-1', 't(false)', '0', "''", '[]', 'l[0]', 'P(1, 2)', "t('b')", 'len(l)'])
    cmp = lambda: '%s %s %s' % (v(), r.choice(['==', '!=', '<', '<=', '>', '>=', 'in', 'not in', 'is', 'is not', '==', '==']), v())

    def cond():
        k = r.random()
        if k < .5:
            c = cmp()
            return c
        if k < .65:
            return v()
        if k < .72:
            return 'not %s' % v()
        if k < .78:
            return '%s and %s' % (v(), v())
        if k < .84:
            return '%s or %s' % (cmp(), v())
        if k < .9:
            return '%s < %s < %s' % (r.choice(['1', 't(1)', 'n']), r.choice(['2', 't(2)', 'n']), r.choice(['3', 't(3)', '0']))
        if k < .95:
            return '(%s)' % cmp()
        return r.choice(['if %s then %s else %s' % (v(), v(), v()), 't(%s)' % cmp(), '[%s] . any(bool)' % v(), '-%s' % r.choice(['1', 'n'])])

    def msg():
        return r.choice(["'message'", "t('why')", '5', 'nil', '[1]', 't(7)', "'n is ' + str(n)", "'%%d and %%s' %% (n, l)".replace('%%', '%'), 'n', 't(nil)[0]' if r.random() < .2 else "''"])

    def stmt(ind):
        k = r.random()
        a = 'assert %s%s' % (cond(), ' : %s' % msg() if r.random() < .45 else '')
        if k < .6:
            return ind + a + '\n'
        if k < .7:
            return ind + 'if %s { %s }\n' % (v(), a)
        if k < .8:
            return ind + 'for i in [1, 2] {\n%s  print(i)\n%s  %s\n%s}\n' % (ind, ind, a, ind)
        if k < .9:
            return ind + 'n += 1\n' + ind + a + '\n'
        return ind + 'print(%s)\n' % v()
    body = 'let n = %d, l = [1, 2]\n' % r.randint(0, 2)
    for _ in range(r.randint(1, 4)):
        body += stmt('')
    if r.random() < .3:
        body = 'fn main() {\n' + body + '}\nprint(main())\n'
    elif r.random() < .2:
        body = body + '[1, 2] . map(fn(x) { assert x %s 1 : t(x) ; x }) . print\n' % r.choice(['==', '<', '>=', '!='])
    return pre + body + "print('end')\n"


def assert_all(r, ctx):
    vs = ['1', '2', "'a'", 'nil', 'true', 'false', '[]', '[1]', '(1, 2)', '0', "''", '{1}']
    for o in ['==', '!=', '<', '<=', '>', '>=', 'in', 'not in', 'is', 'is not']:
        for a, b in shuffled(r, itertools.product(vs, (vs if o[0] != 'i' or o[:2] == 'in' else []) + ['int', 'str', 'any', 'list', 'P'] * (o[:2] == 'is'))):
            for m in ('', ' : %s' % q('m'), ' : [1]'):
                if r.random() < .5:
                    yield Case(PRE + 'let a = %s\nassert a %s %s%s\nprint(1)\n' % (a, o, b, m))


Property('C27', 'a program is a few assertions over traced operands and messages; non-trivial when distinct',
         ('every comparison in an assertion', lambda r, ctx: iter(shuffled(r, list(assert_all(r, ctx)))), 1000),
         ('random assertions', forever(asserts), 1500))
