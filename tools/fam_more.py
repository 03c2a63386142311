"""families for the parts of the implementation which the others reach seldom or not at all
(found by measuring which lines of the interpreter the generated programs run)"""
import itertools
import re
import values
from values import PRE
from check import Case
from families import REGISTRY, forever, shuffled
from fam_text import NUMS, FARGS


def add(pid, *fams):
    REGISTRY[pid].fams = list(REGISTRY[pid].fams) + list(fams)


# ---------------------------------------------------------------- C10: operators of sets, literals with unrolled parts
SETS = ['{1, 2, 3}', '{3, 2, 4}', 'set()', '{5}', "{'a', 1}", '{(1, 2), [1]}', '{[1], nil}', '{true, 1, rational(1)}', '{1, 2, 3, 4, 5}', '{{1}, {2}}', '{{2}, 3}']
OTHERS = ['[1, 2]', '{1: 2, 2: 3}', '(1, 2)', '3', 'nil', "'ab'", 'range(3)', 'true']


def setops(r):
    s = lambda: r.choice([r.choice(SETS), 'set([%s])' % ', '.join(str(r.randint(0, 6)) for _ in range(r.randint(0, 6)))])
    o = lambda: r.choice('&|^&|^-')
    x, y = s(), s() if r.random() < .85 else r.choice(OTHERS)
    if r.random() < .1:
        x, y = y, x
    k = r.random()
    head = 'let a = %s, b = %s, c = %s, z = a\n' % (x, y, s())
    if k < .4:
        return head + 'print(a %s b)\nprint(a, b, z)\n' % o()
    if k < .6:
        p, q = o(), o()
        return head + 'let d = (a %s b) %s c\nprint(d, len(d), list(d))\nd . push(7)\nprint(a, b, c, d)\n' % (p, q)
    if k < .85:
        return head + 'a %s= b\nprint(a, z, b)\nz . push(9)\nprint(a, z, a == z)\n' % o()
    return head + r.choice(['print([b, c] . map(fn(q) -> q %s a))\n', 'print([b, c] . map(fn(q) -> a %s q))\n', 'print([a, b, c] . reduce((%s)))\n', "let f = fn(q, w) -> q %s w\nprint(f(a, b), f(a)(c))\n"]) % o()


def unrolls(r):
    """literals and calls with unrolled parts of every kind"""
    it = lambda: r.choice(['[%d, 2]' % r.randint(0, 3), '(7, 1)', '{1, 9}', "{1: 2, 'k': 3}", "'ab'", 'range(2)', '[]', 'enumerate([4, 5])', 'heap([2])', "[('a', 1)]", '[[3, 4], (5, 6)]', "{'k': 0}", '5' if r.random() < .2 else 'set()', "['xy', 'zw']", '[(1, 2, 3)]' if r.random() < .2 else '[(1, 1)]'])
    pre = 'fn t(x) { print(x) ; x }\n'
    k = r.random()
    n = r.randint(1, 4)
    parts = lambda one: ', '.join('...%s' % (it() if r.random() < .6 else 't(%s)' % it()) if r.random() < .5 else one() for _ in range(n))
    if k < .2:
        return pre + 'let x = [%s]\nprint(x, len(x))\n' % parts(lambda: 't(%d)' % r.randint(0, 9))
    if k < .4:
        return pre + 'let x = {0, %s}\nprint(x, len(x))\n' % parts(lambda: 't(%d)' % r.randint(0, 9))
    if k < .8:
        return pre + "let x = {0: 'z', %s}\nprint(x, len(x))\n" % parts(lambda: "t(%d): t('%s')" % (r.randint(0, 3), r.choice('pqr')))
    if k < .9:
        return pre + 'let x = (0, %s)\nprint(x, len(x))\n' % parts(lambda: 't(%d)' % r.randint(0, 9))
    return pre + 'fn f(*a) -> a\nprint(f(%s))\n' % parts(lambda: 't(%d)' % r.randint(0, 9))


add('C10', ('operators of sets', forever(setops), 2000), ('literals with unrolled parts', forever(unrolls), 2000))

# ---------------------------------------------------------------- C08: types of values, functions as values
TYPES = ['int', 'str', 'list', 'set', 'dict', 'vector', 'heap', 'iterable', 'function', 'bool', 'complex', 'any', 'rational', 'P', 'Q', 'nil' if False else 'never' if False else 'M' if False else 'int']
VALS = ['1', '0', '-5', "'a'", "''", "'abcdefghij'", '[1]', '[]', '{1}', 'set()', '{1: 2}', 'dict()', '(1, 2)', 'vector()', 'heap([1])', 'range(3)', 'range(0)', 'nil', 'true', 'false', 'print', 'fn(x) -> x', '1i', '(2 + 0i)', 'rational(1, 2)', 'rational(2)', 'P', 'P(1, 2)', 'Q(1)',
        'enumerate([1])', '(+)', '(+ 1)', 'f(1)', 'memoize(f)', '(->x)', 'add', 'int', 'P(1, nil)->x', 'map(int)', '[0:1]' if False else 'len', 'replace(1)', 'max']
TPRE = 'struct P(x, y)\nstruct Q(v) {\n  fn m(self) -> 1\n}\nfn f(x, y) -> x + y\nfn mk(k) -> fn(x) -> x + k\nlet add = mk(3)\n'


def types_all(r, ctx):
    for v in shuffled(r, VALS):
        yield Case(TPRE + 'let v = %s\n' % v + ''.join('print(v is %s, v is not %s)\n' % (t, t) for t in TYPES) + 'print(typeof(v), [v] . filter(is int) . len)\n')
        for t in ('[int]', '5', 'nil', "'int'", 'print', 'v', 'typeof(v)', '(+)', 'f'):
            yield Case(TPRE + 'let v = %s\nprint(v is %s)\n' % (v, t))
            yield Case(TPRE + 'let v = %s\nprint(v is not %s)\n' % (v, t))


FUNS = ['f', 'f(1)', 'f(2)', 'f(1)', 'add', 'mk(3)', 'm1', 'memoize(f)', 'map(int)', 'map(str)', 'map', '(+)', '(+ 1)', '(+ 1)', '(+ 2)', '(- 1)', '(-)', 'replace(1)', 'replace(1, 2)', 'replace(1)', 'replace', '(->x)', '(->v)', 'P', 'Q', 'Q(1)->m', 'Q(2)->m', 'q->m', 'p(1)', 'p', 'P(1)' if False else 'print', 'len', 'g', 'g(1)(2)' if False else 'g(1)', '[0:1]' if False else 'max(int)' if False else 'int']
FPRE = TPRE + 'fn g(x, y) -> x + y\nlet m1 = memoize(f), q = Q(1), p = f(1)\n'


def functions(r):
    """functions of every kind compared and used as keys"""
    a, b, c = r.choice(FUNS), r.choice(FUNS), r.choice(FUNS)
    if r.random() < .4:
        b = a
    return FPRE + 'let a = %s, b = %s, c = %s\nprint(a == b, b == c, a == a, a != b, [a] == [b], (a, 1) == (b, 1))\nlet s = {a, b, c}\nprint(len(s), a in s, %s in s, index_of(b, [c, a, b]))\nlet d = {a: 1}\nd[b] = 2\nd[c] = 3\nprint(len(d), d[a], d[b], d[c])\n' % (a, b, c, a)


add('C08', ('types of all values', types_all, 1500), ('functions as values and keys', forever(functions), 1500))

# ---------------------------------------------------------------- C15: functions of one number
ONE = ['real', 'imag', 'numer', 'denom', 'abs', 'int', 'bool', 'str', 'repr', 'typeof', 'rational', 'sqrt', '-', '!', 'hex', 'bin', 'count_ones', 'gcd', 'lcm', 'not ', 'sum', 'max', 'len', 'ord']
MORE = ['rational(4, 9)', 'rational(-4, 9)', 'rational(10 ** 9, 7)', 'rational(6, 3)', 'rational(6, 4)', '(3 + 4i)', '(3 - 4i)', '(0 + 0i)', '(1 + 0i)', 'rational(2) ** 70', 'rational(2) ** 62', '(0 - rational(2) ** 62)', '(rational(2) ** 62 - 1)', '(rational(2) ** 64 / 3)', "rational('12')", "'-17'", "'+5'", "' 5'", "'0x1f'", "'-0b101'", "'1_000'",
        "'9999999999'", "'99999999999999999999'", "'4611686018427387903'", "'-4611686018427387904'", "'12a'", 'nil', '[1]', '(1, 2)', '25', '26', '24', '4611686018427387903', '(2 ** 61)', '1000000007 ** 2', 'true']


def number_functions(r, ctx):
    for f, a in shuffled(r, itertools.product(ONE, dict.fromkeys(NUMS + MORE))):
        if f in ('hex', 'bin') and a.startswith("'4611"):
            continue
        yield Case('print(%s(%s))\n' % (f, a))
    for f in ('int', 'rational'):
        for a, b in shuffled(r, itertools.product(NUMS + MORE, ['nil', '0', '7', 'rational(1, 3)', "'3'", '(0 - 2)'])):
            yield Case('print(%s(%s, %s))\n' % (f, a, b))


add('C15', ('functions of one number', number_functions, 2500))

# ---------------------------------------------------------------- C04: every library function as a callback of every number of arguments
LIBS = ['read_line', 'print', 'env', 'argv', 'bool', 'int', 'complex', 'rational', 'str', 'list', 'set', 'dict', 'vector', 'function', 'iterable', 'repr', 'eval', 'typeof', '(-)', '(!)', '(*)', '(/)', '(**)', '(%)', '(is)', '(in)', '(+)', '(<<)', '(>>)', '(&)', '(|)', '(^)',
        '(<)', '(<=)', '(>)', '(>=)', '(==)', '(!=)', 'to_lower', 'to_upper', 'replace', 'search', 'trim', 'split', 'join', 'ord', 'hex', 'bin', 'len', 'range', 'enumerate', 'sum', 'min', 'max', 'min_by', 'max_by', 'map', 'filter', 'flat_map', 'concat', 'zip', 'reduce', 'sort', 'sort_by',
        'group_by', 'reverse', 'permutations', 'combinations', 'any', 'all', 'memoize', 'union', 'intersect', 'difference', 'counter', 'copy', 'peek', 'pop', 'pop_front', 'push', 'push_front', 'insert', 'remove', 'clear', 'find', 'rfind', 'index_of', 'rindex_of', 'default', 'keys', 'values', 'abs',
        'sqrt', 'gcd', 'lcm', 'count_ones', 'real', 'imag', 'numer', 'denom', '(not)', '(is not)', '(not in)', "replace('a')", "replace('a', 'b')", "insert(0)", "insert(0, 9)", 'map(int)', '(+ 1)', 'reduce((+))', 'push(1)', 'split(1)', "join('-')", 'default(0)']
NOIO = ('env',)


def surroundings(f):
    yield 'print(%s)' % f
    yield 'let d = default(%s, dict())\nprint(d[1])\nprint(len(d))' % f
    yield "print(map(%s, ['12', 'abca']))" % f
    yield 'print(map(%s, [[3, 1], (2, 5)]))' % f
    yield 'print(map(%s, [4, -2]))' % f
    yield "print(reduce(%s, ['a', 'bac', 'aac']))" % f
    yield 'print(reduce(%s, [[1], [2, 1]]))' % f
    yield 'print(reduce(%s, [7, 2]))' % f
    yield 'print(sort_by(%s, [2, 2]))' % f
    yield "print(min_by(%s, ['b', 'a']))" % f
    yield 'let g = %s\nprint(g(1))' % f
    yield 'let g = %s\nprint(g(1, 2))' % f
    yield 'let g = %s\nprint(g(1, 2, 3))' % f
    yield "let g = %s\nprint(g('a', 'b', 'cab'))" % f
    yield 'let g = %s\nprint(g(1, 2, 3, 4))' % f
    yield "let g = %s\nprint(g('a')('b')('banana'))" % f
    yield 'let g = %s\nprint(g(0)(1)([2, 3]))' % f
    yield 'let g = %s\nprint(g(0, 1)([2, 3]))' % f
    yield 'let g = %s\nprint(g(0)(1, [2, 3]))' % f
    yield 'let g = %s\nprint(g()(1))' % f
    yield 'let g = %s\nprint(g())' % f
    yield 'let g = %s\nprint(g(...[]))' % f
    yield "print('abc' . %s)" % f
    yield 'print([3, 1, 2] . %s)' % f
    yield 'print(5 . %s)' % f
    yield 'print(memoize(%s)(2))' % f
    yield 'print(any(%s, [1, 0]), all(%s, [1]))' % (f, f)


def native_callbacks(r, ctx):
    for i, f in shuffled(r, itertools.product(range(27), LIBS)):
        if f in NOIO:
            continue
        yield Case(list(surroundings(f))[i] + '\n', stdin='one\ntwo\n')


add('C04', ('library functions under every number of arguments', native_callbacks, 2500))

# ---------------------------------------------------------------- C05: patterns with ignored and variadic parts, fields and elements
def stores(r):
    """assignment through patterns to names, elements and fields, nested, with ignored and variadic parts"""
    pre = 'struct P(x, y) {\n  fn set(self, v) { self->x, self->y = v\n self }\n  fn two(self, v) { *x0, y = v\n y }\n  fn deep(self, v) { _, (x, *_), y = v\n self }\n  fn swap(self) { x, y = y, x\n self }\n}\nlet x0\nlet a, b, c\nlet l = [0, 1, 2, 3], d = {0: 0}, p = P(1, 2), q = p\nfn t(x) { print(x) ; x }\n'
    targets = ['a', 'b', 'c', 'l[0]', 'l[t(1)]', 'l[-1]', 'd[t(0)]', "d['k']", 'p->x', 'q->y', 't(p)->x', '_', 'l[t(2)]']
    val = lambda n: r.choice(['[%s]', '(%s)', 'vector([%s])', '[%s]']) % ', '.join(r.choice(['%d' % r.randint(0, 9), 'a', 'l[0]', 'p->x', 't(%d)' % r.randint(0, 9), "'s'"]) for _ in range(n))

    def val1(n):
        return val(n) if n > 1 else '[%d]' % r.randint(0, 9) if n else '[]'

    def pat(d, top=False):
        n = r.randint(2, 4) if top else r.randint(1, 3)
        star = r.randrange(n) if r.random() < .35 else None
        ps, vs = [], []
        for i in range(n):
            if i == star:
                ps.append('*' + r.choice(['a', 'b', 'c', '_']))
                for _ in range(r.randint(0, 2)):
                    vs.append('t(%d)' % r.randint(0, 9))
            elif d and r.random() < .3:
                p, v = pat(d - 1)
                ps.append('(%s%s)' % (p, ',' if ',' not in p else '')) if True else None
                vs.append(v)
            else:
                ps.append(r.choice(targets))
                vs.append(r.choice(['%d' % r.randint(0, 9), 'a', 'p->y', "'w'", '[1]', 'l[1]', 't(%d)' % r.randint(0, 9)]))
        if r.random() < .1:
            vs = vs[:-1] if r.random() < .5 else vs + ['5']
        w = r.choice(['[%s]', '[%s]', 'vector([%s])', '(%s)' if len(vs) > 1 else '[%s]'])
        return ', '.join(ps), w % ', '.join(vs)
    out = pre
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < .75:
            p, v = pat(2, True)
            st = '%s = %s' % (p, v)
            if st[0] in '([':
                st = 'a, ' + p + ' = [0, ...%s]' % v
            if st[0] == '*':
                st = '; ' + st
            if not re.search(r'[abclp]', p.replace('_', '')) and 'd[' not in p:
                st = 'a, ' + p + ' = [0, ...%s]' % v
        else:
            st = r.choice(['p . set' if False else 'p->set([%d, 4])' % r.randint(0, 9), 'p->deep((1, [7, 8], 9))', "p->deep((1, 'ab', 9))", 'p->deep((1, [], 9))', 'p->two([1, 2, 3])', 'p->swap()', 'p->set((1, 2, 3))'])
        out += st + '\n' + 'print(a, b, c, l, d, p)\n'
    if r.random() < .3:
        out = out.replace('let a, b, c\n', '', 1)
        i = out.index('fn t(x)')
        j = out.index('\n', i) + 1
        out = out[:j] + 'fn run() {\nlet a, b, c\n' + out[j:] + 'print([1] . map(fn(v) -> (a, b, c)))\n}\nrun()\n'
    return Case(out, lines=False)


add('C05', ('patterns that store into names, elements and fields', forever(stores), 1500))

# ---------------------------------------------------------------- C17: long call chains, which reports abbreviate
def chains(r):
    """errors below many repeated calls: the chain of calls is abbreviated, and nothing else of it"""
    n = r.choice([3, 4, 5, 6, 7, 9, 12, 30, 75])
    m = r.choice([0, 0, 1, 4, 5, 8])
    fail = r.choice(['1 / 0', 'nil()', '[][0]', 'assert false : n', 'int(n, 1)' if False else "int('x')"])
    k = r.randint(0, 6)
    if k == 0:
        src = 'fn f(n) {\n  if n <= 0 { %s }\n  1 + f(n - 1)\n}\nprint(f(%d))\n' % (fail, n)
    elif k == 1:
        src = 'fn f(n) {\n  if n <= 0 { %s }\n  1 + f(n - 1)\n}\nfn g(n) {\n  if n <= 0 { f(%d) }\n  1 + g(n - 1)\n}\nprint(g(%d))\n' % (fail, n, m)
    elif k == 2:
        src = 'fn f(n) {\n  if n <= 0 { %s }\n  1 + g(n - 1)\n}\nfn g(n) {\n  1 + f(n - 1)\n}\nprint(f(%d))\n' % (fail, n)
    elif k == 3:
        src = 'fn f(n) {\n  if n <= 0 { %s }\n  [n - 1] . map(f) . len\n}\nprint(f(%d))\n' % (fail, n)
    elif k == 4:
        src = 'fn f(n) {\n  if n <= 0 { %s }\n  if n %% 2 == 0 {\n    1 + f(n - 1)\n  } else {\n    2 + f(n - 1)\n  }\n}\nprint(f(%d))\n' % (fail, n)
    elif k == 5:
        src = 'struct S(v) {\n  fn m(self, n) {\n    if n <= 0 { %s }\n    1 + self->m(n - 1)\n  }\n}\nlet s = S(0)\nfor i in range(2) { print(s->m(%d * i)) }\n' % (fail, n)
    else:
        src = 'fn f(n) {\n  if n <= 0 { %s }\n  1 + f(n - 1)\n}\nfn g(n) -> f(n)\nfn h(n) {\n  if n == %d { g(n) }\n  1 + h(n + 1)\n}\nprint(h(%d))\n' % (fail, n, max(0, n - m))
    return src


add('C17', ('errors below repeated calls', forever(chains), 800))

# ---------------------------------------------------------------- C21: values that contain themselves
def cyclic(r):
    """collections that contain themselves, printed and measured (they are not compared or hashed)"""
    out = 'struct P(x, y)\nlet a = %s, b = %s, c = %s, p = P(1, 2)\n' % tuple(r.choice(['[1]', '[]', '{1: 2}', 'dict()', '[1, [2]]', 'vector([1, 2])', "{'k': []}"]) for _ in range(3))
    for _ in range(r.randint(2, 6)):
        x, y = r.choice('abcp'), r.choice('abcp')
        w = r.choice(['%s', '[%s]', '(%s, 1)', '{0: %s}', '[[%s]]', 'P(%s, 0)']) % y
        if x == 'p':
            out += 'p->%s = %s\n' % (r.choice('xy'), w)
        else:
            out += 'if %s is list { push(%s, %s) } elif %s is dict { %s[%d] = %s } else { %s[0] = %s }\n' % (x, w, x, x, x, r.randint(0, 3), w, x, w)
        out += r.choice(['print(a, b, c, p)\n', 'print(repr(%s))\n' % x, 'print(str(%s), [%s])\n' % (x, x), 'print({1: %s})\n' % x, "print('%%s' %% [%s])\n" % x if False else 'print((%s, %s))\n' % (x, x)])
    return out


ESC = ["'\\r'", "'\\t'", "'\\n'", "'a\\rb'", "'\\\\'", "'\\\\n'", "'\\''", "'tab\\there'", "'\\r\\n'", "'\"'"]


def escapes(r):
    """texts with escapes: their length, notation and parts"""
    s = r.choice([r.choice(ESC), "'%s'" % ''.join(r.choice(['a', 'é', ' ', '\\n', '\\t', '\\r', '\\\\', '\\\'', '"', '漢', '0']) for _ in range(r.randint(0, 12)))])
    return 'let s = %s\nprint(len(s), repr(s), s, [s], {s: 1})\nprint(s . list, s . map(ord))\nprint(s . split(\'\') . len, s == s + \'\', to_upper(s), trim(s) . repr)\n' % s


add('C21', ('values that contain themselves', forever(cyclic), 1000), ('texts with escapes', forever(escapes), 1000))

# ---------------------------------------------------------------- C16: what comes before and after a composition
OPRE = """fn t(n, v) { print('t', n) ; v }
let x = 3, y = 0, l = [1, 2], g = (+ 1), h = (* 10), fs = [g, h], z = nil
"""
OARG = ['t(1, 5)', '(x = 7)', '(x += 1)', '(1 / y)', '(-z)', 'l[9]', '(g = h)', '(l . pop)', '(not t(1, z))', 'x', '5', '[t(1, 2), x]', '(if t(1, true) then x else y)', '(y or t(1, 4))', '(t(1, 3) < x)', '(x max= 9)', '(!z)', '(fn() { g = h ; 6 })()', '(y . g)', '(t(1, 2) min x)' if False else 'min(t(1, 2), x)', '(x == 3)', '(l = [8, 9])', '(1 . t(2))']
OBODY = ['x', 'y', 't(2, x)', 't(2, y)', '(x = 4)', '(1 / y)', '(-z)', '(-x)', '(!x)', '(not x)', '(not t(2, x))', 'l[0]', 'l[7]', '(l . len)', '5', '(x + 1)', '(x < 4)', '(t(2, x) == 3)', '(x . g)', '(x and y)', '(t(2, x) or z)', '[x]', '(x . t(2))']
OFUN = ['(+ %s)', '(* %s)', '(%s +)', '(< %s)', '(%s <)', '(== %s)', '((+)(%s))', 'max(%s)', 'push(%s)', 'map(fn(q) -> (q, %s))', '(if %s then g else h)', '(if t(3, true) then (+ %s) else h)', '(if %s then t(4, g) else t(5, h))', '(if x then t(4, g) else (%s))', '(if y then (%s) else t(5, h))', '(%s and g)', '(%s or g)', '(g and (+ %s))', 'fs[%s]', '[g, (%s)][0]', '[(%s), g][1]', '(fn(q) -> [q, %s])', 't(6, (+ %s))', 'zip([%s])', '(%s . (+))', '((%s) . max)', 'insert(0, %s)', '{1: g}[%s]', '[%s]', '[:%s]', 'str', '(is %s)', '(in [%s])', '([%s] . push)', 'list(%s)', '(not %s)', '(- (%s))' if False else '(-%s)', 'min(...[%s])', '(... %s)' if False else 'int', 'g', 'fs[0]', 'union([%s], [2])' if False else 'sum', '(%s < x)', '(%s == x)', '(x, %s)']


def order_all(r, ctx):
    for a, f, b in shuffled(r, itertools.product(OARG, OFUN, OBODY)):
        if '%s' not in f and b != OBODY[0]:
            continue
        e = '%s . %s' % (a, f % b if '%s' in f else f)
        yield Case(OPRE + ['print(%s)', 'let q = (%s)\nprint(q)', 'fn k() {\n  %s\n}\nprint(k())', 'print(t(8, 1), %s)'][r.randint(0, 3)] % e + '\nprint(x, y, l, z, g == h)\n')


def order2_all(r, ctx):
    for a, b in shuffled(r, itertools.product(OARG, OBODY)):
        for w in ('%s + %s', '%s < %s', '%s == %s', '(%s, %s)', '{%s: %s}', 'l[%s - %s]', '(+ %s)(%s)', '(< %s)(%s)', '(%s <)(%s)', '(+)(%s, %s)', 'max(%s, %s)', 'max(%s)(%s)', '%s and %s', '%s or %s', '(%s . (+))(%s)', '[%s][%s]', 'if %s then %s else t(9, 0)', '%s . g . (+ %s)', 'g(%s) + h(%s)', 'push(%s, [%s])', 'push(%s)([%s])', 'fs[%s](%s)', '(if %s then g else h)(%s)', '%s in [%s]', '(in [%s])(%s)', '(%s is int) == %s'):
            e = w % (a, b)
            yield Case(OPRE + ['print(%s)', 'let q = (%s)\nprint(q)', 'fn k() {\n  %s\n}\nprint(k())'][r.randint(0, 2)] % e + '\nprint(x, y, l, z, g == h)\n')


add('C16', ('what a composition evaluates first', order_all, 2500), ('which operand is evaluated first', order2_all, 2500))

# ---------------------------------------------------------------- C03: closures made in loops which are left early
def loopclosures(r):
    """closures over the variables of loops (and of blocks in them) that end by break, continue, return or normally"""
    n = [0]

    def block(d, names, infn):
        out = []
        k = r.random()
        for _ in range(r.randint(1, 3)):
            n[0] += 1
            v = 'v%d' % n[0]
            names = names + [v]
            out.append('let %s = %s' % (v, r.choice(['%d' % n[0], r.choice(names[:-1]) if names[:-1] else '0', '[%s]' % (names[0] if names[:-1] else '9')])))
        for _ in range(r.randint(1, 3)):
            q = r.random()
            u = r.choice(names)
            if q < .35:
                out.append('fs . push(fn() -> %s)' % u)
            elif q < .5:
                out.append('fs . push(fn() { %s = %d ; %s })' % (u, 200 + n[0], r.choice(names)))
            elif q < .6:
                out.append('fs . push(fn() -> fn() -> [%s, %s])' % (u, r.choice(names)) + ' ; fs . push(fs[-1]())')
            elif q < .7:
                out.append('%s = %d' % (u, 100 + n[0]))
            elif d and q < .9:
                out.append(loop(d - 1, names, infn))
            else:
                out.append('if true {\n%s\n}' % '\n'.join(block(0, names, infn)) if d else 'if len(fs) %% 2 == 0 { let w = %s ; fs . push(fn() -> (w, %s)) ; %s }' % (u, r.choice(names), leave(infn)))
        if r.random() < .5:
            out.append('if len(fs) %% %d == %d { %s }' % (r.choice([2, 3]), r.randint(0, 1), leave(infn)))
        if r.random() < .4:
            n[0] += 1
            out.append('let v%d = %s' % (n[0], r.choice(names)) + '\nfs . push(fn() -> v%d)' % n[0])
        return out

    def leave(infn):
        return r.choice(['continue', 'break', 'continue', 'break', 'return fs' if infn else 'continue'])

    def loop(d, names, infn):
        n[0] += 1
        i = 'i%d' % n[0]
        k = r.randint(0, 4)
        if k <= 1:
            return 'for %s in %s {\n%s\n}' % (i, r.choice(['range(3)', '[7, 8]', "'ab'"]), '\n'.join(block(d, names + [i], infn)))
        if k == 2:
            return 'for %s, j%d in enumerate([4, 5, 6]) {\n%s\n}' % (i, n[0], '\n'.join(block(d, names + [i, 'j%d' % n[0]], infn)))
        if k == 3:
            return 'let %s = 0\nwhile %s < 3 {\n%s += 1\n%s\n}%s' % (i, i, i, '\n'.join(block(d, names, infn)), ' else { fs . push(fn() -> %s) }' % i if r.random() < .4 else '')
        return 'let %s = 0\nloop {\n%s += 1\nif %s > 3 { break }\n%s\n}' % (i, i, i, '\n'.join(block(d, names, infn)))
    infn = r.random() < .6
    body = loop(r.choice([0, 1, 1, 2]), [], infn)
    if r.random() < .3:
        body += '\n' + loop(0, [], infn)
    out = 'let fs = []\n'
    if infn:
        out += 'fn main() {\n%s\nfs\n}\nmain()\n' % body
        if r.random() < .3:
            out += 'main()\n'
    else:
        out += body + '\n'
    return out + 'print(len(fs))\nfor f in copy(fs) { print(f()) }\nfor f in copy(fs) { print(f()) }\n'


add('C03', ('closures in loops left early', forever(loopclosures), 1200))

# ---------------------------------------------------------------- C11: equality of heaps, and heaps of equal elements
def heap_equal(r):
    xs = [r.choice(['1', '2', '3', '0', 'true' if False else '5', '-1']) for _ in range(r.randint(0, 6))]
    ys = xs[:]
    r.shuffle(ys)
    if r.random() < .4 and ys:
        ys[r.randrange(len(ys))] = r.choice(['1', '2', '9'])
    if r.random() < .15:
        ys = ys + ['2']
    w = r.choice(['%s', '(%s, 0)', "'%s'", '[%s]'])
    a, b = ', '.join(w % x for x in xs), ', '.join(w % x for x in ys)
    build = r.randint(0, 2)
    out = 'let a = heap([%s])\n' % a
    if build == 0:
        out += 'let b = heap([%s])\n' % b
    else:
        out += 'let b = heap([])\nfor x in [%s] { push(x, b) }\n' % b
    if build == 2:
        out += "push(%s, b)\npush(%s, a)\n" % (w % '-9', w % '-9') + 'print(pop(b), pop(a))\n'
    out += 'print(a == b, a != b, len({a, b}), {a: 1, b: 2} . len, a in {b}, b in [a], index_of(a, [b]))\n'
    out += 'print(len(a), len(b), peek(a) == peek(b))\n' if xs and ys else ''
    out += 'print([a] == [b], (a, 1) == (b, 1), counter([a, b]) . len, remove(b, [a]) if a == b else 0)\n' if False else 'print([a] == [b], (a, 1) == (b, 1), counter([a, b]) . len)\n'
    return out + 'let o = []\nwhile a { push(pop(a), o) }\nprint(o)\nwhile b { push(pop(b), o) }\nprint(o, a == b)\n'


add('C11', ('equality of heaps', forever(heap_equal), 1000))

# ---------------------------------------------------------------- C13: comparison functions with results of every size; callbacks that change what they are applied to
CMPS = ['fn(a, b) -> a - b', 'fn(a, b) -> b - a', 'fn(a, b) -> (a - b) * 5', 'fn(a, b) -> if a < b then -1 else if a == b then 0 else 1', 'fn(a, b) -> if a > b then -1 else if a == b then 0 else 1', 'fn(a, b) -> (a %% 3) - (b %% 3)' .replace('%%', '%'), 'fn(a, b) -> 0', 'fn(a, b) -> (a // 2) - 1' if False else 'fn(a, b) -> (a > b) - (a < b)', 'fn(a, b) -> (b > a) - (b < a)',
        'fn(a, b) -> a / 3 - b / 3', 'fn(a, b) -> a * a - b * b', 'fn(a) -> a', 'fn(a) -> -a', 'fn(a) -> a % 3', 'fn(a) -> [a % 2, a]', 'fn(a) -> 0', 'fn(a) -> str(a)', 'abs', '(-)', '(% 4)', 'str']


def comparisons(r):
    n = r.randint(1, 9)
    xs = [str(r.randint(-4, 6)) for _ in range(n)]
    c = r.choice(CMPS)
    seq = r.choice(['[%s]', '[%s]', '{%s}', 'vector([%s])'])
    return 'let c = (%s), l = %s\nprint(sort_by(c, l))\nprint(min_by(c, l), max_by(c, l))\nprint(l, sort_by(c) (l) == sort_by(c, l))\nprint(l . enumerate . %s(fn(%s) -> %s))\n' % (
        c, seq % ', '.join(xs), r.choice(['sort_by', 'min_by', 'max_by']), *(('(i, x)', 'x % 3') if r.random() < .5 else ('(i, x), (j, y)', r.choice(['x - y', 'y - x', '(x % 2) - (y % 2)', 'x / 2 - y / 2']))))


RCB = ['push(x, s)', 'pop(s)', 'clear(s)', 'pop_front(s)', 'push_front(x, s)', 's[0] = x', 's . remove(0)', 's . insert(0, x)', 'sort(s)', 's . map(fn(y) -> y) . len', 'len(s)', 's[-1] += 1', "print(s)", 's += [x]', 's = [9]', 'if len(s) < 6 { push(x, s) }', 'if len(s) > 1 { pop(s) }']
RHOF = ['map(F)', 'filter(F)', 'flat_map(fn(x) { F(x) ; [x] })', 'any(fn(x) { F(x) ; false })', 'all(fn(x) { F(x) ; true })', 'find(fn(x) { F(x) ; x == 9 })', 'index_of(fn(x) { F(x) ; x == 2 })', 'group_by(F)', 'min_by(fn(x) { F(x) ; x })', 'max_by(fn(x) { F(x) ; x })', 
        'reduce(fn(a, x) { F(x) ; (a, x) })', 'memoize' if False else 'map(memoize(F))', 'enumerate . map(fn((i, x)) { F(x) ; i })', 'zip([1, 2, 3]) . map(fn((x, y)) { F(x) ; (x, y) })', 'list . map(F)', 'reverse . map(F)', 'sort . map(F)', 'map(F) . filter(F)', 'copy . map(F)', 'vector . map(F)']


def reentrant(r, ctx):
    """callbacks that change the list they are being applied to"""
    for c, h, s in shuffled(r, itertools.product(RCB, RHOF, ['[1, 2, 3]', '[]', '[5]', '[3, 1, 2, 4]', '[2, 2]'])):
        lim = 'n += 1\n  if n > 7 { return 0 }\n  '
        yield Case('let s = %s, n = 0\nlet k = s\nfn F(x) {\n  %s%s\n  x\n}\nprint(s . %s)\nprint(s, k, n)\n' % (s, lim, c, h))
        if r.random() < .3:
            yield Case('let s = %s, n = 0\nlet k = s\nfor x in s {\n  n += 1\n  if n > 7 { break }\n  %s\n}\nprint(s, k, n)\n' % (s, c))


SCB = ['push(x, s)', 'push(99, s)', 'remove(x, s)', 'if len(s) < 5 { push(n + 50, s) }', 'clear(s)', 'len(s)', 's . union({77})', 's . difference({1})', 's . intersect({2, 3})', 'print(s)', 'pop(s)', 'if x in s { remove(x, s) }', 'push(s, s)', 's |= {8}', 'copy(s) . push(4)']
DCB = ['d[x] = 9', 'd[n + 50] = 1', 'remove(x, d)', 'clear(d)', 'print(d)', 'd[1] = d[1]', 'if n < 3 { d[n + 50] = x }', 'd . keys . len', 'd[d] = 1', 'd[[d]] = 1', 'insert(7, 8, d)', 'd[1] += 1', 'len(d)', 'd = {1: 1}']


def reentrant_keyed(r, ctx):
    """callbacks that change the set or dictionary they are applied to; collections put into themselves"""
    for c, h, s in shuffled(r, itertools.product(SCB, RHOF[:15] + ['set', 'union({1})', 'list'], ['{1, 2, 3}', 'set()', '{5}', '{2, 9}'])):
        yield Case('let s = %s, n = 0\nlet k = s\nfn F(x) {\n  n += 1\n  if n > 7 { return 0 }\n  %s\n  x\n}\nprint(s . %s)\nprint(s, k, n)\n' % (s, c, h))
        if r.random() < .5:
            yield Case('let s = %s, n = 0\nfor x in s {\n  n += 1\n  if n > 7 { break }\n  %s\n}\nprint(s, n)\n' % (s, c))
        if r.random() < .7:
            e = r.choice(DCB)
            yield Case('let d = {1: 2, 3: 4}, n = 0\nfor %s in d {\n  n += 1\n  if n > 7 { break }\n  %s\n}\nprint(d, n)\n' % ('x' if r.random() < .3 and 'x' not in e else 'x, y', e))
        if r.random() < .2:
            e = r.choice(DCB)
            yield Case('let n = 0, d\nd = default(fn() { n += 1 ; let x = n\n%s\n n }, {1: 2, 3: 4})\nprint(d[%s])\nprint(d, n, d[1])\n' % (e, r.choice(['1', '7', '8', '51'])))
        if r.random() < .1:
            yield Case('let s = {1}, d = {1: 2}, l = [1]\n' + ''.join(r.choice(['s . push(s)', 's . push([s])', 'd[d] = 1', 'd[[d]] = 1', 'd[(1, d)] = 1', 's . push((l, 1))', 'd . insert(d, 1)', 's . remove(s)', 's in s', 'd in d', 'd[s] = s', 's . push(d)', 'd[1] += 1', 's |= {2}', 'd . remove(d)', 'set([s, s])', '{s: s}']) + '\n' for _ in range(r.randint(1, 3))) + 'print(len(s), len(d), len(l))\n')


add('C13', ('comparison functions', forever(comparisons), 1500), ('callbacks that change their list', reentrant, 1500))
add('C10', ('callbacks that change their set or dictionary', reentrant_keyed, 1500))

# ---------------------------------------------------------------- C14: characters
ORDS = [0, -1, -97, (1 << 32) + 97, (1 << 40), 97, 65, 48, 32, 39, 92, 126, 233, 0x6f22, 0x1f600, 0xd800, 0xdfff, 0x10ffff + 1, (1 << 62) - 1, -(1 << 61)]


def characters(r, ctx):
    for a in ORDS:
        yield Case('print(char(%s))\n' % ('(%d)' % a if a < 0 else a))
        yield Case('print([char(%s)] . map(ord))\n' % ('(%d)' % a if a < 0 else a))


add('C14', ('characters', characters, 100))

# ---------------------------------------------------------------- C02: stores to names which are declared later, alone and in patterns
def late_stores(r):
    names = ['x', 'y', 'z', 'w']
    r.shuffle(names)
    pat = lambda: r.choice(['%s = 5', '%s += 1', '%s, %s = (1, 2)', '%s, (%s, *%s) = (1, [2, 3, 4])', '(%s, %s), %s = ((1, 2), 3)', '%s, *%s = [1, 2, 3]', '%s, _, %s = [4, 5, 6]', '%s, (%s, _), (_, %s) = [4, (5, 6), (7, 8)]', '%s = %s = 3', '%s .= str' if False else '%s max= 2', 'let q = %s', "print(%s)"])

    def fill(t):
        c = t.count('%s')
        return t % tuple(r.sample(names, c)) if c else t
    out = ''
    fs = []
    for i in range(r.randint(1, 3)):
        k = r.random()
        body = '\n'.join('  ' + fill(pat()) for _ in range(r.randint(1, 2)))
        if k < .6:
            out += 'fn f%d() {\n%s\n}\n' % (i, body)
            fs.append('f%d()' % i)
        elif k < .8:
            out += 'let f%d = fn() {\n%s\n}\n' % (i, body)
            fs.append('f%d()' % i)
        else:
            out += 'module M%d {\n  fn f() {\n%s\n  }\n}\n' % (i, body)
            fs.append('M%d->f()' % i)
    calls = [r.choice(fs) for _ in range(r.randint(1, 3))]
    decl = list(names)
    r.shuffle(decl)
    for d in decl:
        if r.random() < .3 and calls:
            out += calls.pop() + '\n'
        out += r.choice(['let %s = 0\n', 'let %s\n', 'let %s = 10\n', "let %s = 'a'\n"]) % d
    for c in calls + [r.choice(fs)]:
        out += c + '\nprint(%s)\n' % ', '.join(names)
    if r.random() < .4:
        out = 'fn main() {\n' + out + '}\nmain()\n'
    return Case(out, lines=False)


add('C02', ('stores to names declared later', forever(late_stores), 1500))

# ---------------------------------------------------------------- C04: sections of every operator on both sides; annotations
SOP = ['+', '*', '/', '%', '**', '<<', '>>', '&', '|', '^', '<', '<=', '>', '>=', '==', '!=', 'is', 'is not', 'in', 'not in', 'and', 'or', '-']
SARG = ['2', '3', '[1, 2]', "'ab'", 'int', 'str', '{1, 2}', 'nil', 'true', '0', '(1, 2)', 'list', "{2: 3}"]


def sections(r, ctx):
    for o, a, b in shuffled(r, itertools.product(SOP, SARG, SARG)):
        k = r.randint(0, 5)
        if o in ('and', 'or') and k != 5:
            k = 5
        if o == '*' and a == b and False:
            continue
        ops = [('(%s %s)(%s)' % (o, a, b)), ('(%s %s)(%s)' % (a, o, b)) if o != '-' else '(%s)(%s, %s)' % (o, a, b), '(%s)(%s, %s)' % (o, a, b), '(%s)(%s)(%s)' % (o, a, b), '[%s] . map((%s %s))' % (b, o, a), '%s %s %s' % (a, o, b)]
        if o == '-' and k in (0, 4):
            continue
        e = ops[k]
        yield Case('print(%s)\n' % e)
        if k in (0, 1) and r.random() < .3 and '**' not in o:
            yield Case('let f = %s\nprint(f)\nprint(f(%s), f(%s))\nprint(f(%s, 1))\n' % ((ops[k][:ops[k].index(')(') + 1]), b, r.choice(SARG), b))


def annotations(r):
    """functions and structs with several annotations, in every order"""
    pre = "fn d1(f) { print('d1') ; fn(*a) { print('in d1') ; f(...a) } }\nfn d2(f) { print('d2') ; fn(*a) { print('in d2') ; f(...a) } }\nfn keep(f) { regs . push(f) ; f }\nfn mk(n) { print('mk', n) ; fn(f) -> fn(*a) -> (n, f(...a)) }\nlet regs = []\n"
    ann = lambda: '@' + r.choice(['d1', 'd2', 'keep', 'mk(%d)' % r.randint(0, 3), 'memoize', '(fn(f) -> fn(*a) -> [f(...a)])', '(d1 . mk(1))' if False else '(d1)', '(fn(f) -> 7)' if r.random() < .2 else 'd1', '5' if r.random() < .1 else 'd2'])
    seps = lambda: '\n'
    anns = ''.join(ann() + seps() for _ in range(r.randint(1, 3)))
    k = r.random()
    f = r.choice(['fn f(x) -> (x, 1)', 'fn f(x, y = 2) { print(x) ; (x, y) }', 'fn f(*x) -> x'])
    if k < .5:
        src = anns + f + '\nprint(f(1))\nprint(f(1))\nprint(f(2, 3))\n'
    elif k < .7:
        src = 'fn outer(k) {\n' + anns + f.replace('(x, 1)', '(x, k)') + '\nf\n}\nlet g = outer(9)\nprint(g(1), g(1))\nprint(outer(8)(1))\n'
    else:
        src = anns + 'struct S(x)\nprint(S)\n' if False else anns + 'fn f(x) -> if x == 0 then 0 else f(x - 1)\nprint(f(2))\n'
    return pre + src + 'print(len(regs))\n'


add('C04', ('sections of every operator', sections, 2500), ('annotated functions', forever(annotations), 800))
