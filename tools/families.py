"""For each property, the families of programs by which it is decided.

A family only chooses programs; what they must do is the specification's business (spec/)."""
import itertools, math, random
import gen, values
from check import Case, run_families
from values import lit, STRS, UNIVERSE, UPRE, PRE

REGISTRY = {}


class Property:
    level = 'model_checking'

    def __init__(self, pid, rule, *fams):
        """fams: (name, function(rng, ctx) -> iterator, batch size, fuel)"""
        self.pid, self.rule, self.fams = pid, rule, fams
        REGISTRY[pid] = self

    def run(self, ctx):
        live = []
        for i, f in enumerate(self.fams):
            name, fn, size = f[:3]
            rng = random.Random('%s/%s/%d/%s' % (self.pid, name, ctx.seed, ctx.tier))
            live.append((name, fn(rng, ctx), size, f[3] if len(f) > 3 else 60000))
        run_families(ctx, live)


def forever(fn):
    """a family of independent random programs"""
    def it(rng, ctx):
        while True:
            yield fn(rng)
    return it


def shuffled(rng, it):
    xs = list(it)
    rng.shuffle(xs)
    return xs


def profile(**prof):
    return forever(lambda r: gen.program(r, **prof))


def mixed(*profs):
    return forever(lambda r: gen.program(r, **r.choice(profs)))


# ---------------------------------------------------------------- C01
def skeleton(r, depth, size, infn=False):
    """control constructs whose decisions come from a list, so that a random list is a random path"""
    st = {'n': 0, 'left': size}

    def num():
        st['n'] += 1
        return st['n']

    def cond():
        k = r.random()
        if k < .6:
            return 'c(%d)' % num()
        if k < .7:
            return '(c(%d) and c(%d))' % (num(), num())
        if k < .8:
            return '(c(%d) or c(%d))' % (num(), num())
        if k < .9:
            return '(not c(%d))' % num()
        return '(if c(%d) then c(%d) else c(%d))' % (num(), num(), num())

    def guard(ind):
        return ind + 'if not %s { break }\n' % ('c(%d)' % num())

    def block(d, ind, loops, cont, head=''):
        out = '{\n' + head
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            out += stmt(d, ind + '  ', loops, cont)
        return out + ind + '}'

    def stmt(d, ind, loops, cont):
        st['left'] -= 1
        opts = ['p', 'p', 'e']
        if d > 0 and st['left'] > 0:
            opts += ['if', 'if', 'while', 'dow', 'do', 'loop', 'for', 'for', 'expr']
        if loops:
            opts += ['brk', 'brk']
        if infn:
            opts += ['ret']
        k = r.choice(opts)
        if k == 'p':
            return ind + 'print(%d)\n' % num()
        if k == 'e':
            return ind + r.choice(['c(%d)', 'c(%d);', ';', 'x = %d', 'x += %d', 'print(x = %d)']).replace('%d', str(num())) + '\n'
        if k == 'expr':
            return ind + 'print(if %s then %s else %s)\n' % (cond(), r.choice(['x', str(num())]), r.choice(['(x = %d)' % num(), 'nil']))
        if k == 'ret':
            return ind + 'if c(%d) { return %s }\n' % (num(), r.choice(['', 'x', str(num())]))
        if k == 'brk':
            w = 'break' if not cont or r.random() < .5 else 'continue'
            return ind + (r.choice(['if %s { %s }\n' % (cond(), w), 'if %s { print(%d) %s }\n' % (cond(), num(), w), w + '\n',
                                    'if %s { %s } else { print(%d) }\n' % (cond(), w, num())]))
        els = ''
        if k == 'if':
            out = ind + 'if %s %s' % (cond(), block(d - 1, ind, loops, cont))
            while r.random() < .3:
                out += ' elif %s %s' % (cond(), block(d - 1, ind, loops, cont))
            if r.random() < .5:
                out += ' else ' + block(d - 1, ind, loops, cont)
            return out + '\n'
        if r.random() < .45 and k != 'loop':
            els = ' else ' + block(d - 1, ind, loops, cont)
        g = guard(ind + '  ')
        if k == 'while':
            return ind + 'while %s %s%s\n' % (cond() if r.random() < .5 else 'c(%d)' % num(), block(d - 1, ind, True, True, g), els)
        if k == 'loop':
            return ind + 'loop %s\n' % block(d - 1, ind, True, True, g)
        if k == 'do':
            return ind + 'do %s%s ;\n' % (block(d - 1, ind, True, True, g), els)
        if k == 'dow':
            return ind + 'do %s while %s%s\n' % (block(d - 1, ind, True, True, g), cond(), els)
        v = 'i%d' % num()
        it = r.choice(['range(3)', 'range(0)', '[1, 2]', "'ab'", '[]', '{3, 1}', '{1: 2}', '(4, 5, 6)', 'range(3, 0, -1)', 'range(1, 9, 3)', 'range(0, 5, 2)', 'enumerate([7, 8])', '[1, 2, 3] . map(c)'])
        return ind + 'for %s in %s %s%s\n' % (v, it, block(d - 1, ind, True, True, ind + '  print(%s)\n' % v), els)
    body = ''.join(stmt(depth, '  ' if infn else '', False, False) for _ in range(r.randint(1, 3)))
    bits = ', '.join(r.choice(['true', 'true', 'false']) for _ in range(r.randint(0, 14)))
    pre = 'let ds = [%s], x = 0\nfn c(k) { print(k) ; if ds then pop_front(ds) else false }\n' % bits
    if infn:
        pre += 'fn main() {\n%s}\nprint(main(), x)\nprint(main())\n' % body
    else:
        pre += ('do {\n%s}\n' % ''.join('  ' + l + '\n' for l in body.splitlines()) if r.random() < 0 else body) + "print('end', x)\n"
    return pre


TRUTH = ['nil', 'true', 'false', '0', '1', '(-1)', "''", "'a'", '[]', '[0]', 'set()', '{0}', 'dict()', '{0: 0}', 'vector()', '(0, 0)', 'range(0)', 'range(1)', 'heap()', 'heap([0])',
         'print', '(0 + 1i)', 'rational(0)', 'rational(1)', 'P', 'P(0, 0)', 'enumerate([])', 'enumerate([0])', '(fn() -> 0)', '[0:1]', 'int', '(+)', '(+1)']


def truthiness(r, ctx):
    forms = ['print(if t(1, %s) then t(2, 1) else t(3, 2))', 'print(t(1, %s) and t(2, 5))', 'print(t(1, %s) or t(2, 5))', 'print(not t(1, %s))',
             'if t(1, %s) { print(1) } else { print(2) }', 'if t(1, false) { print(0) } elif t(2, %s) { print(1) } else { print(2) }',
             'while t(1, %s) { print(1) break } else { print(2) }', 'let n = 0\ndo { n += 1 ; if n > 2 { break } print(n) } while t(n, %s) else { print(9) }',
             'print(bool(%s))', 'print(t(1, 7) and t(2, %s) or t(3, 8))', 'print(any(bool, [%s]), all(bool, [%s]), filter(bool, [1, %s, 2]))',
             'print((if %s then 1 else 2), %s and 5, %s or 5, not %s)']
    for f in forms:
        for v in TRUTH:
            yield Case(PRE + 'fn t(k, v) { print(k) ; v }\n' + f.replace('%s', v))


def boolexpr(r):
    n = [0]

    def leaf():
        n[0] += 1
        return 't(%d, %s)' % (n[0], r.choice(['true', 'false', '0', '1', '2', '3', 'nil', "''", "'a'", '[]']))

    def cmpleaf():
        n[0] += 1
        return 't(%d, %s)' % (n[0], r.choice(['0', '1', '2', '3']))

    def e(d):
        k = r.random()
        if d == 0 or k < .15:
            return leaf()
        if k < .35:
            return '(%s and %s)' % (e(d - 1), e(d - 1))
        if k < .55:
            return '(%s or %s)' % (e(d - 1), e(d - 1))
        if k < .65:
            return '(not %s)' % e(d - 1)
        if k < .78:
            return '(if %s then %s else %s)' % (e(d - 1), e(d - 1), e(d - 1))
        m = r.randint(2, 5)
        ops = [r.choice(['<', '<=', '>', '>=', '==', '!=']) for _ in range(m - 1)]
        out = cmpleaf()
        for o in ops:
            out += ' %s %s' % (o, cmpleaf())
        return '(%s)' % out
    flat = r.random() < .3
    x = e(r.randint(2, 4))
    if flat:
        # without brackets: precedence of and / or / comparisons
        m = r.randint(2, 6)
        x = leaf()
        for _ in range(m):
            x += ' %s %s' % (r.choice(['and', 'or', '<', '==', '!=', '>=']), cmpleaf())
        x = '(%s)' % x if False else x
    return 'fn t(k, v) { print(k) ; v }\n' + r.choice(['print(%s)\n', 'if %s { print(true) } else { print(false) }\n', 'let x = %s\nprint(x)\n', 'fn f() -> %s\nprint(f())\n', 'while %s { print(1) break }\n']) % x


CONTROL = dict(depth=2, size=26)
Property('C01', 'a program is one nest of control constructs with visible side effects; non-trivial when distinct from every other program of the run',
         ('decision lists through nested constructs', forever(lambda r: skeleton(r, r.choice([2, 3, 3, 4]), r.choice([8, 14, 20]), r.random() < .4)), 1500),
         ('truthiness of every kind of value in every test', truthiness, 1500),
         ('short circuits and chained comparisons', forever(boolexpr), 1500),
         ('random programs', mixed(dict(CONTROL), dict(CONTROL, trace=0.1, depth=3, fn=0), dict(CONTROL, errors=0, loop=5, dow=5, for_=6, brk=8)), 300))


# ---------------------------------------------------------------- C07
EDGE = sorted({s * n for n in [0, 1, 2, 3, 5, 7, 10, 31, 32, 62, 63, 64, 65, 100, 255, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53,
                               3037000499, 3037000500, 2**61 - 1, 2**61, 2**61 + 1, 2**62 - 2, 2**62 - 1, 10**18, 0x2AAAAAAAAAAAAAAA] for s in (1, -1)} | {-2**62})
SOME = [0, 1, -1, 2, -2, 3, -7, 10, 62, 63, 64, 2**31, -2**31 - 1, 2**32 - 1, 2**61, -2**61, 2**62 - 1, -2**62, -2**62 + 1]
IOPS = ['+', '-', '*', '/', '%', '**', '<<', '>>', '&', '|', '^', '<', '<=', '>', '>=', '==', '!=']
IFUN1 = ['abs', 'hex', 'bin', 'str', 'repr', 'sqrt', 'real', 'imag', 'bool', 'int', 'numer', '-', '!', 'not ', 'count_ones']


def ints(n):
    return ', '.join(lit(x) for x in n)


def arith(a, b, fn):
    """every operator on one pair; an error is caught by having the rest in another program"""
    return Case('let a = %s, b = %s\n%s' % (lit(a), lit(b), fn))


def int_pairs(r, ctx):
    ok = ''.join('print(a %s b, a %s %s, %s %s b)\n' % (o, o, '%B', '%A', o) for o in IOPS if o not in ('/', '%', '**', '<<', '>>'))
    ok += 'print(gcd(a, b), %L, min(a, b), max(a, b), sort(a, b), sum(a, b))\n'
    ok += 'let c = a\nc += b\nlet d = a\nd -= b\nlet e = a\ne *= b\nlet f = a\nf &= b\nf |= c\nf ^= d\nlet g = a\ng max= b\ng min= c\nprint(c, d, e, f, g, a)\n'
    for a, b in shuffled(r, itertools.product(EDGE, EDGE)):
        yield Case('let a = %s, b = %s\n%s' % (lit(a), lit(b), ok.replace('%A', lit(a)).replace('%B', lit(b)).replace('%L', 'lcm(a, b)' if abs(a * b) < 2**62 * (math.gcd(a, b) or 1) else '0')))
        yield Case('let a = %s, b = %s\n' % (lit(a), lit(b)) + 'let q = a / b, m = a %% b\nprint(q, m, b * q + m == a, %s / b, a %% %s)\nlet c = a\nc /= b\nlet d = a\nd %%= b\nprint(c, d, (/b)(a), (a /)(b))\n' % (lit(a), lit(b)))
        if abs(b) <= 300 or r.random() < .2:
            yield Case('let a = %s, b = %s\n' % (lit(a), lit(b)) + 'print(a << b, a >> b, (a << b) >> b)\nlet c = a\nc <<= b\nlet d = a\nd >>= b\nprint(c, d, %s << b, a >> %s)\n' % (lit(a), lit(b)))
            yield Case('let a = %s, b = %s\n' % (lit(a), lit(b)) + 'print(a ** b)\nlet c = a\nc **= b\nprint(c, %s ** b, a ** %s)\n' % (lit(a), lit(b)))


def int_unary(r, ctx):
    for a in shuffled(r, EDGE):
        yield Case('let a = %s\n' % lit(a) + ''.join('print(%s)\n' % e for e in
                   ['-a', '!a', 'not a', 'abs(a)', 'hex(a)', 'bin(a)', 'str(a)', 'repr(a)', 'real(a)', 'imag(a)', 'bool(a)', 'int(a)', 'count_ones(a)',
                    "'%d|%x|%b|%s' % (a, a, a, a)", "'%020d|%20d|%020x|%020b' % (a, a, a, a)", 'rational(a)', 'typeof(a)', 'a is int, a is complex, a is rational',
                    '-%s' % lit(a), '!%s' % lit(a), '(-)(a), (!)(a)', 'int(str(a)) == a', 'int(hex(a), 16) == a, int(bin(a), 2) == a', 'a .abs, a .str .len']))
        yield Case('let a = %s\nprint(sqrt(a))\nprint(sqrt(a) ** 2 <= a, (sqrt(a) + 1) ** 2 > a)\n' % lit(a))
        if a < 0:
            yield Case('print(count_zeros(%s))\n' % lit(a))


def any_int(r):
    k = r.random()
    if k < .3:
        return r.choice(EDGE)
    n = r.getrandbits(r.randint(1, 62))
    return -n if r.random() < .5 else n


def int_random(r):
    a, b, c = any_int(r), any_int(r), any_int(r)
    e = []
    for _ in range(6):
        def t(d):
            if d == 0 or r.random() < .2:
                return r.choice(['a', 'b', 'c', lit(any_int(r)), lit(r.choice(SOME))])
            o = r.choice(['+', '-', '*', '&', '|', '^', '+', '-', '*', '/', '%', '<<', '>>', '**', 'u', 'f', 'g'])
            if o == 'u':
                return '(%s%s)' % (r.choice('-!'), t(d - 1))
            if o == 'f':
                return '%s(%s, %s)' % (r.choice(['gcd', 'gcd', 'min', 'max']), t(d - 1), t(d - 1))
            if o == 'g':
                return 'abs(%s)' % t(d - 1)
            if o in ('/', '%'):
                return '(%s %s (%s | 1))' % (t(d - 1), o, t(d - 1))
            if o in ('<<', '>>', '**'):
                return '(%s %s %d)' % (t(d - 1), o, r.choice([0, 1, 2, 3, 5, 31, 32, 61, 62, 63, 64, 70]))
            return '(%s %s %s)' % (t(d - 1), o, t(d - 1))
        e.append('print(%s)\n' % t(r.randint(1, 4)))
    return 'let a = %s, b = %s, c = %s\n%s' % (lit(a), lit(b), lit(c), ''.join(e))


def bool_ints(r, ctx):
    vs = ['true', 'false', '0', '1', '2', '(-1)', 'max(int)', 'min(int)', "'a'", 'nil', '[1]']
    for o in IOPS:
        for a in vs:
            for b in vs:
                if ('true' in (a, b) or 'false' in (a, b)):
                    yield Case('let a = %s, b = %s\nprint(a %s b)\nprint(%s %s %s)\n' % (a, b, o, a, o, b))
    for f in IFUN1:
        for a in ['true', 'false', "'x'", 'nil', '[]']:
            yield Case('let a = %s\nprint(%s(a))\n' % (a, f))
            yield Case('print(%s(%s))\n' % (f, a))
    for f in ['gcd', 'lcm', 'sum', 'min', 'max', 'range']:
        for a, b in itertools.product(['true', 'false', '4', '(-6)', "'x'", 'nil'], repeat=2):
            yield Case('print(%s(%s, %s))\n' % (f, a, b))


def int_texts(r, ctx):
    """integer literals in every base, int() of texts, hex() and bin() of texts"""
    for n in shuffled(r, [x for x in EDGE if x >= 0]):
        yield Case('print(%d, 0x%x, 0x%X, 0b%s, %s)\n' % (n, n, n, bin(n)[2:], '_'.join(str(n))))
        yield Case("print(int('%d'), int('-%d'), int('%x', 16), int('%s', 2))\n" % (n, n, n, bin(n)[2:]))
    texts = ['', '0', '-0', '+5', '-5', ' 5', '5 ', '1_000', '0x10', '0b11', 'ff', 'FF', 'z', '-', '+', '--5', '1.5', '12a', '00012', '4611686018427387903', '-4611686018427387904', 'é', '٣']
    for t in texts:
        yield Case("print(int('%s'))\n" % t)
        for b in (2, 3, 8, 10, 16, 36, 1, 0, 37, -1):
            yield Case("print(int('%s', %s))\n" % (t, lit(b)))
        yield Case("print(hex('%s'))\n" % t)
        yield Case("print(bin('%s'))\n" % t)


Property('C07', 'operators and functions on integers from the boundaries of the 63-bit range; each program is one pair or expression',
         ('pairs of boundary integers under every operator', int_pairs, 2500),
         ('unary operators and functions on boundary integers', int_unary, 1000),
         ('booleans as integers, wrong types', bool_ints, 2500),
         ('texts of integers', int_texts, 1000),
         ('random expressions', forever(int_random), 2000))


# ---------------------------------------------------------------- C08
def universe_pairs(r, ctx):
    for a, b in shuffled(r, itertools.product(UNIVERSE, UNIVERSE)):
        yield Case(UPRE + 'let a = %s, b = %s\nprint(a == b, a != b, a < b, a <= b, a > b, a >= b)\nprint(min(a, b), max(a, b), sort(a, b))\n' % (a, b)
                   + 'print(len({a, b}), b in {a}, b in [a], {a: 1, b: 2})\nprint([a] == [b], [a] < [b], (a, 1) == (b, 1), (a, 1) < (b, 2))\nprint(index_of(b, [a]), find(b, [a]), counter([a, b]), remove(b, {a}))\n')


def mutate(r, t):
    """an expression text changed a little"""
    import re
    toks = re.findall(r"'[^']*'|\d+|\w+|\s+|.", t)
    idx = [i for i, x in enumerate(toks) if x.isdigit() or x[0] == "'" or x in ('true', 'false', 'nil')]
    if not idx:
        return t
    i = r.choice(idx)
    toks[i] = r.choice(['0', '1', '2', "'a'", "''", 'true', 'false', 'nil', toks[i]]) if 'i' not in toks[i + 1:i + 2] else '1'
    return ''.join(toks)


def value_triples(r):
    a = values.value(r, 3)
    b = mutate(r, a) if r.random() < .8 else values.value(r, 3)
    c = mutate(r, b) if r.random() < .8 else values.value(r, 3)
    return PRE + 'let a = %s, b = %s, c = %s\n' % (a, b, c) + \
        'print(a == b, b == c, a == c, a < b, b < c, a < c, a <= b, b <= c, a >= c, a > c)\n' + \
        r.choice(['print(sort(a, b, c))\n', 'print(sort([c, b, a]))\n', 'print(min(a, b, c), max(a, b, c))\n', 'print(min_by(fn(x) -> x, [a, b, c]))\n', '']) + \
        'print(len({a, b, c}), {a: 1, b: 2, c: 3}, counter([a, b, c]))\n' + \
        r.choice(['print(set([a, b]) == set([b, a]), {a: 1, b: 2} == {b: 2, a: 1})\n',
                  'print(a in [b, c], a in {b, c}, a in {b: 1, c: 2}, a in (b, c))\n', 'print({a: 1}[b])\n', 'let s = {a}\nprint(remove(b, s), s)\n', 'print(group_by(fn(x) -> x, [a, b, c]))\n',
                  'print(memoize(fn(x) { print(0) ; x }) . fn(m) -> [m(a), m(b), m(c)])\n'])


def sort_random(r):
    k = r.choice(['int', 'str', 'list', 'mix', 'num', 'struct'])
    seq = r.choice(['[%s]', 'vector([%s])'])
    def v():
        if k == 'int':
            return lit(r.choice([r.randint(-5, 5), any_int(r)]))
        if k == 'str':
            return "'%s'" % ''.join(r.choice('aAbBé0 ') for _ in range(r.randint(0, 4)))
        if k == 'list':
            return seq % ', '.join(lit(r.randint(-2, 2)) for _ in range(r.randint(0, 3)))
        if k == 'num':
            return r.choice(['true', 'false', '0', '1', '2', 'rational(1, 2)', 'rational(3, 2)', 'rational(-1, 3)', 'rational(4, 2)'])
        if k == 'struct':
            return 'P(%d, %d)' % (r.randint(0, 2), r.randint(0, 2))
        return values.scalar(r)
    xs = ', '.join(v() for _ in range(r.randint(0, 9)))
    if k == 'mix':
        xs = ', '.join(v() for _ in range(2))
    return PRE + 'let x = [%s]\nprint(sort(x), x)\nif x { print(min(x), max(x)) }\n%sprint(reverse(sort(x)))\nprint(set(x), counter(x), len(set(x)))\n' % (xs, '' if k in ('num', 'mix') else 'let h = heap(x)\nlet out = []\nwhile h { out . push(pop(h)) }\nprint(out)\n')


Property('C08', 'pairs and triples of values, compared, sorted and used as keys; each program is one pair or triple',
         ('all pairs of representative values', universe_pairs, 2100),
         ('triples of similar random values', forever(value_triples), 2500),
         ('sorting', forever(sort_random), 1200))
import fam_func, fam_calls, fam_data, fam_text, fam_prog, fam_ffi, fam_static, fam_eval, fam_repl, fam_show, fam_parse, fam_more
