"""Families about collections, indexing, iteration and the library (C09 - C13)."""
import itertools, random
import gen, values
from check import Case
from families import Property, forever, shuffled, mixed
from values import lit, STRS, PRE


def some(f):
    def g(r):
        while True:
            x = f(r)
            if x is not None:
                return x
    return g


def histories(pre, ops, n, post, wrap=None):
    """every history of exactly n operations; each is printed with the state after it"""
    def it(r, ctx):
        hs = list(itertools.product(ops, repeat=n))
        r.shuffle(hs)
        for h in hs:
            body = ''.join('print(%s)\nprint(%s)\n' % (o, post) for o in h)
            yield Case(pre + body)
    return it


# ---------------------------------------------------------------- C09
ELEMS = ['0', '1', '2', '3', '5', '-1', "'a'", "'b'", '[7]', 'nil', 'true', '(1, 2)']
LPRE = 'let a = [3, 1, 2], b = a, c = copy(a)\n'
LOPS = ['a . push(4)', 'a . push_front(5)', 'pop(b)', 'pop_front(a)', 'a . insert(1, 6)', 'b . remove(0)', 'a[0] = 7', 'b[-1] += 1', 'sort(a)', 'reverse(b)', 'a = a + [8]', 'clear(b)', 'a = c', 'b . sort_by(fn(x, y) -> y - x)', 'c = a[:]', 'push(b, a)' if False else 'b . push(len(b))']


def lists(r):
    """a random history over a few lists which alias, contain and copy one another"""
    names = ['a', 'b', 'c', 'd']
    out = 'let a = %s, b = %s, c = a, d = [b]\n' % (seqlit(r), seqlit(r))
    safe = {'d'}
    err = r.random() < .25
    n = r.randint(2, 14)
    for i in range(n):
        x, y = r.choice(names), r.choice(names)
        e = r.choice(ELEMS)
        bad = err and r.random() < .2
        idx = r.choice(['0', '-1', '1', '2', '(-2)', 'len(%s)' % x, '9', "'k'", '-9']) if bad else r.choice(['0', '0', '-1', 'len(%s) - 1' % x, 'len(%s) / 2' % x])
        k = r.choice([i for i in range(28) if i != 25])
        g = lambda s: ('if %s { %s }' % (x, s)) if not bad else s
        if k <= 3:
            st = 'print(%s . push(%s))' % (x, e)
        elif k == 4:
            st = 'print(%s . push_front(%s))' % (x, e)
        elif k == 5:
            st = g('print(pop(%s))' % x)
        elif k == 6:
            st = g('print(pop_front(%s))' % x)
        elif k == 7:
            st = 'print(%s . insert(%s, %s))' % (x, r.choice(['0', 'len(%s)' % x, '0', '-1', '7', '(-8)'] if bad else ['0', 'len(%s)' % x, '0']), e)
        elif k == 8:
            st = g('print(%s . remove(%s))' % (x, idx))
        elif k == 9:
            st = g('print(%s[%s] = %s)' % (x, idx, e))
        elif k == 10:
            st = 'print(sort(%s . filter(is int)), reverse(%s))' % (x, x)
        elif k == 11:
            st = '%s = %s' % (x, r.choice([y, 'copy(%s)' % y, '%s[:]' % y, '%s + %s' % (x, y), 'list(%s)' % y, '%s * 2' % y if len(out) < 300 else y, '[%s, %s]' % (e, r.choice(ELEMS))]))
        elif k == 12:
            st = 'print(clear(%s))' % x if r.random() < .4 else 'print(len(%s))' % x
        elif k == 13:
            st = 'print(%s == %s, %s < %s, %s in %s)' % (x, y, x, y, e, x)
        elif k == 14:
            st = 'print(%s . find(%s), %s . index_of(%s), %s . rindex_of(%s))' % (x, '(== %s)' % e, x, e, x, e)
        elif k == 15:
            st = 'for q in %s { if len(%s) < 9 and q is int { %s . push(%s) } ; print(q) }' % (x, y, y, r.choice(['q', e]))
        elif k == 16:
            st = 'let f%d = fn(l) { l . push(%s) ; l = [9] ; l }\nprint(f%d(%s))' % (i, e, i, x)
        elif k == 17:
            st = g('%s[0], %s[-1] = %s[-1], %s[0]' % (x, x, x, x)) if False else 'print(%s . map(fn(q) -> [q]))' % x
        elif k == 18:
            st = 'print(%s . map(fn(q) { %s . push(%s) ; q }) . len)' % ('copy(%s)' % x, y, e) if r.random() < .5 else 'print(%s . reduce(fn(p, q) -> [p, q]))' % x if bad else 'print(len(%s))' % x
        elif k == 19:
            st = '%s += [%s]' % (x, e)
        elif k == 20:
            st = 'print(%s . concat)' % x if bad else 'print(%s . zip(%s))' % (x, y)
        elif k == 21:
            st = 'print(%s[%s:%s])' % (x, r.choice(['', '0', '1', '-2']), r.choice(['', '2', '-1', '9']))
        elif k == 22:
            st = 'print(%s . unique)' % x if False else 'print(set(%s))' % x if bad else 'print(%s . enumerate)' % x
        elif k == 23:
            st = 'let v%d = vector(%s)\nprint(v%d)' % (i, x, i)
        elif k == 24 and bad:
            st = r.choice(['print(nil . push(1))', 'print(%s . insert(%s, 1))' % (x, "'q'"), 'print(pop([]))', 'print(max([]))', 'print(pop_front([]))', '%s[1:] = 2' % x if False else 'print(sort(5))', 'print((1,) . push(2))', 'print(%s[nil])' % x, "print('ab' . push('c'))", 'print([1, 2] . remove(2))', 'range(3)[0] = 2', "'abc'[0] = 'z'"])
        elif k == 25:
            st = g('%s[0] = %s[-1] = %s' % (x, x, e))
        else:
            st = 'print(%s)' % ', '.join(names)
        out += st + '\nprint(a, b, c, d)\n'
    if 'push(a)' in out or True:
        pass
    if r.random() < .2:
        out = 'fn main() {\n' + out + '}\nmain()\n'
    return out


def seqlit(r, n=4):
    return '[%s]' % ', '.join(r.choice(ELEMS) for _ in range(r.randint(0, n)))


VECS = ['(1, 2)', '(3, 4)', '(0, -1)', '(1, 2, 3)', 'vector()', 'vector([5])', "('a', 2)", '((1, 2), 3)', '([1], 2)', '(true, 4)', '(1, (2, 3))', 'vector(range(3))', '(nil, 1)', '(6, 0)']
VOPS = ['+', '-', '*', '/', '%', '**', '<<', '>>', '&', '|', '^', '==', '<', '>=', '!=', 'and']


def vectors(r, ctx):
    """every pair of vectors, and of a vector with a scalar, under every operator"""
    ot = ['2', '0', "'a'", 'nil', '[1, 2]', 'true', '3', '(-2)', '{1, 2}', '(1 + 2i)', 'rational(1, 2)']
    ps = [(a, o, b) for a in VECS for b in VECS + ot for o in VOPS] + [(b, o, a) for a in VECS for b in ot for o in VOPS]
    r.shuffle(ps)
    for a, o, b in ps:
        yield Case('print(%s %s %s)\n' % (a, o, b))
    for a in VECS:
        for o in '-!~':
            yield Case('print(%s%s)\n' % (o, a))
        yield Case('let v = %s, w = v\nprint(v[0] = 9, v, w)\nv += v\nprint(v, w)\n' % a)
        yield Case('let v = %s\nv . push(1)\nprint(v)' % a)
        for f in ('len', 'list', 'set', 'sum', 'max', 'sort', 'reverse', 'abs', 'vector', 'pop', 'clear', 'copy', 'str', 'repr', 'bool'):
            yield Case('let v = %s, w = v\nprint(v . %s)\nprint(v, w)\n' % (a, f))


MUTS = [('[1, 2]', ['e[0] = 9', 'e . push(9)', 'pop(e)', 'e += [8]']), ('(1, 2)', ['e[0] = 9', 'e += 1']), ('{1, 2}', ['e . push(9)', 'e . remove(1)']), ('{1: 2}', ['e[7] = 8', 'e[1] = 0']), ('heap([1])', ['push(0, e) ; pop(e)', 'pop(e)']), ('P(1, 2)', ['e->x = 9']),
        ('[[1], 2]', ['e[0][0] = 9', 'e[0] . push(4)']), ('[(1, 2)]', ['e[0][1] = 7'])]
CONTS = ['[e]', '[e, e]', '[0, e]', '(e, 3)', 'vector([e, e])', '{1: e}', "{'a': e, 'b': e}", '[[e]]', 'P(e, 3)', '[e, 4, 5]', '[(e, e)]', 'enumerate([e])']
SHARE = ['s', 'copy(s)', '[s]', 's + [6]', '[6] + s', 's + s', 's * 2', '2 * s', 's ** 2', 's[:]', 's[::-1]', 's[0]', 'list(s)', 'vector(s)', 'reverse(s)', 'sort(s)', 's . filter(fn(x) -> true)', 's . map(fn(x) -> x)', 's . map(fn(x) -> [x])',
         's . zip(s)', 'enumerate(s)', 's . enumerate . list', 's . flat_map(fn(x) -> [x, x])', 's . concat', 's . group_by(1)', 's . group_by(fn(x) -> 1)', 's . reduce(fn(x, y) -> y)', 's . find(fn(x) -> x is not int)', 's . combinations(1)', 's . permutations(1)', 'values(s)', 'dict([[1, s]])',
         '[...s]', '(fn(*a) -> a)(...s)', '(fn(a, b = s) -> b)(1)', 's is list and s or 5', 'if s then s else 0', '(s, s)', '{1: s}', 'P(s, s)', 's->x', 's . [0]', 's . pop', 'max([s])', 'min_by(fn(x) -> 1, [s])', '[s] . sort_by(fn(x) -> 1)', 's . sort_by(fn(x) -> 1)', 's . min_by(fn(x) -> 1)', 'memoize(fn() -> s)()', 'dict() . default(s) . (fn(d) -> d[1])', "s . push(4)", "s . insert(0, 4)", 's . peek', 's . join(1)', 's . iterable', 'copy([s, s])', 'copy((s, e))', 'copy({1: s})', 'copy(P(s, e))']


def sharing(r, ctx):
    """what every way of deriving a value shares with its source: the element and the container are changed afterwards"""
    for (e, ms), c, x in shuffled(r, itertools.product(MUTS, CONTS, SHARE)):
        m = r.choice(ms)
        t = r.choice(['s[0] = 77', 's . push(77)', 'pop(s)', 's[1] = 77', 's->y = 77', 's += s'])
        u = r.choice(['r[0] = 88', 'r . push(88)', 'pop(r)', 'r[-1] = 88', 'r->x = 88'])
        if e.startswith('heap') and 'sort' in x or 'join' in x and 'heap' in e:
            continue
        yield Case(PRE + 'let e = %s\nlet s = %s\nlet r = %s\n%s\nprint(r, s, e)\n%s\nprint(r, s, e)\n' % (e, c, x, m, r.choice([t, u])))


Property('C09', 'a program is one history of operations on lists that alias and contain one another; non-trivial when distinct',
         ('every history of two operations on aliased lists', histories(LPRE, LOPS, 2, 'a, b, c'), 1000),
         ('random histories over nested and aliased lists', forever(lists), 1000),
         ('what derived values share with their source', sharing, 2500),
         ('vector arithmetic', vectors, 2000),
         ('every history of three operations on aliased lists', histories(LPRE, LOPS, 3, 'a, b, c'), 1500))

# ---------------------------------------------------------------- C10
KEYS = ['1', '2', '0', '-1', "'a'", "'b'", '(1, 2)', 'nil', 'true', 'false', 'rational(1)', 'rational(1, 2)', '(1 + 2i)', "'é'", '[1]', '{1, 2}', '{2, 1}', 'P(1, 2)', '{1: 2}', '3', '65', '129', 'vector([1, 2])', "''"]
SPRE = 'let a = {3, 1, 2}, b = a, c = {2, 9}\n'
SOPS = ['a . push(4)', 'a . push(1)', 'a . remove(1)', 'b . remove(3)', 'a . union(c)', 'c . union(a)', 'a . difference(c)', 'a . intersect(c)', 'clear(b)', '1 in a', 'len(b)', 'a = copy(a)', 'c . push(1)', 'pop(a)', 'list(b)', 'a == c']
DPRE = "let a = {'x': 1, 'y': 2}, b = a, c = {'y': 5}\n"
DOPS = ["a['x'] = 4", "b['z'] = 5", "a . remove('x')", "b . remove('y')", "a['x'] += 1", "a . insert('w', 3)", 'keys(a)', 'values(b)', 'clear(b)', "'x' in a", "a['q']", 'a = copy(b)', "c['x'] = 6", 'list(a)', 'a == c', "a = a . default(7)", "a . default(fn() -> [])"]


def setdict(r):
    """a random history over sets and dictionaries with keys of every type"""
    out = PRE
    kinds = {}
    for n in 'abcd':
        kinds[n] = r.choice('sd')
    pool = r.sample(KEYS, r.randint(3, 8))
    key = lambda: r.choice(pool)

    def new(k):
        ks = [key() for _ in range(r.randint(0, 5))]
        if k == 's':
            return ('{%s}' % ', '.join(ks)) if ks and r.random() < .6 else 'set([%s])' % ', '.join(ks)
        ps = ['%s: %d' % (q, r.randint(0, 9)) for q in ks]
        return ('{%s}' % ', '.join(ps)) if ps and r.random() < .6 else 'dict([%s])' % ', '.join('(%s, %d)' % (q, r.randint(0, 9)) for q in ks)
    for n in 'abcd':
        out += 'let %s = %s\n' % (n, new(kinds[n]))
    err = r.random() < .2
    for i in range(r.randint(2, 14)):
        x = r.choice('abcd')
        same = [y for y in 'abcd' if kinds[y] == kinds[x] and y != x]
        y = r.choice(same) if same else None
        q = key()
        bad = err and r.random() < .2
        if kinds[x] == 's':
            k = r.randint(0, 13)
            if k <= 2:
                st = 'print(%s . push(%s))' % (x, q)
            elif k <= 4:
                st = 'if %s in %s { print(%s . remove(%s)) }' % (q, x, x, q) if not bad else 'print(%s . remove(%s))' % (x, q)
            elif k <= 6 and y:
                st = 'print(%s . %s(%s))' % (x, r.choice(['union', 'intersect', 'difference']), y)
            elif k == 7:
                st = 'print(%s in %s, %s not in %s)' % (q, x, key(), x)
            elif k == 8 and y:
                st = '%s = %s' % (x, r.choice([y, 'copy(%s)' % y, 'set(list(%s))' % y, 'set(%s . map(fn(q) -> q))' % y]))
            elif k == 9:
                st = 'print(%s . len, list(%s), vector(%s))' % (x, x, x)
            elif k == 10 and y:
                st = 'print(%s == %s, %s != %s)' % (x, y, x, y)
            elif k == 11:
                st = 'for q in copy(%s) { if q is int { %s . push(q + 1) } }' % (x, x)
            elif k == 12:
                st = r.choice(['print(%s . filter(is int))' % x, 'print(%s . map(str))' % x, 'print(clear(%s))' % x, 'print([%s] in {[%s]})' % (x, x) if False else 'print(bool(%s))' % x])
            elif bad:
                st = r.choice(['print(%s[0])' % x, '%s[%s] = 1' % (x, q), 'print(%s . insert(0, 1))' % x, 'print(union(%s, 5))' % x, 'print(keys(%s))' % x])
            else:
                st = 'print(%s)' % x
        else:
            k = r.randint(0, 15)
            if k <= 3:
                st = 'print(%s[%s] = %s)' % (x, q, r.choice(['%d' % r.randint(10, 99), '[1]', x if False else 'nil']))
            elif k == 4:
                st = 'print(%s . insert(%s, %d))' % (x, q, r.randint(10, 99))
            elif k <= 6:
                st = 'if %s in %s { print(%s . remove(%s)) }' % (q, x, x, q) if not bad else 'print(%s . remove(%s))' % (x, q)
            elif k == 7:
                st = 'if %s in %s { print(%s[%s]) }' % (q, x, x, q) if not bad else 'print(%s[%s])' % (x, q)
            elif k == 8:
                st = 'print(keys(%s), values(%s), len(%s))' % (x, x, x)
            elif k == 9 and y:
                st = '%s = %s' % (x, r.choice([y, 'copy(%s)' % y, 'dict(list(%s))' % y, 'dict(%s)' % y]))
            elif k == 10:
                st = 'for k, v in copy(%s) { %s[v] = k }' % (x, x) if r.random() < .4 else 'for k, v in %s { print(k, v) }' % x
            elif k == 11 and y:
                st = 'print(%s == %s)' % (x, y)
            elif k == 12:
                st = 'if %s in %s { if %s[%s] is int { print(%s[%s] += 1) } }' % (q, x, x, q, x, q)
            elif k == 13:
                st = r.choice(['print(clear(%s))' % x, 'print(list(%s))' % x, 'print(%s . map(fn((k, v)) -> v))' % x, 'print(%s in %s)' % (q, x)])
            elif k == 14:
                st = 'let f%d = default(%s, %s)\nprint(f%d[%s], f%d)' % (i, r.choice(['7', '[]', "(fn() -> 'new')", 'nil']), 'copy(%s)' % x, i, q, i)
            elif bad:
                st = r.choice(['print(%s . push(3))' % x, 'print(union(%s, 5))' % x, 'print(%s < 3, %s . insert(1))' % (x, x), 'print(%s[[[nil]]])' % x])
            else:
                st = 'print(%s)' % x
        out += st + '\nprint(a, b, c, d)\n'
    if r.random() < .2:
        head, body = out[:len(PRE)], out[len(PRE):]
        out = head + 'fn main() {\n' + body + '}\nmain()\n'
    return out


def algebra(r):
    """set algebra over small sets and other iterables, checked through every observer"""
    def s():
        return 'set([%s])' % ', '.join(str(r.randint(0, 5)) for _ in range(r.randint(0, 5)))

    def it():
        return r.choice([s(), s(), s(), '[%s]' % ', '.join(str(r.randint(0, 5)) for _ in range(r.randint(0, 5))), 'range(%d)' % r.randint(0, 4), '(1, 2)', "{1: 2, 3: 4}", "'ab'"])
    fs = ['union', 'intersect', 'difference']
    return 'let a = %s, b = %s, c = %s\nprint(a . %s(b))\nprint(a)\nprint(a . %s(c) == c . %s(a))\nprint(a, b, c, len(a), list(a))\nprint((0 in a, 1 in a, 2 in a, 3 in a, 4 in a, 5 in a))\nprint(copy(a) . %s(b) . %s(c))\nprint(a, b, c)\n' % (
        s(), it(), s(), r.choice(fs), *(lambda f: (f, f))(r.choice(fs)), r.choice(fs), r.choice(fs))


def keypairs(r, ctx):
    """every pair of keys: does the second find the entry of the first"""
    for a, b in shuffled(r, itertools.product(KEYS, repeat=2)):
        yield Case(PRE + 'let d = {%s: 1}, s = {%s}\nd[%s] = 2\ns . push(%s)\nprint(d, s, %s in s, %s in d, d[%s])\nd . remove(%s)\nprint(d, len(d), %s in d)\n' % (a, a, b, b, a, a, a, b, a))


Property('C10', 'a program is one history of operations on sets and dictionaries; non-trivial when distinct',
         ('every pair of keys', keypairs, 600),
         ('every history of two operations on sets', histories(SPRE, SOPS, 2, 'a, b, c'), 1000),
         ('every history of two operations on dictionaries', histories(DPRE, DOPS, 2, 'a, b, c'), 1000),
         ('random histories over sets and dictionaries', forever(setdict), 1000),
         ('set algebra', forever(algebra), 1000),
         ('every history of three operations on sets', histories(SPRE, SOPS, 3, 'a, b, c'), 1500),
         ('every history of three operations on dictionaries', histories(DPRE, DOPS, 3, 'a, b, c'), 1500))

# ---------------------------------------------------------------- C11
HOPS = ['sort(a . push(1))', 'sort(a . push(5))', 'sort(b . push(0))', 'pop(a)', 'pop(b)', 'peek(a)', 'len(b)', 'clear(a)', 'len(a = copy(a))', 'sort(a)', '3 in b', 'a == heap([3, 1])']


def heaps(r):
    """a random history of pushes and pops, ending with the heap drained"""
    kind = r.randint(0, 4)
    pool = [['%d' % r.randint(-9, 9) for _ in range(8)], ["'%s'" % s for s in r.sample(STRS, 6)],
            ['(%d, %d)' % (r.randint(0, 3), r.randint(0, 3)) for _ in range(8)], ['[%s]' % ', '.join(str(r.randint(0, 2)) for _ in range(r.randint(0, 3))) for _ in range(8)],
            ['rational(%d, %d)' % (r.randint(-5, 5), r.randint(1, 4)) for _ in range(5)]][kind]
    e = lambda: r.choice(pool)
    out = 'let a = heap([%s]), b = %s\n' % (', '.join(e() for _ in range(r.randint(0, 6))), r.choice(['a', 'heap([%s])' % e()]))
    err = r.random() < .12
    for _ in range(r.randint(1, 16)):
        x, y = r.sample(['a', 'b'], 2)
        k = r.randint(0, 13)
        if k <= 4:
            st = '%s . push(%s)' % (x, e())
        elif k <= 8:
            st = 'if %s { print(pop(%s)) }' % (x, x) if not err else 'print(pop(%s))' % x
        elif k == 9:
            st = 'print(len(%s), bool(%s), %s in %s)' % (x, x, e(), x)
        elif k == 10:
            st = 'print(sort(%s), max(list(%s) + [%s]), list(%s) . len)' % (x, x, e(), x)
        elif k == 11:
            st = '%s = %s' % (x, r.choice([y, 'copy(%s)' % y, 'heap(sort(%s))' % y, 'heap(list(%s) + [%s])' % (y, e())]))
        elif k == 12:
            st = 'if %s { print(peek(%s)) }' % (x, x) if not err else 'print(peek(%s))' % x
        else:
            st = r.choice(['print(clear(%s))' % x, 'print(%s == %s)' % (x, y), 'print(sum(%s . map(fn(q) -> 1)))' % x if False else 'print(len(%s))' % x])
        out += st + '\n'
    out += 'while a { print(pop(a), len(a)) }\nwhile b { print(pop(b)) }\nprint(a, b)\n'
    return out


def heapsort(r):
    """every order of a small multiset goes in; the sorted order must come out"""
    xs = [r.randint(0, 6) for _ in range(r.randint(1, 9))]
    m = r.randint(0, len(xs))
    return 'let h = heap([%s])\nfor q in [%s] { h . push(q) }\nlet s = sort(h)\nprint(len(h), s)\nwhile h { let p = pop(h)\n print(p) }\n' % (', '.join(map(str, xs[:m])), ', '.join(map(str, xs[m:])))


def permuted(r, ctx):
    ms = [m for n in range(0, 6) for m in itertools.product(range(4), repeat=n)]
    r.shuffle(ms)
    for m in ms:
        k = r.randint(0, len(m))
        yield Case('let h = heap([%s])\nfor q in [%s] { h . push(q) }\nprint(len(h))\nwhile h { print(pop(h)) }\n' % (', '.join(map(str, m[:k])), ', '.join(map(str, m[k:]))))


Property('C11', 'a program is one history of pushes and pops of heaps; non-trivial when distinct',
         ('every heap of at most five small elements', permuted, 1400),
         ('every history of two operations', histories('let a = heap([3, 1, 2]), b = a\n', HOPS, 2, 'len(a), sort(a), sort(b)'), 500),
         ('random histories', forever(heaps), 1000),
         ('random heaps drained', forever(heapsort), 1000),
         ('every history of three operations', histories('let a = heap([3, 1, 2]), b = a\n', HOPS, 3, 'len(a), sort(a), sort(b)'), 1500))

# ---------------------------------------------------------------- C12
SEQS = ['[]', '[10]', '[10, 11]', '[10, 11, 12]', '[10, 11, 12, 13]', '[10, 11, 12, 13, 14]', "''", "'a'", "'ab'", "'abc'", "'abcde'", "'é'", "'aé漢'", "'😀bé漢z'", 'vector()', 'vector([7])', '(7, 8)', '(7, 8, 9)',
        '(1, 2, 3, 4, 5)', 'range(0)', 'range(1)', 'range(4)', 'range(1, 9, 2)', 'range(5, 0, -1)', 'range(9, 0, -3)', 'range(2, 3, 5)', 'range(-3, 3)', 'range(0, 7, 3)', "enumerate('abc')", 'enumerate([5, 6])']
BOUNDS = ['', '0', '1', '2', '3', '4', '5', '6', '7', '-1', '-2', '-3', '-4', '-5', '-6', '-7']
STEPS = [None, '', '1', '2', '3', '4', '-1', '-2', '-3', '-4', '9', '-9', '0']


def slice_text(s, a, b, c):
    return '%s[%s:%s%s]' % (s, a, b, '' if c is None else ':' + c)


def slices(r, ctx):
    """every sequence with every combination of bounds and steps, several to a program"""
    cs = [(s, a, b, c) for s in SEQS if 'enumerate' not in s for a in BOUNDS for b in BOUNDS for c in STEPS if c != '0']
    r.shuffle(cs)
    for i in range(0, len(cs), 16):
        yield Case(''.join('print(%s)\n' % slice_text(*x) for x in cs[i:i + 16]))


def indices(r, ctx):
    odd = ['nil', "'a'", '1.5' if False else 'rational(1)', 'true', 'false', '[0]', '(0, 1)', 'max(int)', 'min(int)', '4294967296', '(1 + 1i)', 'range(1)', '-9', '8', 'print']
    cs = [(s, i) for s in SEQS + ['{1, 2}', '{0: 5, 1: 6, -1: 7}', '5', 'nil', 'true', 'print', 'heap([1, 2])', 'P', 'P(4, 5)', 'fa', '(+)'] for i in BOUNDS[1:] + odd]
    r.shuffle(cs)
    for s, i in cs:
        yield Case(PRE + 'fn fa() -> 1\nlet s = %s\nprint(s[%s])\n' % (s, i))
        if r.random() < .3:
            yield Case(PRE + 'fn fa() -> 1\nlet s = %s\ns[%s] = 99\nprint(s)\n' % (s, i))
        if r.random() < .3:
            yield Case(PRE + 'fn fa() -> 1\nprint(%s . [%s])\n' % (s, i))


def badslices(r):
    s = r.choice(SEQS + ['{1, 2}', '{0: 5}', '5', 'nil', 'true', 'heap([1])', 'P(1, 2)'])
    v = ['nil', "'a'", '[]', 'rational(1)', '0', '1', '-1', '', '', 'max(int)', 'min(int)', '(1 + 1i)', '7']
    c = r.choice([None, None, '0', '1', '-1', '', 'nil', "'a'", 'max(int)', 'min(int)', '2', '-2'])
    a, b = r.choice(v), r.choice(v)
    n = "fn t(x) { print(x) ; x }\n" + PRE
    if r.random() < .3:
        a, b = ('t(%s)' % a if a else a), ('t(%s)' % b if b else b)
        c = 't(%s)' % c if c else c
    e = slice_text(s, a, b, c)
    k = r.random()
    if k < .2 and not any(q in str((a, b, c)) for q in ('a', '[', '1i', 'nil')):     # which of two errors comes first is not settled
        e = '%s . [%s:%s%s]' % (s, a, b, '' if c is None else ':' + c)
    return n + 'print(%s)\n' % e


def laws(r):
    """relations between indexing, slicing, length and iteration on one sequence"""
    s = r.choice(SEQS + [value_seq(r)])
    n = r.randint(-6, 6)
    if 'enumerate' in s:
        return 'let s = %s\nprint(len(s), list(s), s)\nprint(s[%s])\n' % (s, r.choice(['0', '1', '-1', '9']))
    return ('let s = %s\nprint(len(s), list(s), s[:] == s, s[::-1])\nprint(s[:%d], s[%d:], s[%d:%d], s[::%d])\nfor i in range(len(s)) { print(s[i] == s[i - len(s)], s[i:i + 1], s[i]) }\n'
            'let t = s[:]\nif t is list { t . push(1) ; print(s, t) }\n' % (s, n, n, n, n + r.randint(0, 3), r.choice([1, 2, -1, -2])))


def value_seq(r):
    return r.choice(["'%s'" % r.choice(STRS), seqlit(r, 7), 'range(%d, %d, %d)' % (r.randint(-5, 5), r.randint(-5, 9), r.choice([1, 2, 3, -1, -2])), 'vector(%s)' % seqlit(r, 5)])


def ranges(r, ctx):
    """every small range: its text, length, contents, reversal, membership and elements"""
    for a, b, c in shuffled(r, itertools.product(range(-3, 5), range(-4, 8), [-5, -4, -3, -2, -1, 1, 2, 3, 4, 5])):
        s = 'range(%d, %d, %d)' % (a, b, c)
        f = ['reverse(s)', 'list(s)', '(range(-6, 10) . map(fn(x) -> x in s))', 'len(s)', 's', 's == range(%d, %d, %d)' % (a, b + r.choice([0, 0, 1]), c), 's . enumerate . list', 's . filter(fn(x) -> true)', 'bool(s)', 's[0]', 's[-1]', 's . find(fn(x) -> x > 1)',
             's . rindex_of(%d)' % a, 's . rfind(fn(x) -> x < 4)', 'sum(s)', 'max(s)', 'min(s)', 's . zip(s)', 'sort(s)', 'copy(s)', 'set(s)', '(true in s, false in s)', 's . group_by(2)', 's . reduce(-)', 's < range(1, 5, 2)', '[...s]', "'a' in s", 's . combinations(2) . len']
        g = f[:3] + r.sample(f[3:], 4)
        yield Case('let s = %s\n%sfor x in s { print(x) }\n' % (s, ''.join('print(%s)\n' % x for x in g)))


Property('C12', 'a program is one sequence with a group of indices or slices; non-trivial when distinct',
         ('every index of every kind of value', indices, 1500),
         ('every slice of small sequences', slices, 700),
         ('bounds and steps of other types', forever(badslices), 1500),
         ('every small range', ranges, 700),
         ('relations between indexing, slicing and iteration', forever(laws), 700))

# ---------------------------------------------------------------- C13
ITERS = ['[]', '[3]', '[3, 1, 2]', '[1, 1, 2, 3, 3]', "''", "'b'", "'cab'", "'éa'", 'vector()', '(2, 5)', '(4, 1, 4)', 'set()', '{2, 1}', '{3, 9, 5}', '{2: 5}', "{'a': 1, 'b': 2}", 'range(0)', 'range(3)', 'range(5, 0, -2)', 'enumerate([8, 9])', '[[1, 2], [3]]', '[(1, 2), (3, 4)]', "['x', 'yy', '']", '[nil, 0, false]', 'heap([4])', 'heap()', '[true, 2]', 'range(-2, 2)', 'vector([vector([1])])', '[set(), {1}]']
NONITERS = ['5', 'nil', 'true', 'print', 'P(1, 2)', '(1 + 1i)', 'P']
CB1 = ['f', 'fn(x) -> x', 'fn(x) { print(\'x\', x) ; x }', '(+ 1)', '(== 3)', '(> 1)', 'str', 'len', 'g(1)', 'o->m', "fn(x) -> [x, x]", 'nil', 'fn(x) -> nil', '(-)', 'list', 'bool', 'fn((a, b)) -> a', '[0]', '[1:]', '(is int)', '(in [1, 2, 3])', 'not_', 'fn(*a) -> a', 'fn(x, y = 5) -> [x, y]', 'P(1)', 'abs', '5', 'print', 'h0', 'g', 'fn() -> 1', 'repr', 'typeof', 'P', '(->x)', 'c', 'e', '(* 2)', 'set', 'even', 'n']
CB2 = ['g', 'fn(x, y) -> x', 'fn(x, y) -> y', "fn(x, y) { print(x, y) ; x + y }", '(+)', '(-)', 'max', 'min', 'fn(x, y) -> y - x', 'fn(x, y) -> 0', 'fn(x, y) -> 1', 'fn(*a) -> a', '(<)', 'f', 'nil', '5', 'fn(x, y) -> [x, y]', 'g3(1)', 'o->n', 'h0', 'fn(x, y) -> nil', 'print', '(==)', '(*)', 'P', 'cmp', 'gcd', 'n', 'e2']
HPRE = PRE + '''struct O(k) { fn m(self, x) { k += 1 ; print('m', k, x) ; x }
 fn n(self, x, y) { k += 1 ; [k, x, y] } }
let o = O(0)
let n = 0
fn f(x) { print('f', x) ; x }
fn g(x, y) { print('g', x, y) ; y }
fn g3(x, y, z) -> [x, y, z]
fn h0() -> 7
fn c(x) { n += 1 ; n }
fn e(x) { n += 1 ; if n == 2 { x + nil } ; x }
fn e2(x, y) { n += 1 ; if n == 2 { nil[0] } ; x }
fn even(x) { print('even', x) ; x % 2 == 0 }
fn cmp(x, y) { if x < y then -1 else if x == y then 0 else 1 }
fn not_(x) -> not x
'''
H1 = ['map', 'filter', 'flat_map', 'any', 'all', 'find', 'rfind', 'index_of', 'rindex_of', 'group_by', 'min_by', 'max_by']
H2 = ['reduce', 'min_by', 'max_by', 'sort_by']
SIMPLE = ['sum', 'min', 'max', 'sort', 'reverse', 'list', 'set', 'vector', 'dict', 'enumerate', 'concat', 'len', 'zip', 'permutations(2)', 'combinations(2)', 'permutations(0)', 'combinations(1)', 'combinations(3)', 'permutations(3)', 'counter', 'heap . sort', 'any(bool)', "join(',')", 'group_by(2)', 'group_by(1)', 'zip([1, 2])', 'find(3)', 'index_of(3)', 'rindex_of(1)', 'rfind(2)', 'str', 'bool', 'iter_' if False else 'copy', 'keys', 'values', 'push(1) . len', 'pop', 'peek', 'unzip' if False else 'reduce(max)', 'group_by(0)', 'permutations(-1)', 'combinations(-1)', "permutations('a')", 'group_by(-1)']


def hof_all(r, ctx):
    """every function with every iterable and every callback"""
    cs = [(h, i, f) for h in H1 for i in ITERS + NONITERS for f in CB1] + [(h, i, f) for h in H2 for i in ITERS + NONITERS for f in CB2 if h != 'sort_by' or f in ('cmp', 'h0', 'n', '5', 'nil', 'fn(x, y) -> nil', 'fn(*a) -> a', 'f')  and (f != 'f')] + [('sort_by', i, f) for i in ITERS for f in ['fn(x) -> x', 'str', 'fn(x) -> [x, x]', 'fn(x) -> nil', 'bool', 'repr', 'typeof', '(== 3)', '(is int)', 'not_', 'nil', '5', 'h0', 'fn(*a) -> a', 'fn(x, y = 5) -> [x, y]', 'n']]
    r.shuffle(cs)
    for h, i, f in cs:
        yield Case(HPRE + 'let s = %s\nprint(s . %s(%s))\nprint(s, n, o)\n' % (i, h, f) if 'heap([4' not in i else HPRE + 'let s = %s\nprint(s . %s(%s))\nprint(n, o)\n' % (i, h, f))


def simple_all(r, ctx):
    for h, i in shuffled(r, itertools.product(SIMPLE, ITERS + NONITERS)):
        if 'combinations' in h or 'permutations' in h:
            yield Case(HPRE + 'let s = %s\nprint(s . %s)\nprint(s)\n' % (i, h))
        else:
            yield Case(HPRE + 'let s = %s\nprint(s . %s)\n%s' % (i, h, '' if 'heap' in i else 'print(s)\n'))
        if ' . ' not in h and '(' not in h:
            yield Case(HPRE + 'let s = %s\nprint(%s(s))\nprint(%s(s, s))\n' % (i, h, h))


def chain(r):
    """a chain of library calls over a random iterable with tracing callbacks"""
    s = r.choice(ITERS + [value_seq(r)] * 10)
    out = 's'
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < .45:
            out += ' . %s(%s)' % (r.choice(['map', 'filter', 'flat_map', 'map', 'filter', 'group_by']), r.choice(CB1[:26]))
        elif k < .6:
            out += ' . ' + r.choice(['enumerate', 'reverse', 'list', 'set', 'vector', 'sort', 'zip([7, 8, 9])', "zip('ab')", 'map(str)', 'filter(bool)', 'combinations(2)', 'concat', 'permutations(2)' if len(s) < 14 else 'list', 'group_by(2)'])
        elif k < .7:
            out += ' . ' + r.choice(['any(%s)', 'all(%s)', 'find(%s)', 'index_of(%s)', 'min_by(%s)', 'max_by(%s)', 'rfind(%s)', 'rindex_of(%s)']) % r.choice(CB1[:26])
            break
        elif k < .8:
            out += ' . reduce(%s)' % r.choice(CB2[:14])
            break
        else:
            out += ' . sort_by(%s)' % r.choice(['fn(x) -> x', 'cmp', 'str', 'bool', 'repr', 'fn(x) -> [x]', 'fn(x, y) -> cmp(y, x)'])
    return HPRE + 'let s = %s\nprint(%s)\nprint(s, n, o)\n' % (s, out)


def nested(r):
    """callbacks that call the library again, change the input, fail or leave through return"""
    s = r.choice(['[1, 2, 3]', '[3, 1]', "'ab'", 'range(3)', '{1, 2}', '{1: 2, 3: 4}', '(5, 6)', '[[1], [2, 3]]'])
    inner = r.choice(['[x, 1] . map(f) . len', '[x] . filter(even)', 's . map(fn(y) -> [x, y])', 'if n > %d { return 9 } ; n += 1 ; x' % r.randint(0, 2), 'for q in s { if q == x { return q } } ; nil', 'acc . push(x) ; acc . len', 'let k = x ; fs . push(fn() -> k) ; k', 's . reduce(fn(p, q) -> [p, q, x])', 'n += 1 ; if n == %d { nil + 1 } ; x' % r.randint(1, 3), 's . any(fn(y) -> y == x)', '[x] . sort_by(cmp)', 'x . f', 'print(x, n) ; n += 1 ; n % 2 == 0', 'if x == 1 { [] } else { [x, x] }', 's . list . sort_by(fn(a) -> a)'])
    h = r.choice(['map', 'filter', 'flat_map', 'any', 'all', 'find', 'index_of', 'group_by', 'min_by', 'max_by', 'rfind'])
    return HPRE + 'let s = %s, acc = [], fs = []\nprint(s . %s(fn(x) { %s }))\nprint(s, n, acc, fs . map(fn(u) -> u()))\n' % (s, h, inner)


def libargs(r):
    """library functions applied to random arguments of random types"""
    f = r.choice(['sum', 'min', 'max', 'zip', 'sort', 'reverse', 'list', 'set', 'vector', 'dict', 'range', 'enumerate', 'concat', 'join', 'permutations', 'combinations', 'union', 'gcd', 'lcm', 'len', 'counter', 'any', 'all', 'find', 'group_by', 'typeof', 'push', 'pop', 'insert', 'remove', 'copy', 'keys', 'values', 'abs', 'sqrt', 'peek', 'clear', 'repr', 'str', 'bool', 'int', 'default', 'hex', 'bin', 'ord', 'split', 'replace', 'trim', 'real', 'imag', 'numer', 'denom', 'rational', 'reduce', 'index_of', 'push_front', 'pop_front', 'intersect', 'difference', 'min_by', 'sort_by', 'count_ones', 'unique' if False else 'sum', 'to_upper', 'search' if False else 'len'])
    n = r.choice([1, 1, 1, 2, 2, 3])
    args = [r.choice([values.value(r, 2), values.scalar(r), r.choice(ITERS), r.choice(CB1[:8] + ['(+ 1)', 'max'])]) for _ in range(n)]
    if f == 'range':
        args = [r.choice([str(r.randint(-9, 9)), str(r.randint(-9, 9)), str(r.randint(-9, 9)), '0', 'nil', "'a'", 'true']) for _ in range(n)]
        return HPRE + 'let s = range(%s)\nprint(s)\nprint(len(s), list(s), reverse(s), sum(s), %s in s)\n' % (', '.join(lit(int(a)) if a.lstrip('-').isdigit() else a for a in args), r.randint(-9, 9))
    return HPRE + 'print(%s(%s))\n' % (f, ', '.join(a for a in args if f != 'push' or 'heap' not in a))


Property('C13', 'a program is one library function applied to one iterable with one callback, or a chain of them; non-trivial when distinct',
         ('every function with every iterable', simple_all, 1400),
         ('every function with every iterable and callback', hof_all, 1500),
         ('random chains', forever(chain), 1000),
         ('callbacks that call, change, fail and return', forever(nested), 1000),
         ('library functions on random arguments', forever(libargs), 1500))
