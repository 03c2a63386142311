"""Texts of Cordy values, drawn at random or listed."""

STRS = ['', 'a', 'b', 'ab', 'abc', 'hello', 'x y', '0', '12', '-3', 'A', 'Zz', 'a,b', 'é', 'héllo', '漢字', '😀b', 'aaaaaaaaaaaaaaaaaaaa', 'aaaaaaaaaaaaaaaaaaab', '  pad ']
INTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 31, 63, 64, 100, 255]
BIG = [2**31, 2**31 - 1, 2**32, 2**32 + 1, 2**53, 2**60, 2**61, 2**61 - 1, 2**62 - 1, 10**18, 3037000500, 4294967295]


def lit(n):
    """an integer in the 63-bit range, as an expression that may stand anywhere"""
    if n == -2**62:
        return 'min(int)'
    return '(%d)' % n if n < 0 else str(n)


def int_(r):
    k = r.random()
    if k < 0.7:
        n = r.choice(INTS)
    elif k < 0.85:
        n = r.choice(BIG)
    else:
        n = r.randint(0, 2**r.randint(1, 62) - 1)
    return lit(-n if r.random() < 0.35 else n)


def small(r, lo=-4, hi=6):
    return lit(r.randint(lo, hi))


def str_(r):
    return "'%s'" % r.choice(STRS)


def scalar(r):
    k = r.random()
    if k < 0.4:
        return small(r)
    if k < 0.5:
        return int_(r)
    if k < 0.75:
        return str_(r)
    if k < 0.88:
        return r.choice(['true', 'false'])
    return 'nil'


def seq(r, d, n=4, kinds='slvSdrkcq'):
    return [value(r, d, kinds) for _ in range(r.randint(0, n))]


def value(r, d=2, kinds='slvSdrkcq'):
    """s scalar, l list, v vector, S set, d dict, r range, k struct (needs PRE), c complex, q rational"""
    if d <= 0:
        return scalar(r)
    k = r.choice('ss' + kinds)
    if k == 's':
        return scalar(r)
    if k == 'l':
        return '[%s]' % ', '.join(seq(r, d - 1, 4, kinds))
    if k == 'v':
        e = seq(r, d - 1, 3, kinds)
        return 'vector(%s)' % ('[%s]' % ', '.join(e) if len(e) < 2 else ', '.join(e)) if len(e) < 2 or r.random() < .3 else '(%s)' % ', '.join(e)
    if k == 'S':
        e = seq(r, d - 1, 3, kinds)
        return '{%s}' % ', '.join(e) if e else 'set()'
    if k == 'd':
        e = ['%s: %s' % (value(r, d - 1, ''.join(c for c in kinds if c in 'slv') or 's'), value(r, d - 1, kinds)) for _ in range(r.randint(0, 3))]
        return '{%s}' % ', '.join(e) if e else 'dict()'
    if k == 'r':
        return 'range(%s, %s, %s)' % (small(r), small(r), r.choice(['1', '2', '3', '(-1)', '(-2)']))
    if k == 'k':
        return r.choice(['P(%s, %s)', 'Q(%s, %s)']) % (value(r, d - 1, kinds), scalar(r))
    if k == 'c':
        return '(%s %s %di)' % (small(r), r.choice('+-'), r.randint(0, 3))
    return 'rational(%s, %s)' % (small(r), lit(r.choice([1, 2, 3, 4, -2, -1, 6])))


PRE = 'struct P(x, y)\nstruct Q(x, z)\n'

# one text per interesting value: pairs of these are enumerated
UNIVERSE = ['nil', 'true', 'false', '0', '1', '(-1)', '2', 'max(int)', 'min(int)', "''", "'a'", "'b'", "'ab'", "'1'", "'é'", "'aaaaaaaaaaaaaaaaaaaa'",
            '(0 + 1i)', '(1 + 1i)', '(1 + 2i)', '(2 + 0i)', 'rational(1)', 'rational(1, 2)', 'rational(2, 4)', 'rational(3, 2)', 'rational(-1, 2)', 'rational(2)',
            '[]', '[1]', '[2]', '[1, 2]', '[1, [2]]', "['a']", '[nil]', '[true]', '[rational(1)]', '[[]]',
            'vector()', 'vector([1])', '(1, 2)', '(2, 1)', '(1, (2, 3))', '((1, 2), 3)',
            'set()', '{1}', '{2}', '{1, 2}', "{'a'}", '{[1]}', 'dict()', '{1: 2}', '{1: 3}', '{2: 2}', "{'a': 1}", '{1: 2, 2: 3}',
            'range(3)', 'range(0, 3)', 'range(0)', 'range(1, 3)', 'range(0, 3, 2)', 'range(3, 0, -1)', 'enumerate([1, 2])', "enumerate('ab')",
            'heap([1])', 'heap([2])', 'heap()', 'heap([1, 2])',
            'P(1, 2)', 'P(1, 3)', 'Q(1, 2)', 'P', 'Q', 'print', 'len', '(+)', '(+1)', '[1:2]', 'int', 'fa', 'fb']
UPRE = PRE + 'fn fa() -> 1\nfn fb() -> 1\n'
