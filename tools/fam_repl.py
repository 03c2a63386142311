"""Families of interactive sessions: C18."""
import re
import mangle, texts, fam_func
from check import Case
from families import Property
from fam_static import Pool, some

VARS = ['a', 'b', 'c', 'd']
FNS = ['f', 'g', 'h']
TYPES = ['A', 'B']


def atom(r, n=0):
    k = r.random()
    if k < .45 or n > 2:
        return r.choice(['0', '1', '3', 'nil', "'x'", 'true', '[]', '[1, 2]'] + VARS * 3)
    if k < .55:
        return '%s(%s)' % (r.choice(FNS), ', '.join(atom(r, n + 1) for _ in range(r.choice([0, 1, 1, 2]))))
    if k < .65:
        return '[%s]' % ', '.join(atom(r, n + 1) for _ in range(r.randint(1, 3)))
    if k < .72:
        return 'print(%s)' % atom(r, n + 1)
    if k < .8:
        return '(%s %s %s)' % (atom(r, n + 1), r.choice(['+', '-', '*', '==', '<', 'and', 'or', 'in']), atom(r, n + 1))
    if k < .86:
        return 'str(%s)' % atom(r, n + 1)
    if k < .9:
        return '%s(%s)' % (r.choice(TYPES), atom(r, n + 1))
    if k < .94:
        return '%s->%s' % (r.choice(VARS), r.choice(['x', 'y', 'm']))
    if k < .97:
        return 'fn(q) -> %s' % atom(r, n + 1)
    return '(if %s then %s else %s)' % (atom(r, n + 1), atom(r, n + 1), atom(r, n + 1))


def stmt(r, n=0, fn=False):
    k = r.random()
    if k < .2:
        return 'let %s = %s' % (r.choice(VARS), atom(r))
    if k < .25:
        return 'let %s' % ', '.join(r.sample(VARS, r.randint(1, 2)))
    if k < .3:
        x, y = r.sample(VARS, 2)
        return 'let %s, %s = %s' % (x, y, r.choice(['[1, 2]', '[1]', 'a', '3, 4']))
    if k < .36:
        return 'let %s = %s, %s = %s' % (r.choice(VARS), atom(r), r.choice(VARS), atom(r))
    if k < .46:
        ps = r.choice(['', 'q', 'q', 'a', 'q, r', 'q = %s' % r.choice(['1', 'a', 'b']), '*q'])
        if r.random() < .5:
            return 'fn %s(%s) -> %s' % (r.choice(FNS), ps, atom(r))
        return 'fn %s(%s) {\n%s\n}' % (r.choice(FNS), ps, '\n'.join(stmt(r, n + 1, True) for _ in range(r.randint(0, 3)))) if n < 2 else 'nil'
    if k < .52:
        return '%s %s %s' % (r.choice(VARS), r.choice(['=', '=', '+=', '-=']), atom(r))
    if k < .56:
        f = r.choice(FNS)
        return 'struct %s(%s)%s' % (r.choice(TYPES), r.choice(['x', 'y', 'x, y', '']), r.choice(['', ' {\n fn m(self) -> %s\n fn %s() -> %s }' % (atom(r), f, atom(r))])) if n == 0 or r.random() < .1 else '1'
    if k < .6:
        return 'if %s {\n%s\n}%s' % (atom(r), stmt(r, n + 1, fn), r.choice(['', ' else {\n%s }' % stmt(r, n + 1, fn)])) if n < 2 else 'nil'
    if k < .64:
        return 'for i in [1, 2] {\n%s\n}' % stmt(r, n + 1, fn) if n < 2 else 'nil'
    if k < .67:
        return 'do {\n%s ; %s\n}' % (stmt(r, n + 1, fn), stmt(r, n + 1, fn)) if n < 2 else 'nil'
    if k < .7 and fn:
        return 'return %s' % atom(r)
    if k < .72:
        return r.choice(['exit', 'assert %s' % atom(r), 'break', 'return', '{', '}', '(', ')', "'", '/* ', '*/', '1 +', 'let', 'fn f', '', ' ', '// x', 'let a =', 'f(', '[1,', ';', '5;', ', 1']) if r.random() < .6 else 'nil'
    if k < .85:
        return atom(r)
    return ', '.join(VARS[:r.randint(1, 4)])


def entries(rng, ctx):
    """statements which declare, use, fail and are wrong, one after the other"""
    while True:
        ls = ['let a = 1', 'fn f(q) -> q'][:rng.choice([0, 1, 2])]
        for _ in range(rng.randint(3, 14)):
            t = stmt(rng)
            if rng.random() < .1:
                t += rng.choice([' ; ', ' ']) + stmt(rng)
            ls += t.split('\n')
        yield Case('\n'.join(ls), kind='repl', opts=(False,))


def tame(src):
    return len(src) < 2000 and src.count('eval') < 4 and not re.search(r'\b(read|read_text|read_line|env|argv|monitor|native|heap)\b|\r', src)


def line_by_line(rng, ctx):
    """programs of the other families, with faults between the lines"""
    pool = Pool(ctx, 6)
    while True:
        src = pool(rng) if rng.random() < .6 else some(rng)
        if not tame(src):
            continue
        if rng.random() < .3:
            src = mangle.mangle(rng, src)
        ls = src.split('\n')
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            ls.insert(rng.randrange(len(ls) + 1), rng.choice(['zork', ')', 'nil + 1', 'let zork = 1, zork2 = nil + 1', 'zork2', '', '1', 'let zork', '+ +', "'", '*/', 'print(1) ; nil()', 'fn zf() -> zork2', 'zf()', '(', '[1, ']))
        yield Case('\n'.join(ls), kind='repl', opts=(False,))


def edited(rng, ctx):
    pool = Pool(ctx, 6, 600)
    while True:
        src = texts.text(rng, lambda: pool(rng))
        if tame(src):
            yield Case(src, kind='repl', opts=(False,))


Property('C18', 'an interactive session of at least one line, built as the families say; the specification says for every line what is shown, whether it is continued and what remains of it',
         ('entries', entries, 300), ('programs line by line', line_by_line, 200), ('edited programs line by line', edited, 300))
