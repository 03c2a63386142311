"""Families about whole programs: optimisation (C16), failures at run time (C17)."""
import itertools, random
import gen, values
from check import Case
from families import Property, forever, shuffled, mixed
import fam_func, fam_calls, fam_data

# ---------------------------------------------------------------- C16
PRE16 = """struct P(x, y)
fn t(n, v) { print('t', n) ; v }
fn u(a, b = 10, *c) -> (a, b, c)
let x = 3, y = 0, l = [1, 2, 3], d = {1: 2}, s = 'abc', f = (+), z = nil, p = P(1, 2)
"""
BIN = ['+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&', '|', '^', '<<', '>>', 'in', 'is', 'and', 'or', 'not in', 'is not']
SEC = ['+', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&', '|', '^', '<<', '>>', 'in', 'is', 'not in', 'is not']
UNN = ['len', 'sum', 'str', 'bool', 'typeof', 'sort', 'reverse', 'repr', 'list', 'set', 'int', 'max', 'min']
BIN2 = ['push', 'pop', 'map', 'filter', 'split', 'join', 'find', 'index_of', 'min_by', 'max_by', 'zip', 'any', 'all', 'default', 'remove', 'reduce', 'insert']


class Expr:
    def __init__(self, r):
        self.r, self.k = r, 0

    def const(self):
        r = self.r
        return r.choice(['1', '2', '0', '3', '7', '64', 'true', 'false', 'nil', "'a'", "'ab'", "''", '2i', '(1 + 1i)', 'min(int)', 'max(int)', '(-1)', '(-3)', 'int', 'list', 'str', 'any', '[]', '[1]', "'b' + 'c'", '(1, 2)', '4611686018427387903'])

    def t(self, e):
        self.k += 1
        return 't(%d, %s)' % (self.k, e)

    def atom(self):
        r = self.r
        k = r.random()
        if k < .4:
            return self.const()
        if k < .7:
            return r.choice(['x', 'y', 'l', 's', 'd', 'z', 'f', 'p', 'x', 'l', 'p->x', 'len', 'print', 'P', '(+)', 'u'])
        return self.t(r.choice(['x', 'l', 's', '1', '2', '[1]', 'nil', "'a'", 'y', 'f', '(+)', 'len', '(* 2)']))

    def e(self, d):
        r = self.r
        if d <= 0:
            return self.atom()
        E = lambda: self.e(d - 1 - (r.random() < .4))
        k = r.randint(0, 22)
        if k <= 4:
            o = r.choice(BIN)
            a, b = E(), E()
            if o in ('**', '<<', '*') and ('int)' in a + b or '46' in a + b or '64' in a + b):
                o = '+'
            return '(%s %s %s)' % (a, o, b)
        if k == 5:
            return '(%s%s)' % (r.choice(['-', '!', 'not ', '-']), E())
        if k == 6:
            return '(%s %s)(%s)' % (r.choice(SEC[:1] + SEC[2:4] + SEC[5:14] + SEC[16:]), E(), E())
        if k == 7:
            return '(%s . (%s %s))' % (E(), r.choice(SEC[:1] + SEC[2:4] + SEC[5:14] + SEC[16:]), E())
        if k == 8:
            return '(%s . (%s %s))' % (E(), E(), r.choice(SEC[:1] + SEC[2:4] + SEC[5:14]))
        if k == 9:
            return '(%s)(%s)' % (r.choice(SEC[:1] + SEC[2:4] + SEC[5:14]), ', '.join(E() for _ in range(r.choice([1, 2, 2, 2, 3]))))
        if k == 10:
            return '%s(%s)(%s)' % (r.choice(BIN2), E(), E())
        if k == 11:
            return '(%s . %s(%s))' % (E(), r.choice(BIN2), E())
        if k == 12:
            return '(%s . %s)' % (E(), r.choice(UNN + ['f', 'u', 'P', '(fn(q) -> [q])', "print", 't(9)', '(->x)']))
        if k == 13:
            return '(%s . [%s])' % (E(), r.choice([E(), E(), '0', '%s:%s' % (r.choice(['', '0', 'y', '1']), r.choice(['', '2', 'x'])), ':', '%s:%s:%s' % (r.choice(['', '0', 'y']), r.choice(['', '2', 'x']), r.choice(['1', '-1', '2', 'x']))]))
        if k == 14:
            return '(if %s then %s else %s)' % (r.choice([E(), E(), 'true', 'false', 'nil', '0', "''", '1']), E(), E())
        if k == 15:
            return '(%s %s %s)' % (E(), r.choice(['and', 'or']), E())
        if k == 16:
            return r.choice(['[%s]', '(%s)', '{%s}']) % ', '.join([E(), E()])
        if k == 17:
            return self.t(E())
        if k == 18:
            return '(fn() -> %s)()' % E()
        if k == 19:
            x = r.choice(['x', 'y', 'l[0]', 'z', 'p->y'])      # no collection inside itself
            return '(%s = %s)' % (x, E() if len(x) == 1 else self.t(r.choice(['1', "'a'", '[2]', 'nil', '(1, 2)'])))
        if k == 20:
            return '%s(%s)(%s)(%s)' % (r.choice(['reduce', 'replace', 'insert', 'u', 'u(1)', 'group_by', 'format' if False else 'u']), E(), E(), E())
        if k == 21:
            return 'u(%s)' % ', '.join(r.choice(['', '', '', '...']) + ('[%s]' % E() if r.random() < .3 else E()) for _ in range(r.randint(1, 3)))
        return '%s[%s]' % (r.choice(['l', 's', 'd', 'p', '[1, 2]', "'xyz'", '(4, 5)']), E())


def folding(r):
    x = Expr(r)
    e = x.e(r.choice([2, 2, 3, 3, 4]))
    while ('2i' in e or '1i' in e) and ('int)' in e or '46116' in e):     # large components of complex numbers are not specified
        e = x.e(r.choice([2, 2, 3, 3, 4]))
    k = r.random()
    if k < .6:
        st = 'print(%s)\n' % e
    elif k < .7:
        st = 'fn g() {\n  let x = 2, y = 1\n  print(%s)\n  x\n}\nprint(g())\n' % e
    elif k < .8:
        st = 'if %s { print(1) } else { print(2) }\n' % e
    elif k < .9:
        st = 'let q = %s\nprint(q)\n' % e
    else:
        st = 'for i in [1, 2] {\n  let q = %s\n  print([q], i)\n}\n' % e
    return PRE16 + st + 'print(x, y, l, z)\n'


def stores(r):
    """sequences of stores and loads of locals, globals, upvalues in every order, with their values used or not"""
    names = ['a', 'b', 'c']
    out = []
    ind = '  ' * r.choice([0, 1, 2])

    def st():
        n, m = r.choice(names), r.choice(names)
        return r.choice(['%s = %s' % (n, m), '%s = %d' % (n, r.randint(0, 9)), '%s = %s + 1' % (n, n), '%s' % n, '%s = %s = %s' % (n, m, r.choice(names)), 'print(%s)' % n, '%s ; %s ; %s' % (n, m, n),
                         '%s += %s' % (n, m), 'print(%s = %s, %s)' % (n, m, n), 'let v%d = (%s = %s)' % (len(out), n, m), '%s ; %s = 1' % (n, m), '(%s, %s)' % (n, m) if False else '%s, %s = %s, %s' % (n, m, m, n), 'if %s == %s { %s ; %s = 5 } else { %s }' % (n, m, n, m, m), 'while %s > 3 { %s -= 1 }' % (n, n), 'h()', 'print(h(%s = 2))' % n])
    for _ in range(r.randint(3, 12)):
        out.append(st())
    body = lambda i: ''.join(i + x + '\n' for x in out)
    k = r.randint(0, 3)
    dec = 'let a = 1, b = 2, c = 3\n'
    fin = 'print(a, b, c)\n'
    hdef = 'fn h(*q) { a += 1 ; c = q ; b }\n'
    if k == 0:
        return dec + hdef + body('') + fin
    if k == 1:
        return 'fn main() {\n' + dec + hdef + body('  ') + fin + '}\nmain()\n'
    if k == 2:
        return dec + hdef + 'fn main() {\n' + body('  ') + fin + '}\nmain()\n' + fin
    return 'fn main() {\n' + dec + hdef + 'fn inner() {\n' + body('  ') + fin + '}\ninner()\n' + fin + '}\nmain()\nmain()\n'


Property('C16', 'a program runs with and without optimisation and both recordings are judged; non-trivial when distinct',
         ('constant and reorderable expressions', forever(folding), 2000),
         ('stores and loads', forever(stores), 1000),
         ('random programs', mixed(dict(), dict(size=40), dict(errors=.1, size=15)), 500))

# ---------------------------------------------------------------- C17
# operations that fail, with the surroundings in PRE17
FAILING = ["1 / 0", "5 % 0", "nil + 1", "[1][5]", "'abc'[3]", "[1, 2][::0]", "5[0]", "nil()", "5(1)", "'s'(1)", "len(5)", "int('x')", "sqrt(-1)", "max([])", "min(set())", "pop([])", "pop(heap())", "[] . pop_front", "{1: 2}[3]", "struct0 = 1" if False else "P(1)(2)(3)", "P(1, 2, 3)",
           "p->nofield" if False else "q->y", "5->x", "[1] < nil . foo" if False else "-nil", "!'a'", "not_here()" if False else "(1, 2) - 'a'", "insert(9, 1, [1])", "remove(9, [1])", "'%d' % 'x'", "'%d %d' % 3", "'%q' % 1", "char(-1)", "ord('ab')", "range(1, 2, 0)", "1 << nil", "1 is 2", "1 in 2", "reduce((+), [])",
           "sort_by(5, [1, 2])", "map(5, [1])", "[1, 2] . map(fn(x) -> x / 0)", "[3, 1, 2] . sort_by(fn(a, b) -> a / 0)", "{[1]: 1}[[2]]", "two(1, 2, 3)", "one()" if False else "one(1, 2)", "one(...[1, 2, 3])", "print(...5)", "[...nil]", "eval('1 +')" if False else "list(5)", "set(nil)", "dict([1])", "heap(3)", "vector(5)", "[1, 2, 3] . zip", "enumerate(5)",
           "a0 = b0" if False else "l[7]", "l[-9] = 1" if False else "l['a']", "d[[1]]", "fin(3)", "fin(0)", "rec(3)", "q->m(1)(2)", "q->m()", "q . (->z)", "permutations(-1, [1])", "combinations(-1, [1])", "late", "flat_map(fn(x) -> x, [1])", "join(',', 5)", "split('a', 5)", "abs('a')", "gcd('a', 1)", "rational(1, 0)", "(1 + 1i) / 0", "0 ** -1",
           "assert0()", "hex(nil)", "copy()(1, 2)" if False else "typeof(1, 2)", "group_by(5, nil)", "push(1, 2)", "find(fn(x) -> x / 0, [1])", "any(fn(x) -> nil[0], [1])", "min_by(fn(x) -> nil + x, [1, 2])", "memo(1)", "dd[4]", "cmp(1, 2, 3, 4)"]
PRE17 = """struct P(x, y)
struct Q(y, z) {
  fn m(self, a) -> self->y / a
}
fn t(n) { print('t', n) ; n }
fn one(a) -> a
fn two(a, b) -> (a, b)
fn fin(n) { if n > 0 { return fin(n - 1) } ; nil[0] }
fn rec(n) -> if n == 0 then 1 / n else 1 + rec(n - 1)
fn assert0() { assert t(1) == t(2) : t(3) }
fn showlate() -> late
let p = P(1, 2), q = P(3, 4), o = Q(1, 0), l = [1, 2], d = {1: 2}, cmp = (<)
let memo = memoize(fn(x) { print('memo') ; x / 0 })
let dd = dict() . default(fn() -> [][0])
"""


def failures(r):
    """one failing operation somewhere inside nested calls, loops, callbacks and expressions"""
    fail = r.choice(FAILING)
    if fail == 'late':
        fail = 'showlate()'
    if fail.startswith('q->m') or fail.startswith('q . (->z'):
        fail = fail.replace('q', 'o', 1) if r.random() < .7 else fail.replace('->m', '->y')
    n = [0]

    def t():
        n[0] += 1
        return 't(%d)' % n[0]

    def wrap_expr(e):
        k = r.randint(0, 15)
        return ['[%s, %s, %s]' % (t(), e, t()), 'two(%s, %s)' % (t(), e), 'two(%s, %s)' % (e, t()), '(%s + %s)' % (t(), e), '(%s and %s)' % (t(), e), '(if %s then %s else %s)' % (t(), e, t()), '{%s: %s}' % (t(), e),
                'one(%s)' % e, '[%s] . map(fn(x) -> (x, %s))' % (t(), e), '(fn() { %s ; %s })()' % (t(), e), '(fn(a) -> [a, %s])(%s)' % (e, t()), '(%s < %s < %s)' % (t(), e, t()), "('%%d' %% (%s)) + str(%s)".replace('%%', '%') % (t(), e) if False else 'print(%s, %s)' % (t(), e),
                '(%s or %s)' % (e, t()), '[1, 2, 3] . filter(fn(x) -> x > 1 and %s) . list' % e, '(%s . one)' % e][k]
    e = fail
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        e = wrap_expr(e)
        if r.random() < .25:
            # spread over lines, where brackets allow it
            e = e.replace(', ', ',\n    ', 1) if e[0] in '[{' else e
    st = r.choice(['print(%s)', 'let z%d = %%s' % n[0], '%s', 'l[0] = %s', 'q->y = %s', 'print(1) ; print(%s) ; print(2)', 'if %s { print(1) }', 'while %s { break }', 'for x in [%s] { print(x) }', 'assert %s', 'let (u%d, v%d) = [1, %%s]' % (n[0], n[0]), 'l[0] += %s', 'if true { print(0) ; %s ; print(1) }' if False else 'print(t(90), %s)', 'return %s' if False else 'print(%s)']) % e
    if st[0] in '([-{':
        st = 'let w = ' + st
    # nest the statement
    fns = []
    lines = [st]
    for depth in range(r.randint(0, 4)):
        k = r.randint(0, 10)
        ind = lambda ls: ['  ' + x for x in '\n'.join(ls).split('\n')]
        nm = 'f%d' % depth
        if k == 0:
            lines = ['for i%d in %s {' % (depth, r.choice(['range(3)', '[1, 2]', "'ab'"])), '  print(i%d)' % depth] + (['  if i%d == %s {' % (depth, r.choice(['1', '2', "'b'"]))] + ind(ind(lines)) + ['  }'] if r.random() < .6 else ind(lines)) + ['}']
        elif k == 1:
            lines = ['let n%d = 2' % depth, 'while n%d > 0 {' % depth, '  n%d -= 1' % depth] + ind(lines) + ['}']
        elif k <= 4:
            lines = ['fn %s(a) {' % nm] + ind(['print(a)'] * r.randint(0, 1) + lines) + ['  print(7)', '}', r.choice(['print(%s(1))', '%s(2)', 'let r%d = %%s(2)' % depth, '[1, 2] . map(%s) . print', 'print(two(%s(3), 4))', 'fn() -> %s(5)', '[3, 4] . filter(%s)', 'memoize(%s)(6)', '[[1, 2], [3]] . flat_map(fn(w) { w . map(%s) })']).replace('fn() -> %s(5)', 'let k%d = (fn() -> %%s(5))()' % depth) % nm]
            lines[-1] = 'let j%d = ' % depth + lines[-1] if lines[-1][0] in '[(' else lines[-1]
        elif k == 5:
            lines = ['if true {'] + ind(lines) + ['} else {', '  print(0)', '}']
        elif k == 6:
            lines = ['struct S%d(v) {' % depth, '  fn m(self, a) {', '    print(self->v)', '    g%d(a)' % depth, '  }', '}', 'fn g%d(a) {' % depth] + ind(lines) + ['}', 'S%d(1)->m(2)' % depth] if depth == 99 else ['do {'] + ind(lines) + ['} while false']
        elif k == 7:
            lines = ['let h%d = fn(*a) {' % depth] + ind(lines) + ['}', r.choice(['h%d()', 'print(h%d(1, 2))', '[1, 2] . reduce(h%d)', '[2, 1] . sort_by(fn(x) -> h%d(x))', "'abc' . map(h%d) . print", 'find(h%d, [1, 2])', "print('xaxb' . replace('x', fn(x) -> h%d(x)))", 'print({1: 2} . map(h%d))', 'group_by(h%d, [1])']) % depth]
            lines[-1] = 'let e%d = ' % depth + lines[-1] if lines[-1][0] in '[(\'' else lines[-1]
        elif k == 8:
            lines = ['loop {'] + ind(lines) + ['  break', '}']
        elif k == 9:
            lines = ['print(%d)' % depth] + lines + ['print(%d)' % (10 + depth)]
        else:
            lines = ['// a comment', ''] + lines + ['/* and', 'another */']
    return PRE17 + '\n'.join(lines) + "\nprint('after', l)\nlet late = 1\n"


def failing_all(r, ctx):
    """each failing operation alone, in a function, in a callback, and within a literal"""
    for f, k in shuffled(r, itertools.product(FAILING, range(5))):
        if f == 'late':
            f = 'showlate()'
        yield Case(PRE17 + ['print(1)\nprint(%s)\nprint(2)\n', 'fn g() {\n  t(1)\n  %s\n  t(2)\n}\ng()\n', 'print([1, 2] . map(fn(x) {\n  print(x)\n  (%s)\n}))\n', 'let v = [\n  t(1),\n  %s,\n  t(2)\n]\n', 'let f = fn() -> %s\nfn g(x) -> f()\nfn h(x) {\n  g(x) ; nil\n}\nfor i in range(2) {\n  h(i)\n}\n'][k] % (('let y = ' + f) if k == 1 and f[0] in "[(-'{" else f) + 'print(9)\nlet late = 1\n')


Property('C17', 'a program with a failing operation at one place; output, error report and call chain are judged; non-trivial when distinct',
         ('every failing operation in five surroundings', failing_all, 1000),
         ('failing operations anywhere', forever(failures), 2000),
         ('random programs with errors', mixed(dict(errors=.15, size=15, fn=6, call=8), dict(errors=.08, size=40, fn=5, call=8)), 500))
