"""Families about what a text means: C19."""
import itertools, random, re
import texts
from check import Case
from families import Property
from fam_static import Pool, some

BIN = ['*', '/', '%', '**', 'is', 'is not', 'in', 'not in', '+', '-', '<<', '>>', '&', '|', '^', '.', '<', '<=', '>', '>=', '==', '!=', 'and', 'or']
ASG = ['=', '+=', '-=', '*=', '/=', '&=', '|=', '^=', '<<=', '>>=', '%=', '**=', '.=', 'max=', 'min=']
PRE = ['-', '!', 'not ', '- -', '! -', '-!', 'not not ']
ATOMS = ['0', '1', '2', '3', '5', '7', '12', '2i', 'true', 'false', 'nil', "'s'", "'b'", 'x', 'y', 'z', 'f', 'g', 'l', 'v', 'd', 'p', 'int', 'str', 'list', 'len', 'abs']
HEAD = '''let x = 6, y = -3, z = 11
let l = [4, 1, 3], v = (2, 9), d = {1: 2, 's': 3}
struct P(a, b) { fn m(self, k) -> self->a * 10 + k  fn q(k) -> k + 100 }
let p = P(8, P(1, l))
fn f(a) { print('f', a); a * 2 + 1 }
fn g(a, b = 7) -> [a, b]
'''


class Texts:
    """expressions as texts, with the parentheses where they happen to be"""

    def __init__(self, r):
        self.r = r

    def sp(self):
        return self.r.choice(['', ' ', ' ', ' '])

    def op(self, o):
        s = self.sp()
        if o.isalpha() or ' ' in o or s == ' ':
            return ' ' + o + ' '
        return o

    def atom(self):
        return self.r.choice(ATOMS)

    def int(self):
        return self.r.choice(['0', '1', '2', '3', '5', '12', 'x', 'y', 'z'])

    def term(self, n):
        r = self.r
        if n <= 0 or r.random() < .35:
            return self.atom() if r.random() < .5 else self.int()
        k = r.randrange(24)
        e = lambda: self.expr(n - 2)
        if k < 4:
            return '(' + e() + ')'
        if k < 6:
            return r.choice(PRE) + self.term(n - 1)
        if k == 6:
            return r.choice(['f', 'g', 'abs', 'P', 'len', 'p->m', 'sum', 'max']) + '(' + self.args(n) + ')'
        if k == 7:
            return r.choice(['f', 'g', 'abs', 'int', 'len', 'p->m', 'P->q', 'f f', 'max x']) + ' ' + r.choice(['x', '3', "'s'", 'l', 'true', 'f', 'if x then y else z', 'fn(q) -> q + 1'])
        if k == 8:
            return r.choice(['l', 'v', 'd', "'abc'", self.term(n - 1)]) + '[' + e() + ']'
        if k == 9:
            b = lambda: r.choice(['', self.int(), e()])
            return r.choice(['l', "'abcde'", 'v']) + '[' + b() + ':' + b() + r.choice(['', ':', ':' + self.int()]) + ']'
        if k == 10:
            return r.choice(['p->a', 'p->b->a', 'p->b->b[1]', 'p->m', '(->a) p', '(->b)(p)', 'p->a->b'])
        if k < 14:
            return self.section(n)
        if k == 14:
            return 'if ' + e() + ' then ' + e() + r.choice(['', ' elif ' + e() + ' then ' + e()]) + ' else ' + e()
        if k == 15:
            return 'fn(' + r.choice(['q', 'q, r', '(q, r)', '*q', 'q, r=2', 'q?', '(q, *_)', 'q, (r, *s), t']) + ') -> ' + e()
        if k == 16:
            return '[' + self.args(n) + ']'
        if k == 17:
            return '{' + (self.args(n) if r.random() < .5 else ', '.join(self.atom() + ': ' + e() for _ in range(r.randint(1, 3)))) + r.choice(['', ',']) + '}'
        if k == 18:
            return '(' + self.args(n) + r.choice([',', ',', ', 1', '']) + ')'
        if k == 19:
            return '(' + r.choice(['x', 'y', 'l[0]', 'l[1]', 'p->a', 'd[1]', 'x, y', 'x, *y', 'l[0], x', '(x, y), z', 'p->a, l[2]', '_, x', 'x, *_']) + ' ' + r.choice(ASG if r.random() < .6 else ['=']) + ' ' + e() + ')'
        if k == 20:
            return r.choice(['l', 'v', '(1, 2)', '[3]']) + ' . ' + r.choice(['f', 'map(f)', 'filter(>2)', 'map (+1)', 'sum', '[0]', 'len . (+2)', 'reduce(+)', 'sort . reverse'])
        if k == 21:
            return 'fn() { ' + r.choice(['', 'x = x + 1; ']) + r.choice(['return ', '']) + e() + r.choice(['', '', ';']) + ' }' + r.choice(['', '()'])
        return self.term(n - 1)

    def section(self, n):
        r, o = self.r, self.r.choice(BIN)
        k = r.randrange(7)
        e = self.term(n - 2)
        if k == 0:
            t = '(' + o + ')'
        elif k == 1:
            t = '(' + o + ' ' + e + ')'
        elif k == 2:
            t = '(' + e + ' ' + o + ')'
        elif k == 3:
            t = '(' + o + e + self.op(r.choice(BIN)) + self.term(n - 2) + ')' if not o.isalpha() else '(' + o + ' ' + e + ')'
        elif k == 4:
            t = '(' + e + self.op(r.choice(BIN)) + self.term(n - 2) + self.op(o).rstrip() + ')'
        elif k == 5:
            t = '(' + r.choice(['-', '!', 'not', '->a', '->b']) + ')'
        else:
            return 'map(' + r.choice([o, o + ' ' + e, e + ' ' + o]) + ', l)'
        return t + r.choice(['', '', '(2)', '(2, 3)', '(7)', ' 3', '(2)(5)', ' . f'])

    def args(self, n):
        r = self.r
        return ', '.join(r.choice(['', '', '', '', '...']) + self.expr(n - 2) for _ in range(r.choice([0, 1, 1, 2, 2, 3])))

    def expr(self, n):
        e = self.term(n)
        for _ in range(self.r.choice([0, 0, 1, 1, 1, 2, 2, 3]) if n > 0 else 0):
            e += self.op(self.r.choice(BIN)) + self.term(n - 1)
        return e


def shape(r, e):
    """a place for an expression"""
    k = r.randrange(10)
    if k < 5:
        return HEAD + 'print(%s)\nprint(x, y, z, l)' % e
    if k == 5:
        return HEAD + 'let r = %s\nprint(r)\n' % e
    if k == 6:
        return HEAD + 'x %s %s\nprint(x, y, z, l)' % (r.choice(ASG), e)
    if k == 7:
        return HEAD + '%s %s %s\nprint(x, y, z, l, p)' % (r.choice(['x, y', 'l[0]', 'l[0], x', 'p->a', 'x, *y', '(x, y), z', 'x', '_', 'p->b->a', 'd[1]', 'x, _, *z']), r.choice(ASG[:1] * 4 + ASG), e)
    if k == 8:
        return HEAD + 'fn h() -> %s\nprint(h(), x)' % e
    return HEAD + 'fn h() { %s }\nprint(h(), x, y)' % e


def pairs(rng, ctx):
    """all pairs, and then triples, of operators over operands that tell the trees apart"""
    ops = BIN + ASG
    ps = [(a, b) for a in ops for b in ops]
    rng.shuffle(ps)
    t = Texts(rng)
    def one(os):
        e = rng.choice(PRE + [''] * 9) + (rng.choice(['x', 'y', 'l', 'z']) if rng.random() < .6 else t.int())
        for o in os:
            e += ' ' + o + ' ' + rng.choice(PRE + [''] * 12) + rng.choice([t.int, t.int, t.atom, t.int])()
        return Case(HEAD + 'print((%s))\nprint(x, y, z, l)' % e, kind='tree')
    for p in ps:
        yield one(p)
    while True:
        yield one([rng.choice(ops if rng.random() < .2 else BIN) for _ in range(rng.choice([3, 3, 3, 4, 5]))])


def expressions(rng, ctx):
    t = Texts(rng)
    while True:
        e = t.expr(rng.choice([2, 3, 4, 5, 6]))
        if len(e) < 160:
            yield Case(shape(rng, e), kind='tree')


def respaced(r, src):
    """the same tokens with other spaces, line breaks and comments between them (which may change what they mean)"""
    ts = texts.TOK.findall(src)
    out = []
    for i, t in enumerate(ts):
        if t.isspace():
            k = r.random()
            t = t if k < .8 else ' ' if k < .87 else '\n' if k < .94 else r.choice(['\n\n', ' // c\n', '/* c */', ' /*\n*/ ', '\t', '\r\n', '  ', '; ', ';\n'])
        out.append(t)
        if r.random() < .03 and not t.startswith('//'):
            out.append(r.choice([' ', '\n', '\n', ' // c\n', '/**/', '\n\n', ';']))
    return texts.one_line(''.join(out))


def layout(rng, ctx):
    pool, t = Pool(ctx, 6, 500), Texts(rng)
    while True:
        if rng.random() < .6:
            s = respaced(rng, shape(rng, t.expr(3)) if rng.random() < .7 else some(rng))
            yield Case(s, kind='tree', lines=False)
        else:
            yield Case(respaced(rng, pool(rng)), kind='parse', lines=False)


def edited(rng, ctx):
    """texts which may not be programs any more"""
    pool, t = Pool(ctx, 6, 400), Texts(rng)
    while True:
        k = rng.random()
        if k < .5:
            yield Case(texts.text(rng, lambda: shape(rng, t.expr(3))[len(HEAD):]), kind='parse', lines=False)
        elif k < .7:
            yield Case(' '.join(rng.choice(texts.BITS[:90]) for _ in range(rng.choice([2, 3, 4, 5, 6]))), kind='parse', lines=False)
        else:
            yield Case(texts.text(rng, lambda: pool(rng)), kind='parse', lines=False)


Property('C19', 'a text of the families below; the grammar of the specification says whether it is a program and which tree it is; run on that tree, the specification says what is '
         'to be observed (distinct operands, so that another tree is seen), and a text that is not of the grammar has to be rejected',
         ('pairs and triples of operators', pairs, 300), ('expressions', expressions, 300), ('layout', layout, 200), ('edited', edited, 300))
