"""Families about eval and monitor (C25)."""
import random
import gen, mangle, values
from check import Case
from families import Property, forever, shuffled
import fam_prog
from fam_static import Pool


def q(t):
    return "'%s'" % t.replace('\\', '\\\\').replace("'", "\\'")


FORMALS = ['x', 'y', 'l', 'd', 's', 'f', 'z', 'p', 't', 'u', 'P']
PRE = fam_prog.PRE16


def over(r):
    """a text which is a function of everything the program declares, then called with it"""
    x = fam_prog.Expr(r)
    e = x.e(r.choice([1, 2, 2, 3]))
    while ('2i' in e or '1i' in e) and ('int)' in e or '46116' in e):
        e = x.e(2)
    k = r.random()
    if k < .6:
        t = 'fn(%s) -> %s' % (', '.join(FORMALS), e)
    elif k < .8:
        t = 'fn(%s) {\n  let g = fn(h) -> %s\n  g(1)\n}' % (', '.join(FORMALS), e)
    else:
        t = 'fn(%s) { for i in [1, 2] { print(i, %s) } ; x }' % (', '.join(FORMALS), e)
    return PRE + 'let e = eval(%s)\nprint(e(%s))\nprint(x, y, l, z)\n' % (q(t), ', '.join(FORMALS))


# texts which are an expression of their own
GOOD = ['1', '1 + 2', '[1, 2, 3]', "'ab' * 2", '{1: 2}', 'fn(x) -> x + 1', 'fn(x) { print(x) ; x }', 'print(7)', 'print', '(+)', '(* 3)', 'len([1, 2])', '1, 2', '[i for i in [1]]' if False else '[3] . map(+ 1)', 'if 1 then 2 else 3', 'nil',
        'eval(\'1 + 1\')', 'eval(\'fn(a) -> a * 2\')(4)', '(fn(a) { let b = a ; fn() { b += 1 ; b } })(5)', 'reduce(+)([1, 2, 3])', '[1, 2, 3] . map(fn(x) -> eval(str(x) + \' * 2\'))', '(fn() { let n = 0 ; while n < 3 { n += 1 } ; n })()',
        'memoize(fn(x) { print(x) ; x })', '(fn() { for i in [1, 2, 3] { if i == 2 { return i } } })()', 'set([3, 1])', '2i + 1', 'rational(1, 2)', '->x', '->w', 'int', 'true', '{1, 2} . len', '(fn(a, b = 3, *c) -> [a, b, c])(1)', '\n  4\n', '1 // a\n + 2 /* b */']
# texts which fail, when compiled or when run
BAD = ['', ' ', '1 +', '1 2', ')', '(1', "'a", 'x', 'x + zz', 'n = 3', 'let n = 3', '1 ; 2', 'nil + 1', 'nil()', '[][0]', 'fn(a) -> a + nil', 'fn(a) { a = b ; a }', 'fn() -> n', '1 / 0', 'eval(\'n\')', 'eval(\'nil + 1\')', 'eval(3)', '->zz', 'o->w->zz', 'return 3', 'break', '}', '{', '\n\n  nil - 1\n', '1 +\n zork\n+ nil', '_', '*a', 'fn f() -> 1',
       'assert 1 == 2', '[1,\n2,\n3][\n7]', '(fn(a) {\n  let b = a\n\n  b + nil\n})(3)', 'struct A()', 'int(\'a\')', '[3, 4] . map(fn(v) -> v . first)', 'exit', '(fn() { exit })()', '1 @', '/*', '#', '"\n', 'native', 'if 1 then 2', 'sort_by(nil)([1])', '(fn(a, b) -> a)(1, 2, 3)']


def piece(r):
    if r.random() < .75:
        return r.choice(GOOD)
    return r.choice(BAD)


def nested(r, d):
    e = piece(r)
    for _ in range(d):
        e = r.choice(['eval(%s)', '[eval(%s), 1]', '(fn(v) -> eval(v))(%s)', 'fn() -> eval(%s)', '[%s] . map(eval)', '1 + eval(%s)', 'print(eval(%s))', '(%s) . eval', 'eval %s']) % q(e)
    return e


def use(r, t, k):
    """the value of text t, in some place of an expression"""
    return r.choice(['eval(%s)', 'ev(%s)', '[t(%d), eval(%%s), t(%d)]' % (k, k + 1), '(%s . eval)', 'eval(%s)', '[...[eval(%s)], 3]', 'u(t(%d), eval(%%s))' % k, '(eval)(%s)', 'str(eval(%s))', '(t(%d), eval(%%s))' % k, 'm->run(%s)', '{1: eval(%s)}', '(if t(%d) then eval(%%s) else t(8))' % k, '(n = eval(%s))',
                     'o->at(%s)', '[%s, %s] . map(eval)' % ('%s', q(piece(r))), '(eval(%s) == eval(%s))' % ('%s', q(t)), '(w[0] = eval(%s))', 'df(%s)', 'g()(%s)', '[%s] . reduce(fn(a, b) -> eval(b))', 'format(\'%%r\', eval(%s))' if False else 'repr(eval(%s))', 'mem(%s)', 'typeof(eval(%s))']) % t


HEAD = """struct A(x, w) {
  fn at(self, c) -> [self->x, eval(c), self->w]
}
module m {
  fn run(c) { let r = eval(c) ; r }
}
fn t(v) { print('t', v) ; v }
fn u(a, b = 10, *c) -> (a, b, c)
fn ev(c) { let a = 1, r = eval(c) ; print('a', a) ; r }
fn df(c, v = eval('[' + '5]')) -> (v, eval(c))
fn g() { let k = 4 ; fn(c) { k += 1 ; let r = eval(c) ; k += 1 ; (k, r) } }
let n = 2, w = [1, 2], o = A(3, 4), mem = memoize(eval), fs = []
"""
TAIL = 'print(n, w, o)\n'


def placed(r):
    out, k = [], 0
    for _ in range(r.randint(1, 4)):
        k += 2
        t = q(nested(r, r.choice([0, 0, 0, 1, 1, 2])))
        e = use(r, t, k)
        i = r.random()
        if i < .3:
            st = 'print(%s)' % e
        elif i < .4:
            st = 'for i in [1, 2] {\n  let v = %s\n  print(i, v)\n  fs . push(fn() -> (i, v))\n}' % e
        elif i < .5:
            st = 'let v%d = %s\nprint(v%d)' % (k, e, k)
        elif i < .6:
            st = 'fn h%d(a) {\n  let b = a\n  let c = %s\n  print(b, c)\n  if a > 0 { h%d(a - 1) } else { c }\n}\nprint(h%d(2))' % (k, e, k, k)
        elif i < .7:
            st = 'if %s { print(1) } else { print(2) }' % e
        elif i < .78:
            st = 'let a%d = 0\nwhile a%d < 3 {\n  a%d += 1\n  if a%d == 2 { continue }\n  let v = %s\n  print(a%d, v)\n}' % (k, k, k, k, e, k)
        elif i < .86:
            st = 'do {\n  let a = 5\n  let c = fn() { let v = %s ; a += 1 ; (a, v) }\n  print(c(), c())\n  print(a)\n}' % e
        elif i < .93:
            st = 'let q%d = fn(a) {\n  for i in [1, 2] {\n    if %s { return (a, i) }\n  }\n}\nprint(q%d(6))' % (k, e, k)
        else:
            st = 'print(%s, %s)' % (e, use(r, q(piece(r)), k + 50))
        out.append(st)
    return HEAD + '\n'.join(out) + '\nfor c in fs { print(c()) }\n' + TAIL


def made(r):
    """texts which are put together while the program runs"""
    o = r.choice(['+', '-', '*', 'in', '<', '==', '**', 'and', '/'])
    a, b = r.choice(['i', 'str(i)', 'repr([i, x])', 'repr(str(i))', "'(' + str(i - 2) + ')'"]), r.choice(["'2'", 'str(x)', 'repr(w)', "'[1, ' + str(i) + ']'", "' ' + str(i) + ' '", "'nil'", "'eval(' + repr(str(i)) + ')'"])
    if a == 'i':
        a = 'str(i)'
    t = "%s + ' %s ' + %s" % (a, o, b)
    return """let x = %d, w = [1, 2]
fn run(c) { print(c) ; eval(c) }
let fs = []
for i in range(%d) {
  fs . push(run('fn(v) -> (v, ' + %s + ')'))
  let y = i * 2
  print(%s)
}
print(fs . map(fn(f) -> f(x)))
let e = %s
let text = 'fn(a%s) -> ' + e + ' + a'
print(%s)
print(w, x)
""" % (r.randint(0, 4), r.randint(1, 5), t, r.choice(['eval(%s)' % t, '[i, eval(%s)]' % t, '[y, eval(%s), y]' % t]), r.choice(["'1'", "join(' + ')([1, 2, 3] . map(str))", 'repr(w) . len . str', "'(' * %d + '2' + ')' * %d" % ((r.randint(1, 4),) * 2)]),
       r.choice(['', ', b = 2', ', b?']), r.choice(['eval(text)(x)', '[1, 2] . map(eval(text))', 'eval(text)(x) + eval(e)', 'eval(text + \' +\')', 'eval(\'(\' + text + \')(3)\')', 'eval(\'(fn(f) -> f(f(1)))(\' + text + \')\')']))


def reread(r):
    vs = [values.value(r, r.choice([1, 2, 3]), 'slvSd') for _ in range(r.randint(1, 3))]
    return ''.join('let v%d = %s\nprint(repr(v%d))\nlet r%d = eval(repr(v%d))\nprint(r%d == v%d, repr(r%d), typeof(r%d))\n' % ((i, v) + (i,) * 7) for i, v in enumerate(vs))


def refused(rng, ctx):
    """edited expressions and programs as texts"""
    pool = Pool(ctx, 4, 300)
    while True:
        k = rng.random()
        if k < .4:
            x = fam_prog.Expr(rng)
            t = x.e(rng.choice([1, 2, 2, 3]))
            if rng.random() < .6:
                t = 'fn(%s) -> %s' % (', '.join(rng.sample(FORMALS, rng.randint(3, 11))), t)
            if rng.random() < .5:
                t = mangle.mangle(rng, t)
        elif k < .6:
            t = mangle.mangle(rng, rng.choice(GOOD + BAD))
        elif k < .8:
            t = 'fn() {\n%s}' % pool(rng)
        else:
            t = pool(rng)
            if rng.random() < .5:
                t = mangle.mangle(rng, t)
        if len(t) > 400 or '\r' in t or any(w in t for w in ('read', 'argv', 'env(', 'native ', 'heap', 'monitor')):
            continue
        yield PRE + 'let e = %s\nprint(e)\n' % rng.choice(['eval(%s)', '[1, eval(%s)]', '(fn(c) -> eval(c))(%s)', '[%s] . map(eval)', 'eval(\'eval(\' + repr(%s) + \')\')']) % q(t)


refused.pooled = True


def texts_all(rng, ctx):
    """each text in each place"""
    for t in GOOD + BAD:
        for e in ['eval(%s)', 'ev(%s)', '[t(1), eval(%s), t(2)]', '[%s] . map(eval)', 'o->at(%s)', 'g()(%s)', 'df(%s)', 'eval(\'eval(\' + repr(%s) + \')\')', '(fn(c) -> fn() -> eval(c))(%s)()', 'm->run(%s)', 'mem(%s)']:
            yield HEAD + 'print(%s)\n' % (e % q(t)) + TAIL


def monitors(r):
    c = r.choice(["'%s'" % ''.join(r.choice(['stack', 'call-stack', 'code', ' ', '-', 'x', '', 'Stack', 'help', 'collect-memory']) for _ in range(r.randint(0, 3))), '3', 'nil', "['stack']", "'stac' + 'k '"])
    return HEAD + 'fn f(c) { let a = 1 ; monitor(c) ; a }\n' + r.choice(['print(1, monitor(%s))\n', 'print(f(%s))\n', 'print([%s] . map(monitor))\n', 'print(eval(\'monitor(\' + repr(%s) + \')\'))\n']) % c + TAIL


Property('C25', 'a program which evaluates at least one text (or calls monitor); the specification gives the value or the error of the text, executed in isolation, and everything the program does before and after',
         ('texts in places', lambda r, ctx: shuffled(r, texts_all(r, ctx)), 200), ('expressions of the program', forever(over), 300), ('texts in programs', forever(placed), 300), ('texts made by the program', forever(made), 150), ('values read back', forever(reread), 200),
         ('edited texts', refused, 250), ('monitor', forever(monitors), 60))
