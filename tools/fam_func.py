"""Families about names, closures, calls, patterns, structs (C02 - C06)."""
import itertools, random
import gen, values
from check import Case
from families import Property, forever, shuffled, profile, mixed
from values import lit, STRS, PRE


# ---------------------------------------------------------------- C02
class Names:
    """programs made of declarations and uses of a handful of names in nested scopes; every declaration has its own value"""
    POOL = ['a', 'b', 'c', 'd']

    def __init__(self, r, size, bad=0.0):
        self.r, self.left, self.bad = r, size, bad
        self.n = 0
        self.late = r.sample(['g', 'h', 'a', 'b'], r.randint(0, 2))     # global names which functions may use before their declaration
        self.scopes = [{}]
        self.base = [0]        # index of the first scope of each open function
        self.structs = 0
        self.calls = []

    def num(self):
        self.n += 1
        return self.n

    def visible(self):
        out = {}
        for s in self.scopes:
            out.update(s)
        return {x: t for x, t in out.items() if t != 'x'}

    def hidden(self, x):
        for s in reversed(self.scopes):
            if x in s:
                return s[x] == 'x'
        return False

    def name(self):
        """a name to use: usually visible"""
        vs = list(self.visible())
        if self.r.random() < self.bad:
            return self.r.choice(self.POOL + ['g', 'zz', 'len'])
        if len(self.base) > 1 and self.late and self.r.random() < .25:
            x = self.r.choice(self.late)
            if not self.hidden(x):
                return x
        return self.r.choice(vs) if vs else str(self.num())

    def fresh(self, want=None):
        """a name for a declaration in the innermost scope"""
        free = [x for x in self.POOL if x not in self.scopes[-1]]
        if len(self.scopes) == 1:
            free = [x for x in free if x not in self.late]
        if self.r.random() < self.bad:
            return self.r.choice(self.POOL + ['len', 'g', 'print'])
        if not free or self.r.random() < .15:
            return 'n%d' % self.num()
        return self.r.choice(free)

    def line(self, ind, s):
        return '  ' * ind + s + '\n'

    def expr(self, d=2):
        k = self.r.random()
        if d == 0 or k < .45:
            return self.name()
        if k < .6:
            return '[%s, %s]' % (self.expr(d - 1), self.expr(d - 1))
        if k < .75:
            p = self.r.choice(self.POOL)
            self.scopes.append({p: 'v'})
            self.base.append(len(self.scopes) - 1)
            b = self.expr(d - 1)
            self.base.pop()
            self.scopes.pop()
            return '(fn(%s) -> %s)(%d)' % (p, b, self.num())
        if k < .85:
            return '(if %s then %s else %s)' % (self.r.choice(['true', 'false']), self.expr(d - 1), self.expr(d - 1))
        return '%d' % self.num()

    def body(self, ind, decl=None, fn=False):
        self.scopes.append(dict(decl or {}))
        if fn:
            self.base.append(len(self.scopes) - 1)
        out = '{\n'
        for _ in range(self.r.randint(1, 4)):
            if self.left > 0:
                out += self.stmt(ind + 1)
        out += self.uses(ind + 1)
        if fn:
            self.base.pop()
        self.scopes.pop()
        return out + '  ' * ind + '}'

    def uses(self, ind):
        return self.line(ind, 'print(%s)' % ', '.join(["'%d'" % self.num()] + [self.name() for _ in range(self.r.randint(1, 3))]))

    def stmt(self, ind):
        self.left -= 1
        r = self.r
        deep = len(self.scopes) > 5
        k = r.choice(['let', 'let', 'let', 'use', 'asg'] + ([] if deep else ['do', 'if', 'for', 'for', 'fn', 'fn', 'while', 'lam', 'pat']) + (['struct', 'module'] if len(self.scopes) == 1 else []))
        if k == 'let':
            e = self.expr() if r.random() < .4 else str(self.num())
            x = self.fresh()
            if r.random() < .15:
                self.scopes[-1][x] = 'v'
                return self.line(ind, 'let %s' % x)
            if r.random() < .2:
                y = self.fresh()
                if y != x:
                    if r.random() < .5:
                        self.scopes[-1][x] = 'v'
                        f = self.expr(1)
                        self.scopes[-1][y] = 'v'
                        return self.line(ind, 'let %s = %s, %s = %s' % (x, e, y, f))
                    self.scopes[-1][x] = self.scopes[-1][y] = 'v'
                    return self.line(ind, 'let %s, %s = (%s, %s)' % (x, y, e, self.num()))
            self.scopes[-1][x] = 'v'
            return self.line(ind, 'let %s = %s' % (x, e))
        if k == 'use':
            return self.line(ind, 'print(%s)' % self.expr())
        if k == 'asg':
            vs = [x for x, t in self.visible().items() if t == 'v']
            x = r.choice(vs) if vs and r.random() >= self.bad else r.choice(self.POOL) if self.bad else None
            if x is None:
                return self.uses(ind)
            return self.line(ind, '%s = %s' % (x, self.expr(1)))
        if k == 'do':
            return self.line(ind, 'do %s ;' % self.body(ind))
        if k == 'if':
            return self.line(ind, 'if %s %s%s' % (r.choice(['true', 'false', '1']), self.body(ind), ' else ' + self.body(ind) if r.random() < .5 else ''))
        if k == 'while':
            i = 'w%d' % self.num()
            self.scopes[-1][i] = 'r'
            return self.line(ind, 'let %s = 0' % i) + self.line(ind, 'while (%s += 1) <= %d %s%s' % (i, r.randint(0, 2), self.body(ind), ' else ' + self.body(ind) if r.random() < .3 else ''))
        if k == 'for':
            x = self.r.choice(self.POOL)
            if r.random() < .3:
                y = self.r.choice([q for q in self.POOL if q != x])
                return self.line(ind, 'for %s, %s in [(%d, %d), (%d, %d)] %s' % (x, y, self.num(), self.num(), self.num(), self.num(), self.body(ind, {x: 'v', y: 'v'})))
            e = self.expr(1)
            return self.line(ind, 'for %s in [%s, %d] %s%s' % (x, e, self.num(), self.body(ind, {x: 'v'}), ' else ' + self.body(ind) if r.random() < .2 else ''))
        if k == 'fn':
            f = self.fresh()
            a = r.sample(self.POOL, r.randint(0, 2))
            if r.random() < .8 or len(self.scopes) > 1 and f in self.POOL and r.random() < .5:
                self.scopes[-1][f] = 'f'
                b = self.body(ind, {x: 'v' for x in a}, True)
            else:
                b = self.body(ind, {x: 'v' for x in a}, True)
                self.scopes[-1][f] = 'f'
            out = self.line(ind, 'fn %s(%s) %s' % (f, ', '.join(a), b))
            if r.random() < .85:
                out += self.line(ind, 'print(%s(%s))' % (f, ', '.join(str(self.num()) for _ in a)))
            return out
        if k == 'lam':
            f = self.fresh()
            a = r.sample(self.POOL, r.randint(0, 2))
            b = self.body(ind, {x: 'v' for x in a}, True)
            self.scopes[-1][f] = 'v'
            return self.line(ind, 'let %s = fn(%s) %s' % (f, ', '.join(a), b)) + (self.line(ind, '%s(%s)' % (f, ', '.join(str(self.num()) for _ in a))) if r.random() < .8 else '')
        if k == 'pat':
            f = self.fresh()
            a = r.sample(self.POOL, r.randint(2, 3))
            self.scopes[-1][f] = 'f'
            pat = r.choice(['(%s, %s), %s', '%s, (*%s, %s)', '%s, (_, (%s, %s))']) % tuple(a) if len(a) == 3 else r.choice(['(%s, %s)', '%s, (_, %s)', '%s, *%s', '%s, %s = 8']) % tuple(a)
            b = self.body(ind, {x: 'v' for x in a}, True)
            v = {'(%s, %s), %s': '(1, 2), 3'}
            arg = pat
            for x in a:
                arg = arg.replace(x, str(self.num()), 1)
            arg = arg.replace('_', '0').replace('*', '').replace(' = 8', '')
            return self.line(ind, 'fn %s(%s) %s' % (f, pat, b)) + self.line(ind, '%s(%s)' % (f, arg))
        if k == 'struct':
            self.structs += 1
            s = 'S%d' % self.structs
            fs = r.sample(self.POOL, r.randint(1, 2))
            ms = ''
            names = [(m, r.random() < .7) for m in r.sample(['m', 'p', 'k'], r.randint(1, 3))]
            for m, self_ in names:
                a = r.sample(self.POOL + ['m'], r.randint(0, 2))
                # without self, neither the fields nor the methods with self may be named, and they hide globals
                seen = dict({n: 'f' if self_ or not sf else 'x' for n, sf in names}, **{f: 'v' if self_ else 'x' for f in fs})
                b = self.method(ind + 1, seen, a)
                ms += self.line(ind + 1, 'fn %s(%s) %s' % (m, ', '.join((['self'] if self_ else []) + a), b))
                self.calls = self.calls + [(s, m, self_, len(fs), len(a))]
            self.scopes[-1][s] = 'f'
            out = self.line(ind, 'struct %s(%s) {' % (s, ', '.join(fs))) + ms + self.line(ind, '}')
            return out + self.callm(ind, s)
        if k == 'module':
            self.structs += 1
            s = 'M%d' % self.structs
            ms = ''
            names = r.sample(['m', 'p', 'k'], r.randint(1, 3))
            for m in names:
                a = r.sample(self.POOL + ['m'], r.randint(0, 2))
                b = self.method(ind + 1, {n: 'f' for n in names}, a)
                ms += self.line(ind + 1, 'fn %s(%s) %s' % (m, ', '.join(a), b))
                self.calls = self.calls + [(s, m, False, 0, len(a))]
            self.scopes[-1][s] = 'f'
            return self.line(ind, 'module %s {' % s) + ms + self.line(ind, '}') + self.callm(ind, s)

    def method(self, ind, seen, params):
        return self.body(ind, dict(seen, **{x: 'v' for x in params}), True)

    def callm(self, ind, s):
        out = ''
        for t, m, self_, nf, na in self.calls:
            if t == s and self.r.random() < .8:
                x = '%s(%s)->%s' % (s, ', '.join(str(self.num()) for _ in range(nf)), m) if self_ else '%s->%s' % (s, m)
                out += self.line(ind, '%s(%s)' % (x, ', '.join(str(self.num()) for _ in range(na))))
        return out

    def program(self):
        out = ''
        while self.left > 0:
            out += self.stmt(0)
            if self.late and self.r.random() < .15:
                x = self.late[0]
                if x not in self.scopes[0]:
                    out += 'let %s = %d\n' % (x, self.num())
                    self.scopes[0][x] = 'v'
                    self.late.pop(0)
                    self.done = getattr(self, 'done', []) + [x]
        for x in self.late:
            if x not in self.scopes[0]:
                out += 'let %s = %d\n' % (x, self.num())
                self.scopes[0][x] = 'v'
        fs = [f for f, t in self.scopes[0].items() if t == 'f' and f in self.POOL]
        for f in fs:
            out += 'print(%s)\n' % f
        return out + self.uses(0)


Property('C02', 'programs of declarations and uses of the same few names in nested scopes, every declaration with its own value; non-trivial when distinct',
         ('nested scopes sharing names', forever(lambda r: Names(r, r.choice([8, 14, 22])).program()), 800),
         ('random programs with much shadowing', mixed(dict(shadow=.7, fn=6, block=5, size=24, for_=6), dict(shadow=.8, fnlist=3, depth=2, size=24)), 300))


# ---------------------------------------------------------------- C03
def closures(r):
    """closures over variables of every kind of scope, left by every kind of exit, called in a random order"""
    n = [0]
    left = [r.choice([6, 10, 16])]

    def num():
        n[0] += 1
        return n[0]

    def clo(vs):
        """a function of one argument over some of vs"""
        v = r.choice(vs)
        w = r.choice(vs)
        k = r.randint(0, 9)
        return ['fn(q) -> [%s, %s]' % (v, w), 'fn(q) { %s += q ; %s }' % (v, v), 'fn(q) -> (%s = q)' % v,
                'fn(q) { let z = %s ; let up = fn() { z += 1 ; %s += z ; [z, %s] } ; up() ; up() }' % (v, v, w),
                'fn(q) -> (fn() -> (fn() -> (%s += q))())()' % v,
                'fn(q) { if q %% 2 == 0 { return %s } %s += q ; %s = %s ; [%s, %s] }' % (v, v, w, v, v, w),
                'fn(q) { %s, %s = (%s, q) ; [%s, %s] }' % ((v, w, w, v, w) if v != w else (v, '_', w, v, w)),
                'fn(q) { for i in range(2) { %s += i } %s }' % (v, v),
                'fn(q) { let s = 0 ; map(fn(u) -> (s += u + %s), [q, q]) ; %s = s ; s }' % (w, v),
                'fn(q) { fn in() -> %s ; let %s = q ; [in(), %s] }' % (v, 'sh', v)][k if k < 9 else 0]

    def scope(d, ind, vs, infn, inloop, head=''):
        out = '{\n' + head
        mine = list(vs)
        for _ in range(r.randint(1, 4)):
            left[0] -= 1
            k = r.choice(['let', 'let', 'clo', 'clo', 'clo', 'chg'] + (['for', 'for', 'while', 'do', 'fn', 'fn', 'if'] if d > 0 and left[0] > 0 else []) + (['exit'] * 2 if infn or inloop else []))
            out += stmt(k, d, ind, mine, infn, inloop)
        return out + ind[:-2] + '}'

    def stmt(k, d, ind, vs, infn, inloop):
        if k == 'let' or not vs:
            v = 'v%d' % num()
            if vs and r.random() < .25:
                v = r.choice(vs) if len(ind) > 0 and False else v
            e = r.choice([str(num() * 10), str(num() * 10), r.choice(vs) if vs else '0', r.choice(vs) + ' + 1' if vs else '1'])
            vs.append(v)
            return ind + 'let %s = %s\n' % (v, e)
        if k == 'clo':
            return ind + 'push(%s, fs)\n' % clo(vs)
        if k == 'chg':
            return ind + r.choice(['%s += 100\n' % r.choice(vs), 'print(%s)\n' % ', '.join(vs), 'print(call(-1, %d))\n' % num(), 'print(call(0, %d))\n' % num()])
        if k == 'exit':
            ops = (['break', 'continue'] if inloop else []) + (['return %s' % r.choice(vs), 'return push(%s, fs)' % clo(vs)] if infn else [])
            return ind + 'if c() { %s }\n' % r.choice(ops)
        if k == 'for':
            x = 'x%d' % num()
            y = 'x%d' % num()
            h = r.choice(['for %s in range(3) ' % x, 'for %s in [5, 6] ' % x, "for %s, %s in enumerate('ab') " % (x, y)])
            if y not in h:
                y = None
            return ind + h + scope(d - 1, ind + '  ', vs + [x], infn, True, (ind + '  ' + 'push(fn(q) -> %s, fs)\n' % (y or x) if r.random() < .4 else '') + (ind + '  %s = ord(%s)\n' % (y, y) if y else '')) + (' else ' + scope(d - 1, ind + '  ', vs, infn, inloop) if r.random() < .2 else '') + '\n'
        if k == 'while':
            i = 'w%d' % num()
            return ind + 'let %s = 0\n' % i + ind + 'while (%s += 1) < 4 ' % i + scope(d - 1, ind + '  ', vs, infn, True) + '\n'
        if k == 'do':
            return ind + 'do ' + scope(d - 1, ind + '  ', vs, infn, False) + ' ;\n'
        if k == 'if':
            return ind + 'if c() ' + scope(d - 1, ind + '  ', vs, infn, inloop) + ' else ' + scope(d - 1, ind + '  ', vs, infn, inloop) + '\n'
        f = 'f%d' % num()
        p = 'p%d' % num()
        out = ind + 'fn %s(%s) ' % (f, p) + scope(d - 1, ind + '  ', vs + [p], True, False) + '\n'
        return out + ind + r.choice(['%s(%d)\n' % (f, num()), 'print(%s(%d))\n' % (f, num()), '%s(1) ; %s(2)\n' % (f, f), 'push(%s, fs)\n' % f, 'for _ in range(2) { %s(7) }\n' % f])
    vs = []
    out = 'let fs = [], bits = [%s]\nfn c() -> if bits then pop(bits) else false\nlet budget = 12\nfn call(i, q) -> if fs and budget > 0 then (if (budget -= 1) >= 0 then fs[i](q) else nil) else nil\n' % ', '.join(r.choice(['true', 'false']) for _ in range(r.randint(0, 12)))
    k = r.randint(1, 3)
    for _ in range(k):
        out += r.choice(['fn main%d(a) ' % num() + scope(3, '  ', ['a'], True, False) + '\nmain%d(1000)\n' % n[0]] if r.random() < .6 else [stmt(r.choice(['for', 'do', 'fn', 'while', 'let', 'clo']), 3, '', vs, False, False)]) if True else ''
    # the closures which are called may call push(fs): a bounded history
    hist = ', '.join(str(r.randint(0, 30)) for _ in range(r.randint(4, 12)))
    return out + 'for k in [%s] {\n  if fs { let f = fs[k %% len(fs)]\n  print(k, f(k)) }\n}\nprint(len(fs))\n' % hist


def closure_main(r):
    s = closures(r)
    # number the main functions consistently: `fn mainN(a)` is called right after its body
    import re
    out, name = [], None
    for l in s.split('\n'):
        m = re.match(r'fn (main\d+)\(a\)', l)
        if m:
            name = m.group(1)
        l = re.sub(r'^main\d+\(1000\)$', lambda _: '%s(1000)' % name, l)
        out.append(l)
    return '\n'.join(out)


Property('C03', 'programs creating closures in nested scopes and calling them in a random order; non-trivial when distinct',
         ('closures over every kind of scope and exit', forever(closure_main), 700),
         ('random programs with closures', mixed(dict(fnlist=8, fn=5, shadow=.3, size=26), dict(fnlist=10, for_=8, brk=5, ret=5, size=26, depth=2)), 300))
