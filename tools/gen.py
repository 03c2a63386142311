"""Random Cordy programs.  Every choice comes from one random.Random; a profile sets how likely the constructs are."""
import random

INTS = ['0', '1', '2', '3', '4', '5', '7', '9', '10', '-1', '-2', '-3', '12', '63', '100']
WORDS = ['', 'a', 'b', 'ab', 'abc', 'x y', 'hello', 'zz', 'Q', 'a,b,c', 'ba']

PROFILE = dict(print=8, let=8, assign=6, opassign=4, iff=6, while_=3, for_=4, loop=2, dow=2, brk=3, fn=3, call=4, ret=2,
               block=2, exprstmt=3, patlet=1, patasg=1, idxasg=2, mutate=3, fnlist=0, nop=1, asrt=1, thenelse=2, lambda_=1,
               errors=0.02, trace=0.3, depth=3, size=22)


class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(PROFILE, **prof)
        self.scopes = [{}]
        self.fstart = [0]            # scope index at which the current function starts
        self.loops = [0]             # loops open in the current function
        self.n = 0
        self.tn = 0
        self.left = self.p['size']
        self.readonly = set()
        self.fns = {}                # name -> arity
        self.ind = 0
        self.cont = []               # may `continue` be used in the innermost loop

    # helpers
    def ch(self, *a):
        return self.r.choice(a)

    def w(self, table):
        ks = [k for k, v in table if v > 0]
        return self.r.choices(ks, [v for k, v in table if v > 0])[0]

    def pr(self, x):
        return self.r.random() < x

    def fresh(self, pre='v'):
        self.n += 1
        return '%s%d' % (pre, self.n)

    def vars(self, ty=None, assignable=False):
        out = {}
        for s in self.scopes:
            out.update(s)
        return [k for k, t in out.items() if (ty is None or t == ty) and not (assignable and k in self.readonly)]

    def declare(self, name, ty):
        self.scopes[-1][name] = ty

    def newname(self, ty, pre='v'):
        """a name for a declaration in this scope, often shadowing an outer one"""
        outer = [k for s in self.scopes[:-1] for k in s if k not in self.scopes[-1] and k not in self.readonly]
        if outer and self.pr(self.p.get('shadow', 0.25)):
            return self.r.choice(outer)
        return self.fresh(pre)

    def line(self, s):
        return '  ' * self.ind + s + '\n'

    # expressions
    def t(self, e):
        """wraps an operand so that its evaluation is visible"""
        if self.pr(self.p['trace']):
            self.tn += 1
            return 't(%d, %s)' % (self.tn, e)
        return e

    def atom(self, ty):
        vs = self.vars(ty)
        if vs and self.pr(0.65):
            return self.r.choice(vs)
        if ty == 'int':
            return self.r.choice(INTS)
        if ty == 'bool':
            return self.ch('true', 'false')
        if ty == 'str':
            return "'%s'" % self.r.choice(WORDS)
        if ty == 'list':
            return '[' + ', '.join(self.r.choice(INTS) for _ in range(self.r.randint(0, 4))) + ']'
        if ty == 'vec':
            return '(' + ', '.join(self.r.choice(INTS) for _ in range(self.r.randint(2, 3))) + ')'
        if ty == 'set':
            return '{' + ', '.join(self.r.choice(INTS) for _ in range(self.r.randint(1, 3))) + '}'
        if ty == 'dict':
            return '{' + ', '.join('%s: %s' % (self.ch("'a'", "'b'", "'c'", '1', '2'), self.r.choice(INTS)) for _ in range(self.r.randint(1, 3))) + '}'
        if ty == 'range':
            return 'range(%s)' % self.ch('0', '1', '2', '3', '4', '1, 4', '5, 1, -2', '0, 7, 3')
        if ty == 'fn1':
            return self.ch('(+1)', '(*2)', '(-)', 'fn(q) -> q + 2', 'abs', 'fn(q) { print(q) ; q }')
        return 'nil'

    def paren(self, e):
        return '(%s)' % e

    def e(self, ty, d=None):
        """an expression of type ty"""
        if d is None:
            d = self.p['depth']
        if d <= 0 or self.pr(0.25):
            return self.t(self.atom(ty))
        s = getattr(self, 'e_' + ty, None)
        if s is None:
            return self.t(self.atom(ty))
        if self.pr(self.p['errors']):
            return self.bad(d)
        x = s(d - 1)
        return self.t(x) if self.pr(0.3) else x

    def operand(self, ty, d):
        x = self.e(ty, d)
        simple = x.replace('_', '').isalnum() or (x[:1] in '(["\'' and self.balanced(x)) or x.startswith('t(')
        return x if simple or self.pr(0.0) else '(%s)' % x

    @staticmethod
    def balanced(x):
        """x is one bracketed or quoted unit"""
        if x[0] in '\'"':
            return x.count(x[0]) == 2 and x[-1] == x[0]
        dep = 0
        for i, c in enumerate(x):
            if c in '([{':
                dep += 1
            elif c in ')]}':
                dep -= 1
                if dep == 0:
                    return i == len(x) - 1
        return False

    def bad(self, d):
        return self.ch('(1 / 0)', "(1 - 'x')", '[1][9]', "{'k': 1}['none']", '(nil + nil)', '([] . max)', "('x' . int)",
                       '(3 % 0)', '(5)()', "nil(1)", "(1, 2, 3)[-4]", "(fn(a) -> a)(1, 2)", "(2 ** -1)", "('%d' % 'a')",
                       '([1] . map(3))', '(nil . len)')

    def e_int(self, d):
        o = self.operand
        k = self.w([('bin', 8), ('neg', 1), ('tern', 2), ('len', 1), ('idx', 1), ('call', 3), ('andor', 1), ('sum', 1), ('asg', self.p.get('asgexpr', 1)),
                    ('comp', 1), ('lam', 1), ('minmax', 1), ('dict', 1)])
        if k == 'bin':
            op = self.ch('+', '-', '*', '+', '-', '/', '%', '&', '|', '^')
            b = o('int', d)
            if op in '/%':
                b = self.ch('2', '3', '5', '(-2)', '(%s | 1)' % b)
            return '%s %s %s' % (o('int', d), op, b)
        if k == 'neg':
            return '(%s%s)' % (self.ch('-', '!'), o('int', d))
        if k == 'tern':
            return '(if %s then %s else %s)' % (self.e('bool', d), self.e('int', d), self.e('int', d))
        if k == 'len':
            return 'len(%s)' % self.e(self.ch('list', 'str', 'set', 'vec'), d)
        if k == 'idx':
            return '[%s, %s, %s][%s]' % (self.e('int', d), self.e('int', d), self.e('int', 0), self.ch('0', '1', '-1', '2', '-3'))
        if k == 'call' and self.fns:
            f = self.r.choice(list(self.fns))
            return '%s(%s)' % (f, ', '.join(self.e('int', d) for _ in range(self.fns[f])))
        if k == 'andor':
            return '(%s %s %s)' % (self.e('int', d), self.ch('and', 'or'), self.e('int', d))
        if k == 'sum':
            return 'sum(%s)' % self.e(self.ch('list', 'range'), d)
        if k == 'asg':
            vs = self.vars('int', True)
            if vs:
                v = self.r.choice(vs)
                if self.pr(0.5):
                    return '(%s = %s)' % (v, self.e('int', d))
                return '(%s %s %s)' % (v, self.ch('+=', '-=', '*=', 'max=', 'min=', '|='), self.e('int', d))
        if k == 'comp':
            return '(%s . %s)' % (self.e('int', d), self.atom('fn1') if not self.vars('fn1') else self.r.choice(self.vars('fn1')))
        if k == 'lam':
            return '(fn(q) -> q + %s)(%s)' % (self.atom('int'), self.e('int', d))
        if k == 'minmax':
            return '%s(%s, %s)' % (self.ch('min', 'max'), self.e('int', d), self.e('int', d))
        if k == 'dict':
            return "{'a': %s, 'b': %s}['%s']" % (self.e('int', d), self.e('int', d), self.ch('a', 'b'))
        return '%s + %s' % (o('int', d), o('int', d))

    def e_bool(self, d):
        o = self.operand
        k = self.w([('cmp', 6), ('chain', 2), ('not', 2), ('andor', 3), ('in', 1), ('is', 1), ('any', 1)])
        if k == 'cmp':
            ty = self.ch('int', 'int', 'str', 'list')
            return '%s %s %s' % (o(ty, d), self.ch('<', '>', '<=', '>=', '==', '!='), o(ty, d))
        if k == 'chain':
            return '(%s %s %s %s %s)' % (o('int', d), self.ch('<', '<=', '==', '!='), o('int', d), self.ch('<', '>=', '>', '=='), o('int', d))
        if k == 'not':
            return '(%s %s)' % ('not', o('bool', d))
        if k == 'andor':
            return '(%s %s %s)' % (self.e('bool', d), self.ch('and', 'or'), self.e('bool', d))
        if k == 'in':
            return '(%s %s %s)' % (o('int', d), self.ch('in', 'not in'), o(self.ch('list', 'set', 'range'), d))
        if k == 'is':
            return '(%s %s %s)' % (o(self.ch('int', 'str', 'list', 'bool'), d), self.ch('is', 'is not'), self.ch('int', 'str', 'list', 'bool', 'any', 'iterable', 'function'))
        return '%s(%s, %s)' % (self.ch('any', 'all'), self.ch('(>1)', '(==2)', '(<5)'), self.e('list', d))

    def e_str(self, d):
        o = self.operand
        k = self.w([('cat', 4), ('rep', 1), ('fmt', 1), ('str', 2), ('case', 1), ('slice', 1), ('join', 1)])
        if k == 'cat':
            return '%s + %s' % (o('str', d), o(self.ch('str', 'int'), d))
        if k == 'rep':
            return '%s * %s' % (o('str', d), self.ch('0', '1', '2', '3'))
        if k == 'fmt':
            return "'%%d:%%s' %% (%s, %s)" % (self.e('int', d), self.e('str', d))
        if k == 'str':
            return '%s(%s)' % (self.ch('str', 'repr'), self.e(self.ch('int', 'list', 'bool', 'str', 'set', 'vec', 'dict'), d))
        if k == 'case':
            return '%s(%s)' % (self.ch('to_upper', 'to_lower', 'trim'), self.e('str', d))
        if k == 'slice':
            return '%s[%s:%s]' % (o('str', d), self.ch('', '0', '1', '-1', '-2'), self.ch('', '1', '2', '-1'))
        return "join('%s', %s)" % (self.ch('', ',', '-'), self.e('list', d))

    def e_list(self, d):
        o = self.operand
        k = self.w([('lit', 5), ('cat', 2), ('map', 2), ('filter', 1), ('slice', 1), ('lst', 1), ('sort', 1), ('push', 1)])
        if k == 'lit':
            return '[' + ', '.join(self.e('int', d) for _ in range(self.r.randint(0, 3))) + ']'
        if k == 'cat':
            return '%s + %s' % (o('list', d), o('list', d))
        if k == 'map':
            return 'map(%s, %s)' % (self.atom('fn1'), self.e(self.ch('list', 'range', 'set'), d))
        if k == 'filter':
            return 'filter(%s, %s)' % (self.ch('(>1)', 'fn(q) -> q %% %s == 0' % self.ch('2', '3'), '(!=3)'), self.e('list', d))
        if k == 'slice':
            return '%s[%s:%s]' % (o('list', d), self.ch('', '0', '1', '-2'), self.ch('', '1', '2', '-1'))
        if k == 'lst':
            return 'list(%s)' % self.e(self.ch('list', 'range', 'set', 'vec'), d)
        if k == 'sort':
            return '%s(%s)' % (self.ch('sort', 'reverse'), self.e('list', d))
        vs = self.vars('list')
        if vs:
            return 'push(%s, %s)' % (self.e('int', d), self.r.choice(vs))
        return '[%s]' % self.e('int', d)

    def e_vec(self, d):
        return '(%s, %s)' % (self.e('int', d), self.e('int', d))

    def e_set(self, d):
        return self.ch('set(%s)' % self.e('list', d), '{%s, %s}' % (self.e('int', d), self.e('int', d)))

    def e_dict(self, d):
        return "{%s: %s}" % (self.ch("'a'", '1', "'k'"), self.e('int', d))

    def e_fn1(self, d):
        v = self.fresh('p')
        self.scopes.append({v: 'int'})
        b = self.e('int', d)
        self.scopes.pop()
        return '(fn(%s) -> %s)' % (v, b)

    def anyty(self):
        return self.r.choice(['int', 'int', 'int', 'bool', 'str', 'list', 'vec', 'set', 'dict'])

    # statements
    def block(self, decl=None, fn=False):
        """the text of { ... } with its own scope"""
        self.scopes.append(dict(decl or {}))
        if fn:
            self.fstart.append(len(self.scopes) - 1)
            self.loops.append(0)
        self.ind += 1
        out = '{\n'
        for _ in range(self.r.randint(1, 4)):
            if self.left <= 0:
                break
            out += self.stmt()
        if fn and self.pr(0.6):
            out += self.line(self.e('int'))
        self.ind -= 1
        self.scopes.pop()
        if fn:
            self.fstart.pop()
            self.loops.pop()
        return out + '  ' * self.ind + '}'

    def isglobal(self):
        return len(self.scopes) == 1

    def stmt(self):
        self.left -= 1
        p = self.p
        inl = self.loops[-1] > 0
        inf = len(self.fstart) > 1
        deep = len(self.scopes) > 6
        k = self.w([('print', p['print']), ('let', p['let']), ('assign', p['assign']), ('opassign', p['opassign']),
                    ('iff', 0 if deep else p['iff']), ('while_', 0 if deep else p['while_']), ('for_', 0 if deep else p['for_']), ('loop', 0 if deep else p['loop']),
                    ('dow', 0 if deep else p['dow']), ('brk', p['brk'] if inl else 0), ('fn', 0 if deep or inl else p['fn']), ('call', p['call']),
                    ('ret', p['ret'] if inf else 0), ('block', 0 if deep else p['block']), ('exprstmt', p['exprstmt']),
                    ('patlet', p['patlet']), ('patasg', p['patasg']), ('idxasg', p['idxasg']), ('mutate', p['mutate']),
                    ('fnlist', p['fnlist']), ('nop', p['nop']), ('asrt', p['asrt']), ('thenelse', p['thenelse']), ('lambda_', p['lambda_'])])
        return getattr(self, 's_' + k)()

    def s_print(self):
        k = self.r.randint(0, 3)
        if k == 0:
            return self.line('%s . print' % self.operand(self.anyty(), 2))
        vs = self.vars()
        args = [self.e(self.anyty(), 2)]
        if vs:
            args += [self.r.choice(vs)]
        self.tn += 1
        return self.line("print('%s', %s)" % ('p%d' % self.tn, ', '.join(args)))

    def s_let(self):
        ty = self.anyty()
        e = self.e(ty)
        n = self.newname(ty)
        self.declare(n, ty)
        return self.line('let %s = %s' % (n, e))

    def s_assign(self):
        vs = self.vars(assignable=True)
        vs = [v for v in vs if self.tyof(v) in ('int', 'str', 'list', 'bool', 'vec', 'set', 'dict')]
        if not vs:
            return self.s_let()
        v = self.r.choice(vs)
        e = self.e(self.tyof(v))
        if self.tyof(v) in ('str', 'list') and len(e) > 12:
            e = '(%s)[:40]' % e         # no exponential growth
        return self.line('%s = %s' % (v, e))

    def tyof(self, v):
        for s in reversed(self.scopes):
            if v in s:
                return s[v]

    def s_opassign(self):
        vs = self.vars('int', True)
        if not vs:
            return self.s_let()
        v = self.r.choice(vs)
        op = self.ch('+=', '-=', '*=', '&=', '|=', '^=', 'max=', 'min=', '+=')
        if self.pr(0.1):
            return self.line('%s .= %s' % (v, self.atom('fn1') if self.pr(.5) else '(+3)'))
        return self.line('%s %s %s' % (v, op, self.e('int')))

    def s_iff(self):
        out = '  ' * self.ind + 'if %s ' % self.e('bool') + self.block()
        while self.pr(0.25) and self.left > 0:
            out += ' elif %s ' % self.e('bool') + self.block()
        if self.pr(0.45):
            out += ' else ' + self.block()
        return out + '\n'

    def loopbody(self, decl=None, cont=True):
        self.loops[-1] += 1
        self.cont.append(cont)
        b = self.block(decl)
        self.cont.pop()
        self.loops[-1] -= 1
        return b

    def els(self):
        return ' else ' + self.block() if self.pr(0.3) else ''

    def counter(self):
        n = self.fresh('i')
        self.declare(n, 'int')
        self.readonly.add(n)
        return n

    def s_while_(self):
        i = self.counter()
        lim = self.r.randint(0, 3)
        out = self.line('let %s = 0' % i)
        self.scopes.append({})
        b = self.loopbody()
        self.scopes.pop()
        out += '  ' * self.ind + 'while (%s += 1) <= %d %s' % (i, lim, '' if self.pr(.6) else 'and %s ' % self.e('bool', 1)) + b + self.els() + '\n'
        return out

    def s_for_(self):
        k = self.r.randint(0, 4)
        n = self.fresh('x')
        if k <= 1:
            head, decl = '%s in %s' % (n, self.e('range', 0)), {n: 'int'}
        elif k == 2:
            head, decl = '%s in list(%s)' % (n, self.e('list', 2)), {n: 'int'}
        elif k == 3:
            m = self.fresh('x')
            head, decl = '%s, %s in enumerate(list(%s))' % (m, n, self.e(self.ch('list', 'set'), 1)), {m: 'int', n: 'int'}
        else:
            head, decl = '%s in %s' % (n, self.e('str', 1)), {n: 'str'}
        # a collection being iterated may grow: only iterate over fresh copies of variables
        head = head.replace(' in v', ' in copy v') if ' in v' in head else head
        b = self.loopbody(decl)
        return '  ' * self.ind + 'for %s %s' % (head, b) + self.els() + '\n'

    def s_loop(self):
        i = self.counter()
        out = self.line('let %s = 0' % i)
        b = self.loopbody()
        b = '{\n' + '  ' * (self.ind + 1) + 'if (%s += 1) > %d { break }\n' % (i, self.r.randint(1, 3)) + b[2:]
        return out + '  ' * self.ind + 'loop ' + b + '\n'

    def s_dow(self):
        i = self.counter()
        out = self.line('let %s = 0' % i)
        k = self.r.randint(0, 2)
        if k == 0:
            b = self.loopbody()
            b = '{\n' + '  ' * (self.ind + 1) + 'if (%s += 1) > 3 { break }\n' % i + b[2:]
            return out + '  ' * self.ind + 'do ' + b + self.els() + '\n'
        b = self.loopbody()
        b = '{\n' + '  ' * (self.ind + 1) + '%sif (%s += 1) > 4 { break }\n' % ('', i) + b[2:]
        return out + '  ' * self.ind + 'do ' + b + ' while %s < %d' % (i, self.r.randint(0, 3)) + self.els() + '\n'

    def s_brk(self):
        k = self.ch('break', 'continue') if self.cont[-1] else 'break'
        if self.pr(0.85):
            return '  ' * self.ind + 'if %s { %s%s }\n' % (self.e('bool', 1), self.ch('', 'print("%s") ' % k), k)
        return self.line(k)

    def s_fn(self):
        n = self.fresh('f')
        a = self.r.randint(0, 2)
        ps = [self.fresh('a') for _ in range(a)]
        saved = self.fns
        self.fns = dict(self.fns)
        if self.pr(0.3):
            self.scopes.append({q: 'int' for q in ps})
            b = '-> ' + self.e('int')
            self.scopes.pop()
        else:
            b = self.block({q: 'int' for q in ps}, fn=True)
        self.fns = saved
        out = '  ' * self.ind + 'fn %s(%s) %s\n' % (n, ', '.join(ps), b)
        if len(self.scopes) == 1:
            self.fns[n] = a
            self.declare(n, 'fn%d' % a if a == 1 else 'fnx')
        else:
            self.declare(n, 'fn%d' % a if a == 1 else 'fnx')
        self.readonly.add(n)
        return out

    def s_call(self):
        if not self.fns:
            return self.s_print()
        f = self.r.choice(list(self.fns))
        a = ', '.join(self.e('int') for _ in range(self.fns[f]))
        return self.line(self.ch('%s(%s)', 'print(%s(%s))') % (f, a))

    def s_ret(self):
        if self.pr(0.2):
            return '  ' * self.ind + 'if %s { return }\n' % self.e('bool', 1)
        return '  ' * self.ind + 'if %s { return %s }\n' % (self.e('bool', 1), self.e('int', 1))

    def s_block(self):
        return '  ' * self.ind + 'do ' + self.loopbody(cont=False) + '\n'

    def s_exprstmt(self):
        e = self.e(self.anyty(), 2)
        if e[0] in '([-{':
            e = 'print(%s)' % e
        return self.line(e + self.ch('', '', ';'))

    def s_patlet(self):
        a, b = self.fresh(), self.fresh()
        k = self.r.randint(0, 3)
        x, y = self.e('int', 2), self.e('int', 2)
        self.declare(a, 'int')
        if k == 0:
            self.declare(b, 'int')
            return self.line('let %s, %s = (%s, %s)' % (a, b, x, y))
        if k == 1:
            self.declare(b, 'list')
            return self.line('let %s, *%s = [%s, %s, %s]' % (a, b, x, y, y))
        if k == 2:
            self.declare(b, 'int')
            return self.line('let (%s, _), %s = ((%s, 0), %s)' % (a, b, x, y))
        self.declare(b, 'list')
        return self.line('let *%s, %s = [%s, %s]' % (b, a, x, y))

    def s_patasg(self):
        vs = self.vars('int', True)
        if len(vs) < 2:
            return self.s_let()
        a, b = self.r.sample(vs, 2)
        return self.line(self.ch('%s, %s = (%s, %s)' % (a, b, b, a), '%s, %s = [%s, %s]' % (a, b, self.e('int', 1), self.e('int', 1)), '%s, *_ = [%s, 1, %s]' % (a, self.e('int', 1), b)))

    def s_idxasg(self):
        vs = self.vars('list')
        if not vs:
            return self.s_let()
        v = self.r.choice(vs)
        return self.line('if len(%s) > 0 { %s[%s] %s %s }' % (v, v, self.ch('0', '-1'), self.ch('=', '+=', 'max=', '-='), self.e('int', 1)))

    def s_mutate(self):
        vs = self.vars('list')
        if not vs:
            return self.s_let()
        v = self.r.choice(vs)
        return self.line(self.ch('%s . push(%s)' % (v, self.e('int', 1)), 'if %s { pop(%s) . print }' % (v, v), 'push_front(%s, %s)' % (self.e('int', 1), v)))

    def s_nop(self):
        return self.line(';')

    def s_asrt(self):
        return self.line('assert %s' % self.ch('true', '1 < 2', "'x' == 'x'", '1', 'not false'))

    def s_thenelse(self):
        return self.line('print(if %s then %s else %s)' % (self.e('bool', 2), self.e('int', 2), self.e('str', 2)))

    def s_lambda_(self):
        n = self.fresh('g')
        e = self.e_fn1(2)
        self.declare(n, 'fn1')
        self.readonly.add(n)
        return self.line('let %s = %s' % (n, e))

    def s_fnlist(self):
        """closures over local variables, called later"""
        vs = self.vars('int', True)
        if not vs:
            return self.s_let()
        v = self.r.choice(vs)
        body = self.ch('fn() -> %s' % v, 'fn() { %s += 1 ; %s }' % (v, v), 'fn() -> (%s = %s)' % (v, self.atom('int')),
                       'fn() { let z = %s ; fn() -> (z += %s) }()' % (v, v))
        k = self.r.randint(0, 3)
        if k < 2:
            return self.line('push(%s, fs)' % body)
        if k == 2:
            return self.line('if fs { print(fs[%s]()) }' % self.ch('0', '-1'))
        return self.line('for f in copy fs { print(f()) }')

    def program(self):
        out = 'fn t(k, v) { print(k) ; v }\n'
        if self.p['fnlist']:
            out += 'let fs = []\n'
        while self.left > 0:
            out += self.stmt()
        if self.p['fnlist']:
            out += 'for f in copy fs { print(f()) }\n'
        vs = [v for v in self.scopes[0] if self.scopes[0][v] not in ('fn1', 'fnx')]
        if vs:
            out += 'print(%s)\n' % ', '.join(vs)
        return out


def program(rng, **prof):
    return Gen(rng, **prof).program()


if __name__ == '__main__':
    import sys
    n = int(sys.argv[1])
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    kw = eval('dict(%s)' % sys.argv[3]) if len(sys.argv) > 3 else {}
    print('\n----\n'.join(program(random.Random(seed * 1000003 + i), **kw) for i in range(n)), end='')
