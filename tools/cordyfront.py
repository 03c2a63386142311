"""Translates Cordy source text into the syntax trees the specification (spec/CordyMachine.tla) runs.

It follows the documented grammar (and is itself bound to the implementation by every trace that is validated: a program
this front end reads differently from the compiler makes the specified run differ from the recorded one)."""
import re

KEYWORDS = set('let fn return if elif else then loop while for in is not break continue do true false nil struct exit '
               'assert module self native and or'.split())
SYM = ['...', '<<=', '>>=', '**=', '==', '!=', '<=', '>=', '<<', '>>', '->', '+=', '-=', '*=', '/=', '|=', '&=', '^=',
       '%=', '.=', '**', '+', '-', '*', '/', '|', '&', '^', '%', '.', '(', ')', '[', ']', '{', '}', ',', ':', '_', ';',
       '@', '?', '=', '<', '>', '!']


class FrontError(Exception):
    pass


class IllError(FrontError):
    """of the grammar, but without meaning"""


class Tokens(list):
    eof = 1     # the line of the end of the last token

    def append(self, t):
        list.append(self, t)
        self.eof = t[2]


def scan(src):
    """tokens: (kind, value, line, newline_before)"""
    out, i, line, nl = Tokens(), 0, 1, False
    n = len(src)
    while i < n:
        c = src[i]
        if c == '\n':
            line += 1; nl = True; i += 1; continue
        if c in ' \t\r':
            i += 1; continue
        if src.startswith('//', i):
            while i < n and src[i] != '\n':
                i += 1
            continue
        if src.startswith('/*', i):
            j = src.find('*/', i + 2)
            if j < 0:
                raise FrontError('comment without end')
            k = src.count('\n', i, j)
            if k: nl = True
            line += k; i = j + 2; continue
        m = re.compile(r'[a-zA-Z][a-zA-Z0-9_]*').match(src, i)
        if m:
            w = m.group()
            out.append(('kw' if w in KEYWORDS else 'id', w, line, nl)); nl = False
            i = m.end(); continue
        m = re.compile(r'(0x[0-9a-fA-F_]*|0b[01_]*|[0-9][0-9_]*)([ij]?)').match(src, i)
        if m:
            t = m.group(1).replace('_', '')
            if t in ('0x', '0b') or re.match(r'0([0-9_]|(?![xbij])[a-zA-Z])', src[i:i + 2]):
                raise FrontError('number')
            v = int(t, 16) if t.startswith('0x') else int(t, 2) if t.startswith('0b') else int(t)
            if v >= 2 ** 63:
                raise FrontError('number')
            out.append(('cpx' if m.group(2) else 'int', v, line, nl)); nl = False
            i = m.end(); continue
        if c in '\'"':
            j, buf, l0 = i + 1, [], line
            while j < n and src[j] != c:
                if src[j] == '\\':
                    j += 1
                    while j < n and src[j] == '\r':
                        j += 1
                    if j >= n:
                        break
                    e = src[j]
                    if e == '\n': line += 1
                    buf.append({'n': '\n', 'r': '\r', 't': '\t', '\\': '\\', "'": "'", '"': '"'}.get(e, '\\' + e))
                else:
                    if src[j] == '\n': line += 1
                    if src[j] != '\r':
                        buf.append(src[j])
                j += 1
            if j >= n:
                raise FrontError('string without end')
            nl = nl or line > l0
            out.append(('str', ''.join(buf), l0, nl)); nl = False
            out.eof = line
            i = j + 1; continue
        for s in SYM:
            if src.startswith(s, i):
                out.append(('sym', s, line, nl)); nl = False
                i += len(s); break
        else:
            raise FrontError('character %r' % c)
    return out


LIMB = 512


def intval(n):
    n = (n + 2 ** 62) % 2 ** 63 - 2 ** 62
    if abs(n) < 2 ** 30:
        return ['int', n]
    u = n % 2 ** 63
    return ['big', [(u >> (9 * i)) & 511 for i in range(7)]]


BINL = [None, None, None,
        {'*', '/', '%', '**', 'is', 'is not', 'in', 'not in'}, {'+', '-'}, {'<<', '>>'}, {'&', '|', '^'}]
CMPS = {'<', '<=', '>', '>=', '==', '!='}
SECTION_L = {'*', '/', '**', '%', 'in', 'not in', 'is', 'is not', '+', '<<', '>>', '&', '|', '^', '<', '<=', '>', '>=',
             '==', '!='}
SYMMETRIC = {'*', '+', '&', '|', '^', '==', '!='}
OPASG = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '&=': '&', '|=': '|', '^=': '^', '<<=': '<<', '>>=': '>>',
         '%=': '%', '**=': '**', '.=': '.'}
ENDERS = {',', ')', '}', ']'}


def patnames(p):
    return [x for q in p[1] for x in patnames(q)] if p[0] == 'p' else [p[1]] if p[0] == 'n' or p[0] == 'rest' and p[1] != '_' else []


class P:
    def __init__(self, src, natives):
        self.t = scan(src)
        self.i = 0
        self.nat = natives
        self.structs = []
        self.mods = []          # stack of enclosing sids
        self.fdepth = 0
        self.sdepth = 0

    def eof(self):
        return self.t.eof

    # tokens
    def pk(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) and self.t[self.i + k][0] in ('sym', 'kw') else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else 'eof'

    def val(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def ln(self, k=0):
        return self.t[self.i + k][2] if self.i + k < len(self.t) else self.t[-1][2] if self.t else 1

    def prevln(self):
        return self.t[self.i - 1][2]

    def nonl(self):
        return not (self.i < len(self.t) and self.t[self.i][3])

    def adv(self):
        self.i += 1
        return self.t[self.i - 1]

    def exp(self, s):
        if self.pk() != s:
            raise FrontError('expected %r, got %r at line %d' % (s, self.val(), self.ln()))
        return self.adv()

    def ident(self):
        if self.kind() != 'id':
            raise FrontError('expected a name, got %r at line %d' % (self.val(), self.ln()))
        return self.adv()[1]

    # program
    def program(self):
        b = self.stmts()
        if self.i < len(self.t):
            raise FrontError('unexpected %r' % (self.val(),))
        return ['blk', 1, b, False]

    def stmts(self):
        out = []
        self.semi = False
        while True:
            k = self.pk()
            if self.kind() == 'eof' or k == '}':
                return out
            if k == ';':
                self.adv()
                out.append(['nop', self.prevln()])
                continue
            out += self.stmt()

    def block(self):
        self.exp('{')
        self.sdepth += 1
        b = self.stmts()
        self.sdepth -= 1
        self.exp('}')
        return ['blk', self.prevln(), b, False]

    def isg(self):
        return self.fdepth == 0 and self.sdepth == 0

    def stmt(self):
        k = self.pk()
        l = self.ln()
        if k == '@' or (k == 'fn' and self.kind(1) == 'id'):
            decos = []
            while self.pk() == '@':
                self.adv()
                decos.append(self.expr(False))
            self.exp('fn')
            g = self.isg()
            nl = self.ln()
            f = self.function(self.ident())
            return [['fnd', self.prevln(), f, decos, g, nl]]
        if k == 'return':
            self.adv()
            if self.pk() == '}':
                return [['return', l, 0]]
            if self.pk() == ';':
                self.adv()
                return [['return', l, 0]]
            return [['return', l, self.expr(False)]]
        if k == 'let':
            self.adv()
            out = []
            while True:
                pat = self.lvals_bare()
                nl = self.prevln()
                if pat[0] == 'rest' or pat[0] == 'p' and len(pat[1]) == 1 and pat[1][0][0] == 'rest' or not patnames(pat):
                    raise IllError('a pattern without names')
                if self.pk() == '=':
                    self.adv()
                    e = self.level9()
                    out.append(['let', self.prevln(), pat, e, self.isg(), nl])
                else:
                    if any(q[0] != 'n' for q in (pat[1] if pat[0] == 'p' else [pat])):
                        raise IllError('a pattern without a value')
                    names = [q[1] for q in pat[1]] if pat[0] == 'p' else [pat[1]]
                    out.append(['let', self.prevln(), ['p', names], 0, self.isg(), nl])
                if self.pk() != ',':
                    return out
                self.adv()
        if k == 'if':
            return [self.ifstmt()]
        if k == 'loop':
            self.adv()
            return [['loop', l, self.block()]]
        if k == 'while':
            self.adv()
            c = self.expr(False)
            b = self.block()
            return [['while', l, c, b, self.elseblk()]]
        if k == 'do':
            self.adv()
            b = self.block()
            c = 0
            if self.pk() == 'while':
                self.adv()
                c = self.expr(False)
            return [['dow', l, b, c, self.elseblk()]]
        if k == 'for':
            self.adv()
            self.sdepth += 1
            pat = self.lvals_bare()
            if pat[0] == 'p' and len(pat[1]) == 1 and pat[1][0][0] == 'rest':       # alone, this is no pattern
                pat = ['_'] if pat[1][0][1] == '_' else ['n', pat[1][0][1]]
            elif pat[0] == 'rest':
                pat = ['_'] if pat[1] == '_' else ['n', pat[1]]
            self.exp('in')
            e = self.expr(False)
            fl = self.prevln()
            b = self.block()
            self.sdepth -= 1
            return [['for', fl, pat, e, b, self.elseblk()]]
        if k == 'break':
            self.adv()
            return [['break', l]]
        if k == 'continue':
            self.adv()
            return [['cont', l]]
        if k == 'assert':
            self.adv()
            l = self.ln()
            c = self.expr(True)
            m = 0
            if self.pk() == ':':
                self.adv()
                m = self.expr(False)
            return [['assert', l, c, m]]
        if k in ('struct', 'module'):
            return [self.structdef(k == 'module')]
        if k == 'native':
            return [self.nativedef()]
        return [['expr', l, self.expr(False)]]

    def elseblk(self):
        if self.pk() == 'else':
            self.adv()
            return self.block()
        return 0

    def ifstmt(self):
        l = self.ln()
        self.adv()
        c = self.expr(True)
        if self.pk() == 'then':
            return ['expr', l, self.thenelse(l, c)]
        b = self.block()
        if self.pk() == 'elif':
            return ['if', l, c, b, self.ifstmt_as_block()]
        return ['if', l, c, b, self.elseblk()]

    def ifstmt_as_block(self):
        s = self.ifstmt()
        return s

    def structdef(self, module):
        l = self.ln()
        self.adv()
        name = self.ident()
        sid = len(self.structs) + 1
        st = dict(name=name, fields=[], module=module, methods=[], outer=self.mods[-1] if self.mods else 0)
        self.structs.append(st)
        nl, fls = self.prevln(), []
        if not module:
            self.exp('(')
            while self.pk() != ')':
                st['fields'].append(self.ident())
                fls.append(self.prevln())
                if self.pk() == ',':
                    self.adv()
            self.exp(')')
        if self.pk() == '{':
            self.adv()
            self.mods.append(sid)
            while self.pk() != '}':
                self.exp('fn')
                mname = self.ident()
                inst = self.pk() == '(' and self.pk(1) == 'self'
                f = self.function(mname, sid)
                st['methods'].append([mname, f, inst, False])
            self.exp('}')
            self.mods.pop()
        return ['struct', l, sid, nl, fls]

    def nativedef(self):
        l = self.ln()
        self.adv()
        self.exp('module')
        name = self.ident()
        sid = len(self.structs) + 1
        st = dict(name=name, fields=[], module=True, methods=[], outer=0)
        self.structs.append(st)
        nl = self.prevln()
        self.exp('{')
        while self.pk() != '}':
            fl = self.ln()
            self.exp('fn')
            mname = self.ident()
            ps = self.params()
            f = ['fn', fl, mname, ps, 0, 0, [disp(p[0]) for p in ps], [], name]
            st['methods'].append([mname, f, False, True])
        self.exp('}')
        return ['native', l, sid, nl, []]

    def params(self, this=False):
        self.exp('(')
        ps = []
        if self.pk() == 'self':
            if not this:
                raise IllError('a parameter self outside of a struct')
            self.adv()
            ps.append([['n', 'self'], 'req', 0])
            if self.pk() == ',':
                self.adv()
            elif self.pk() != ')':
                raise FrontError('parameter list')
        var = dfl = False
        while self.pk() != ')':
            p = self.lval()
            if p[0] == 'rest':
                ps.append([['n', p[1]], 'var', 0])
                if var:
                    raise IllError('two variadic parameters')
                var = True
            elif var:
                raise IllError('a parameter after the variadic one')
            elif self.pk() == '?':
                self.adv()
                ps.append([p, 'def', ['lit', self.ln(), ['nil']]])
                dfl = True
            elif self.pk() == '=':
                self.adv()
                ps.append([p, 'def', self.expr(True)])
                dfl = True
            elif dfl:
                raise IllError('a parameter without a default value after one with')
            else:
                ps.append([p, 'req', 0])
            if self.pk() == ',':
                self.adv()
            elif self.pk() != ')':
                raise FrontError('parameter list')
        self.exp(')')
        return ps

    def function(self, name, sid=0):
        ps = self.params(sid > 0 and not self.structs[sid - 1]['module'])
        l = self.prevln()
        self.fdepth += 1
        self.sdepth += 1
        if self.pk() == '{':
            self.adv()
            b = self.stmts()
            self.exp('}')
            body = ['blk', self.prevln(), b, True]
        else:
            self.exp('->')
            e = self.expr(False)
            body = e
        self.fdepth -= 1
        self.sdepth -= 1
        return ['fn', l, name, ps, body, sid, [disp(p[0]) for p in ps], [], '']

    # patterns
    def lval(self):
        k = self.pk()
        if self.kind() == 'id':
            return ['n', self.adv()[1]]
        if k == '_':
            self.adv()
            return ['_']
        if k == '*':
            self.adv()
            if self.pk() == '_':
                self.adv()
                return ['rest', '_']
            return ['rest', self.ident()]
        if k == '(':
            self.adv()
            r = self.lvals()
            self.exp(')')
            return ['p', r]
        raise FrontError('pattern: %r at line %d' % (self.val(), self.ln()))

    def lvals(self):
        out = [self.lval()]
        while self.pk() == ',':
            self.adv()
            out.append(self.lval())
        if sum(q[0] == 'rest' for q in out) > 1:
            raise IllError('two variadic names in a pattern')
        return out

    def lvals_bare(self):
        t = self.lvals()
        if len(t) == 1 and t[0][0] != 'p':
            return t[0]
        return ['p', t]

    # expressions
    def expr(self, comma):
        e = self.level9() if comma else self.level10()
        l = self.ln()
        op = self.pk()
        if self.kind() == 'id' and self.val() in ('max', 'min') and self.pk(1) == '=':
            op = self.val() + '='
            self.adv()
        elif op not in OPASG and op != '=':
            return e
        self.adv()
        r = self.expr(comma)
        return self.assign(l, e, r) if op == '=' else self.opassign(l, op[:-1], e, r)

    def level10(self):
        l = self.ln()
        a = [self.level9()]
        while self.pk() == ',':
            if self.pk(1) in (')', '='):
                break
            self.adv()
            a.append(self.level7())
        return a[0] if len(a) == 1 else ['comma', l, a, True, True]

    def assign(self, l, e, r):
        k = e[0]
        if k == 'var':
            return ['asg', l, e[2], r, e[1]]
        if k == 'idx':
            return ['seti', l, e[2], e[3], r]
        if k == 'getf':
            return ['setf', l, e[2], e[3], r, e[4]]
        if k == 'comma':
            subs, nls, fls = [], [], []
            pat = self.topat(e, subs, nls, fls)
            if not nls and not any(x != [] for x in (subs, fls)):
                raise IllError('a pattern without names')
            if not e[4]:
                pat = ['p', [pat]]
            return ['pasg', l, pat, subs, r, nls, fls]
        raise IllError('assignment target')

    def topat(self, e, subs, nls, fls):
        k = e[0]
        if k == 'var':
            nls.append(e[1])
            return ['n', e[2]]
        if k == 'empty':
            return ['_']
        if k == 'varempty':
            return ['rest', '_']
        if k == 'varname':
            nls.append(e[3])
            return ['rest', e[2]]
        if k == 'idx':
            subs += [e[2], e[3]]
            return ['ti', len(subs) - 1, len(subs)]
        if k == 'getf':
            subs.append(e[2])
            fls.append(e[4])
            return ['tf', len(subs), e[3]]
        if k == 'comma':
            r = [self.topat(x, subs, nls, fls) for x in e[2]]
            if sum(q[0] == 'rest' for q in r) > 1:
                raise IllError('two variadic names in a pattern')
            if len(r) == 1 and not e[3] and r[0][0] == 'rest' and r[0][1] != '_':
                raise IllError('a single variadic name is no pattern')
            return ['p', r]
        if k == 'call' and e[2][0] == 'lit' and e[2][2] == ['nat', '(*)'] and len(e[3]) == 1 and e[3][0][0][0] == 'empty':
            return ['rest', '_']
        if k == 'sec' and e[2] == '(*)' and e[3][0] == 'empty':
            return ['rest', '_']
        if k == 'sec' and e[2] == '(*)' and e[3][0] == 'var':
            nls.append(e[3][1])
            return ['rest', e[3][2]]
        raise IllError('pattern in assignment')

    def opassign(self, l, op, e, r):
        k = e[0]
        if k == 'var':
            return ['opasg', l, op, e[2], r, e[1]]
        if k == 'idx':
            return ['opseti', l, op, e[2], e[3], r]
        if k == 'getf':
            return ['opsetf', l, op, e[2], e[3], r, e[4]]
        raise IllError('assignment target')

    def level9(self):
        e = self.level8()
        while self.pk() in ('and', 'or') and self.pk(1) != ')':
            t = self.adv()
            e = [t[1], t[2], e, self.level8()]
        return e

    def level8(self):
        e = self.level7()
        ops = []
        while self.pk() in CMPS and self.pk(1) != ')':
            t = self.adv()
            ops.append([t[1], t[2], self.level7()])
        if not ops:
            return e
        return ['cmp', ops[0][1], e, [[o[0], o[2]] for o in ops], [o[1] for o in ops]]

    def level7(self):
        e = self.binlevel(6)
        while self.pk() == '.':
            l = self.adv()[2]
            e = ['comp', l, e, self.binlevel(6)]
        return e

    def op(self):
        k = self.pk()
        if k == 'is' and self.pk(1) == 'not':
            return 'is not', 2
        if k == 'not' and self.pk(1) == 'in':
            return 'not in', 2
        return k, 1

    def binlevel(self, lv):
        if lv == 2:
            return self.unary()
        e = self.binlevel(lv - 1)
        while True:
            o, n = self.op()
            if o not in BINL[lv] or self.pk(n) == ')':
                return e
            l = self.ln()
            self.i += n
            e = ['bin', l, o, e, self.binlevel(lv - 1)]

    def unary(self):
        st = []
        while self.pk() in ('-', '!', 'not'):
            st.append(self.adv())
        e = self.suffix(self.terminal())
        for t in reversed(st):
            e = ['un', t[2], t[1], e]
        return e

    def suffix(self, e):
        while True:
            if self.nonl() and self.pk() == '(':
                l = self.ln()
                if self.pk(1) == ')':
                    self.adv(); self.adv()
                    e = ['call', l, strip(e), []]
                else:
                    e = ['call', l, strip(e), [unr(a) for a in self.commas()[2]]]
            elif self.nonl() and self.pk() == '[':
                l = self.ln()
                self.adv()
                a = [0, 0, 0]
                if self.pk() != ':':
                    a[0] = self.expr(True)
                if self.pk() == ']':
                    self.adv()
                    e = ['idx', l, e, a[0]]
                else:
                    e = ['slc', l, e] + self.slcparts(a, lambda: self.expr(True))
            elif self.nonl() and self.kind() == 'id' and self.pk(1) != '=':
                e = self.bare(e)
            elif self.nonl() and self.pk() == 'fn' and self.pk(1) == '(':
                e = self.bare(e)
            elif self.nonl() and (self.kind() in ('int', 'cpx', 'str') or self.pk() in ('nil', 'true', 'false', 'exit', 'if')):
                e = self.bare(e)
            elif self.nonl() and self.pk() == '@':
                raise FrontError('a decorator on the line of an expression')
            elif self.pk() == '->':
                l = self.adv()[2]
                e = ['getf', l, e, self.ident(), self.prevln()]
            else:
                return e

    def bare(self, e):
        l = self.ln()
        return ['call', l, e, [[self.terminal(), False]]]

    def terminal(self):
        k, l, kd = self.pk(), self.ln(), self.kind()
        if kd == 'int':
            return ['lit', l, intval(self.adv()[1])]
        if kd == 'cpx':
            v = self.adv()[1]
            return ['lit', l, ['cpx', ['int', 0], intval(v)] if v else ['int', 0]]
        if kd == 'str':
            return ['lit', l, ['str', self.adv()[1]]]
        if k == 'nil':
            self.adv()
            return ['lit', l, ['nil']]
        if k in ('true', 'false'):
            return ['lit', l, ['bool', self.adv()[1] == 'true']]
        if k == 'exit':
            self.adv()
            return ['exit', l]
        if k == '_':
            self.adv()
            return ['empty', l]
        if k == '*' and (self.pk(1) == '_' or self.kind(1) == 'id'):
            self.adv()
            if self.pk() == '_':
                self.adv()
                return ['varempty', l, self.prevln()]
            return ['varname', l, self.ident(), self.prevln()]
        if k == 'self':
            self.adv()
            return ['var', l, 'self']
        if kd == 'id':
            return ['var', l, self.adv()[1]]
        if k == '(':
            return self.commas()
        if k == '[':
            return self.listlit()
        if k == '{':
            return self.setlit()
        if k == 'fn':
            self.adv()
            return self.function('_')
        if k == 'if':
            self.adv()
            return self.thenelse(l, self.expr(True))
        raise FrontError('expression: %r at line %d' % (self.val(), l))

    def thenelse(self, l, c):
        self.exp('then')
        a = self.expr(True)
        if self.pk() == 'elif':
            l2 = self.adv()[2]
            return ['tern', l, c, a, self.thenelse(l2, self.expr(True))]
        self.exp('else')
        return ['tern', l, c, a, self.expr(True)]

    def commas(self):
        l = self.exp('(')[2]
        a = [self.commaarg()]
        while True:
            explicit = self.pk() == ','
            if explicit:
                self.adv()
            if self.pk() == ')':
                break
            if not explicit:
                raise FrontError('expected , or ) got %r at line %d' % (self.val(), self.ln()))
            a.append(self.commaarg())
        self.exp(')')
        return ['comma', l, a, explicit, False]

    def commaarg(self):
        k, l = self.pk(), self.ln()
        if k in ('-', '!', 'not') and self.pk(1) in ENDERS:
            self.adv()
            return ['lit', l, ['nat', '(%s)' % k if k != '-' else '(-)']]
        if k == '->':
            self.adv()
            return ['lit', l, ['getf', self.ident()], self.prevln()]
        if k == '...':
            self.adv()
            return ['unroll', l, self.expr(True)]
        o, n = self.op()
        if o in SECTION_L:
            self.i += n
            if self.pk() in ENDERS:
                return ['lit', l, ['nat', '(%s)' % o]]
            return ['sec', l, '(%s)' % o + ('' if o in SYMMETRIC and o != '+' else '~'), self.expr(True)]
        e = self.expr(True)
        o, n = self.op()
        if o in SECTION_L and self.pk(n) in ENDERS:
            l = self.ln()
            self.i += n
            return ['sec', l, '(%s)' % o, e]
        return e

    def listlit(self):
        l = self.exp('[')[2]
        if self.pk() == ']':
            self.adv()
            return ['mk', l, 'list', []]
        a = [0, 0, 0]
        n = 0
        if self.pk() != ':':
            a[0] = self.commaarg()
        if self.pk() == ':':
            a = self.slcparts(a, self.commaarg)
            return ['mkslc', l, 0] + a
        items = [unr(a[0])]
        while self.pk() == ',':
            self.adv()
            if self.pk() == ']':
                break
            items.append(unr(self.commaarg()))
        self.exp(']')
        return ['mk', l, 'list', items]

    def slcparts(self, a, arg):
        self.exp(':')
        if self.pk() not in (':', ']'):
            a[1] = arg()
        if self.pk() == ':':
            self.adv()
            if self.pk() != ']':
                a[2] = arg()
        self.exp(']')
        return a

    def setlit(self):
        l = self.exp('{')[2]
        items = []
        isd = None
        while self.pk() != '}':
            a = self.commaarg()
            items.append(unr(a))
            if a[0] != 'unroll':
                if isd is None:
                    isd = self.pk() == ':'
                if isd:
                    self.exp(':')
                    items.append(unr(self.commaarg()))
            if self.pk() == ',':
                self.adv()
            elif self.pk() != '}':
                raise FrontError('set literal')
        self.exp('}')
        return ['mk', l, 'dict' if isd else 'set', items]


def unr(a):
    return [a[2], True] if a[0] == 'unroll' else [a, False]


def strip(e):
    return e


def disp(p):
    return {'n': lambda: p[1], '_': lambda: '_', 'rest': lambda: '*' + p[1],
            'p': lambda: '(' + ', '.join(disp(x) for x in p[1]) + ')'}[p[0]]()


# which parts of a node are nodes
EXPRS = {
    'lit': '', 'var': '', 'exit': '', 'empty': '', 'varempty': '', 'varname': '', 'nop': '', 'break': '', 'cont': '',
    'un': '3', 'bin': '34', 'and': '23', 'or': '23', 'tern': '234', 'comp': '23', 'idx': '23', 'slc': '2345',
    'mkslc': '2345', 'getf': '2', 'sec': '3', 'asg': '3', 'opasg': '4', 'seti': '234', 'opseti': '345', 'setf': '24',
    'opsetf': '35', 'let': '3', 'expr': '2', 'if': '234', 'while': '234', 'dow': '234', 'loop': '2', 'for': '345',
    'return': '2', 'assert': '23', 'struct': '', 'native': '', 'unroll': '2'}


class Num:
    """numbers the nodes, computes captured names"""
    def __init__(self, structs, natives):
        self.nodes = []
        self.structs = structs
        self.globals = []
        self.texts = []     # literal texts given to eval

    def new(self, n):
        self.nodes.append(n)
        return len(self.nodes)

    def node(self, e):
        if e == 0:
            return 0
        k = e[0]
        if k == 'comma':
            if len(e[2]) == 1 and not e[3] and e[2][0][0] != 'unroll':
                return self.node(e[2][0])
            return self.new(['mk', e[1], 'vec', [[self.node(a), u] for a, u in map(unr, e[2])]])
        if k == 'mk':
            return self.new(['mk', e[1], e[2], [[self.node(a), u] for a, u in e[3]]])
        if k == 'call':
            f = e[2]
            if f[0] == 'var' and f[2] == 'eval' and len(e[3]) == 1 and e[3][0][0][0] == 'lit' and e[3][0][0][2][0] == 'str':
                self.texts.append(e[3][0][0][2][1])
            return self.new(['call', e[1], self.node(f), [[self.node(a), u] for a, u in e[3]]])
        if k == 'cmp':
            return self.new(['cmp', e[1], self.node(e[2]), [[o, self.node(x)] for o, x in e[3]]])
        if k == 'pasg':
            return self.new(['pasg', e[1], e[2], [self.node(x) for x in e[3]], self.node(e[4]), e[5], e[6]])
        if k == 'fn':
            ps = [[p[0], p[1], self.node(p[2])] for p in e[3]]
            return self.new(['fn', e[1], e[2], ps, self.node(e[4]), e[5], e[6], sorted(free(e)), e[8]])
        if k == 'blk':
            return self.new(['blk', e[1], [self.node(s) for s in e[2]], e[3]])
        if k == 'fnd':
            if e[4]:
                self.globals.append(e[2][2])
            return self.new(['fnd', e[1], self.node(e[2]), [self.node(d) for d in e[3]], e[4], e[5]])
        if k in ('struct', 'native'):
            st = self.structs[e[2] - 1]
            self.globals.append(st['name'])
            st['methods'] = [[m[0], self.node(m[1]), m[2], m[3]] for m in st['methods']]
            return self.new([k] + e[1:])
        if k == 'let' and e[4]:
            self.globals += e[2][1] if e[3] == 0 else binds(e[2])
        if k not in EXPRS:
            raise FrontError('node ' + k)
        idx = [int(c) for c in EXPRS[k]]
        return self.new([self.node(x) if i in idx else x for i, x in enumerate(e)])


def binds(p):
    if p[0] == 'n':
        return [p[1]]
    if p[0] == 'rest':
        return [] if p[1] == '_' else [p[1]]
    if p[0] == 'p':
        return [x for q in p[1] for x in binds(q)]
    return []


def free(f):
    """names a function refers to that it does not declare first itself"""
    out = set()

    def pat(p, sc):
        if p[0] == 'n' and p[1] not in sc:
            out.add(p[1])
        if p[0] == 'rest' and p[1] not in sc:
            out.add(p[1])
        if p[0] == 'p':
            for q in p[1]:
                pat(q, sc)

    def go(e, sc):
        if e == 0 or not isinstance(e, list):
            return
        k = e[0]
        if k == 'var':
            if e[2] not in sc: out.add(e[2])
        elif k == 'asg':
            if e[2] not in sc: out.add(e[2])
            go(e[3], sc)
        elif k == 'opasg':
            if e[3] not in sc: out.add(e[3])
            go(e[4], sc)
        elif k == 'lit' or k in ('struct', 'native', 'empty', 'varempty', 'varname', 'exit', 'nop', 'break', 'cont'):
            pass
        elif k == 'fn':
            out.update(x for x in free(e) if x not in sc)
        elif k == 'blk':
            s2 = set(sc)
            for s in e[2]:
                go(s, s2)
        elif k == 'let':
            if e[3] == 0:
                sc.update(e[2][1])
            else:
                go(e[3], sc)
                sc.update(binds(e[2]))
        elif k == 'fnd':
            sc.add(e[2][2])
            for d in e[3]: go(d, sc)
            go(e[2], sc)
        elif k == 'for':
            go(e[3], sc)
            go(e[4], sc | set(binds(e[2])))
            go(e[5], sc)
        elif k == 'call' or k == 'mk':
            if k == 'call': go(e[2], sc)
            for a, _ in e[3]: go(a, sc)
        elif k == 'comma':
            for a in e[2]: go(a, sc)
        elif k == 'cmp':
            go(e[2], sc)
            for _, x in e[3]: go(x, sc)
        elif k == 'pasg':
            pat(e[2], sc)
            for x in e[3]: go(x, sc)
            go(e[4], sc)
        else:
            for c in EXPRS[k]:
                go(e[int(c)], sc)
    sc = set(b for p in f[3] for b in binds(p[0]))
    for p in f[3]:
        go(p[2], sc)
    go(f[4], sc)
    return out


def translate(src):
    """source text -> what the specification needs to know about a program"""
    p = P(src, None)
    root = p.program()
    n = Num(p.structs, None)
    r = n.node(root)
    return with_evals(dict(nodes=n.nodes, root=r, structs=n.structs, globals=n.globals, eof=p.eof()), n.texts)


def with_evals(t, texts):
    """the same program, with the trees of more texts for eval"""
    n = Num([], None)
    n.nodes = list(t['nodes'])
    evals = list(t.get('evals', ()))
    texts = list(texts)
    while texts:
        x = texts.pop()
        if any(e['src'] == x for e in evals):
            continue
        e = dict(src=x, text=lines_of(x), eof=0, syn=True, root=0, **{'from': 0, 'to': -1})
        try:
            p = P(x, None)
            r = p.expr(False)
            if p.i < len(p.t):
                raise FrontError('more than an expression')
            if p.structs:
                raise FrontError('a struct or module inside of an expression')
            e['from'] = len(n.nodes) + 1
            e['root'] = n.node(r)
            e['to'] = len(n.nodes)
            e['syn'] = False
        except FrontError:
            pass
        e['eof'] = eof_of(x)
        evals.append(e)
        texts += n.texts
        n.texts = []
    return dict(t, nodes=n.nodes, evals=evals)


def lines_of(src):
    return [l[:-1] if l.endswith('\r') else l for l in src.split('\n')]


def eof_of(src):
    """the line on which errors at the end of the text are shown; 0: not known"""
    try:
        return scan(src).eof
    except FrontError:
        return 0


def begun(text, structs=()):
    """-> ('prog', tree, parser) | ('open',) it can be continued | ('syn',) it cannot"""
    try:
        p = P(text, None)
    except FrontError as e:
        return ('open',) if 'without end' in str(e) else ('syn',)
    p.structs = list(structs)
    try:
        return 'prog', p.program(), p
    except IllError:
        return ('syn',)
    except FrontError:
        return ('open',) if p.i >= len(p.t) else ('syn',)


def session(lines, steps, last):
    """the lines of an interactive session, with what was recorded for each of them -> its entries"""
    n = Num([], None)
    entries, buf, opens, names = [], [], [], []
    for i, l in enumerate(lines[:len(steps)]):
        buf.append(l)
        nxt = steps[i + 1]['prompt'] if i + 1 < len(steps) else last
        e = {'from': i + 2 - len(buf), 'to': i + 1, 'text': buf, 'open': opens, 'root': 0, 'sids': [], 'names': [], 'echo': False, 'first': 1, 'last': 0, 'eof': 0}
        k = begun(''.join(x + '\n' for x in buf), n.structs)
        try:
            e['eof'] = scan(''.join(x + '\n' for x in buf)).eof
        except FrontError:
            pass
        if buf == ['']:
            e['kind'] = 'blank'
        elif nxt == '... ' and steps[i]['res'] == 'ok':
            opens = opens + [k[0] == 'open']
            if i + 1 < min(len(lines), len(steps)):
                continue
            e['kind'] = 'rest'
        else:
            e['kind'] = k[0]
            if k[0] == 'prog':
                root, p = k[1:]
                e['sids'] = list(range(len(n.structs) + 1, len(p.structs) + 1))
                n.structs = p.structs
                n.globals = []
                root[3] = e['echo'] = bool(root[2]) and root[2][-1][0] == 'expr'
                e['first'] = len(n.nodes) + 1
                e['root'] = n.node(root)
                e['last'] = len(n.nodes)
                e['names'] = sorted(set(n.globals))
                names += n.globals
        entries.append(e)
        buf, opens = [], []
    return with_evals(dict(nodes=n.nodes, structs=n.structs, globals=sorted(set(names)), entries=entries, root=0, eof=0), n.texts)


if __name__ == '__main__':
    import sys, json
    t = translate(sys.stdin.read())
    for i, x in enumerate(t['nodes']):
        print(i + 1, json.dumps(x))
    print(json.dumps(t['structs']), t['globals'])
