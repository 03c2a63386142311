"""Programs with names, declarations and statements misplaced at random; which of them are programs, the specification says (spec/CordyScope.tla)."""
import re
from cordyfront import KEYWORDS

WORD = re.compile(r"'[^']*'|\b[a-zA-Z][a-zA-Z0-9_]*\b")
KEEP = {'print', 'max', 'min', 'eval'}
LINES = ['break', 'continue', 'self', 'let %s = 1', 'let %s', 'let %s, %s = (1, 2)', '%s, %s = [1, 2]', '%s += 1', '%s = 4', 'print(%s->%s)', 'print((->%s))',
         'struct %s(%s, %s)', 'struct %s(%s) { fn %s(self) { self->%s } fn %s() { %s } }', 'module %s { fn %s() { %s } fn %s(%s) { %s } }',
         'fn %s(%s, q = %s) { print(q, %s) }', 'fn %s() { %s = 7 }', 'fn %s() { fn %s() { self } }', 'for %s in [1, 2] { print(%s) }',
         'for %s, %s in [(1, 2)] { break }', 'while false { break } else { break }', 'print(fn(%s, %s) -> %s)', 'return 5', 'return', 'print = 3', '%s->%s = 3', '%s->%s += 3',
         'if true { let %s = 2; let %s = 3 }', 'do { let %s = 3; break } while false', 'loop { fn %s() { break } break }', 'let %s = fn(%s) -> %s',
         'len, %s = (1, 2)', 'let print = 2', 'fn len() { }', 'let %s = %s', '%s, *%s = [1, 2, 3]', 'module %s { fn %s() { %s, %s = [1, 2] } }']


def names(src):
    out = []
    for m in WORD.finditer(re.sub(r'//.*', '', src)):
        w = m.group()
        if w[0] != "'" and w not in KEYWORDS and w not in KEEP and w not in out:
            out.append(w)
    return out


def balanced(l):
    return l.count('{') == l.count('}') and l.count('(') == l.count(')') and l.count('[') == l.count(']')


def mangle(r, src, n=None):
    src = src.rstrip('\n')
    ns = names(src) or ['a']
    ns += ['zork', 'a']

    def name():
        return r.choice(ns)
    for _ in range(n if n is not None else r.choice([1, 1, 2, 3])):
        ls = src.split('\n')
        k = r.random()
        if k < .3:
            occ = [m for m in WORD.finditer(src) if m.group()[0] != "'" and m.group() not in KEYWORDS and m.group() not in KEEP]
            if occ:
                m = r.choice(occ)
                src = src[:m.start()] + (name() if r.random() < .93 else 'self') + src[m.end():]
            continue
        i = r.randrange(len(ls))
        if k < .42 and balanced(ls[i]):
            del ls[i]
        elif k < .5 and balanced(ls[i]):
            ls.insert(r.randrange(len(ls)), ls[i])
        elif k < .6 and balanced(ls[i]):
            l = ls.pop(i)
            ls.insert(r.randrange(len(ls) + 1), l)
        else:
            t = r.choice(LINES)
            ls.insert(r.randrange(len(ls) + 1), re.sub('%s', lambda m: name(), t))
        src = '\n'.join(ls)
    return src + '\n'
