"""Arbitrary texts, from programs: truncated, with tokens or characters deleted, inserted, repeated, exchanged, and random ones."""
import re

TOK = re.compile(r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|[A-Za-z][A-Za-z0-9_]*|[0-9][0-9a-zA-Z_]*|//[^\n]*|\s+|\*\*=|<<=|>>=|\.\.\.|->|\*\*|<<|>>|[-+*/%&|^.<>=!]=|.", re.S)
BITS = ['let', 'fn', 'return', 'if', 'elif', 'else', 'then', 'loop', 'while', 'for', 'in', 'is', 'not', 'break', 'continue', 'do', 'true', 'false', 'nil', 'struct', 'exit',
        'assert', 'module', 'self', 'native', 'and', 'or', '=', '+=', '-=', '*=', '/=', '&=', '|=', '^=', '<<=', '>>=', '%=', '**=', '.=', '+', '-', '*', '/', '&', '|', '^',
        '%', '**', '<<', '>>', '!', '!=', '==', '<', '<=', '>', '>=', '(', ')', '[', ']', '{', '}', ',', '.', ':', '->', '_', ';', '@', '...', '?', 'a', 'b', 'x', 'print',
        'max', 'min', 'map', 'len', '0', '1', '42', '0xff', '0b10', '3i', "'s'", '"t"', '//', '/*', '*/', "'", '"', '\n', '\t', '\r\n', ' ', '()', '[]', '{}', '(,)', 'fn(', '->',
        'else {', 'min=', 'max=', '..', '0z', '0x', '99999999999999999999', '1_0', '\\', '$', '#', '~', '`', 'é', '漢', '😀', '\u00a0', '\x0b', '_a', 'a?', '4611686018427387904', '9223372036854775807', '9223372036854775808']


TWO = re.compile(r"\b(is|not)(?:\s|//[^\n]*\n|/\*.*?\*/)*\n(?:\s|//[^\n]*\n|/\*.*?\*/)*(not|in)\b", re.S)


def one_line(t):
    """no line break within an operator of two words (errors of it are shown at both lines)"""
    return TWO.sub(r'\1 \2', t)


def text(r, base):
    return one_line(text1(r, base))


def text1(r, base):
    """a text from the program(s) `base()` gives"""
    k = r.random()
    if k < .1:
        n = r.choice([1, 2, 3, 5, 8, 13, 30])
        return r.choice(['', ' ', ' ', '\n']).join(r.choice(BITS) for _ in range(n))
    src = base()
    if k < .16:
        return src[:r.randrange(len(src) + 1)]
    if k < .25:
        ts = list(src)
        for _ in range(r.choice([1, 1, 2, 3])):
            i = r.randrange(len(ts) + 1)
            q = r.random()
            if q < .4:
                ts[i:i + 1] = []
            elif q < .7:
                ts.insert(i, r.choice(BITS))
            elif i < len(ts):
                ts[i] = r.choice('()[]{}.,;:\'"\n +-*/=<>!&|^%@_?0a1é')
        return ''.join(ts)
    ts = TOK.findall(src)
    if k > .9 and len(ts) > 40:         # only some of it
        i = r.randrange(len(ts))
        ts = ts[i:i + r.randrange(60)]
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        i = r.randrange(len(ts) + 1)
        q = r.random()
        if q < .3:
            ts[i:i + r.choice([1, 1, 2, 4])] = []
        elif q < .6:
            ts.insert(i, r.choice(BITS) if r.random() < .9 else ' %s ' % r.choice(BITS))
        elif q < .75 and i < len(ts):
            ts[i] = r.choice(BITS)
        elif q < .9 and ts:
            j = r.randrange(len(ts))
            ts.insert(i, ts[j])
        elif ts:
            j, l = r.randrange(len(ts)), r.randrange(len(ts))
            ts[j], ts[l] = ts[l], ts[j]
    return ''.join(ts)
