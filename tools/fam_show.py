"""Families about the tokens of a text: highlighting and lexical errors (C24)."""
import itertools, random
import mangle, texts
from check import Case
from families import Property
from fam_static import Pool, some

CLASSES = ['keyword', 'constant', 'native', 'type', 'number', 'string', 'syntax', 'comment']
ODD = ["'", '"', '\\', '\\\\', "\\'", "'a", "a'", "'\\n'", "'\\x'", "'a\nb'", "'a\r\nb'", "'\\\r\nb'", '"it\'s"', '//', '// é\n', '/*', '*/', '/* x', '/**/', '/***/', '/*/', '/* // */', '// /*\n', 'é', '漢字', '😀', '\u00a0', '#', '$', '0x', '0xfF_g', '0b', '0b12', '0b1_0i', '0z', '00', '0_1', '0i', '0', '1i', '12j',
       '1_000', '1__', '1_i', '0x1fi', '9223372036854775807', '9223372036854775808', '0x7fffffffffffffff', '0x8000000000000000', '0b' + '1' * 63, '0b' + '1' * 64, '000', '0x0000000000000000000001', '..', '...', '....', '.=', '<<=', '<<<=', '>>=>', '**=', '***', '->', '-->', '=>', '==', '===', '!==', '+=+', '&&', '||', '^=',
       '_', '_a', 'a_', 'int', 'str', 'any', 'print', 'len', 'let', 'lets', 'nil', 'self', 'in', 'not', 'max=', 'a1', 'A', 'eval', 'typeof', 'rational', '\n', '\r\n', '\r', '\t', ' ', '  ', '\n\n', '?', '@', ';', ':', ',', '(', ']', '{', '`', '~', '<', '>', '&']


def shown(r, t, cli=.03):
    k = r.random()
    if k < .45:
        pre, t = '', t
    elif k < .8:                    # the end of it is what is shown
        i = r.randrange(len(t) + 1)
        pre, t = t[:i], t[i:]
    else:
        ls = t.split('\n')
        i = r.randrange(len(ls))
        pre, t = ''.join(x + '\n' for x in ls[:i]), '\n'.join(ls[i:])
    links = None
    if not pre and r.random() < cli:
        links = tuple(r.sample(CLASSES, r.choice([0, 0, 0, 1, 2, 5])))
    return Case(t, pre, opts=(False,), kind='show', links=links)


def short(rng, ctx):
    """all sequences of up to two odd pieces, at every place of which the prefix may end; then longer ones at random"""
    xs = [(a,) for a in ODD] + [(a, b) for a in ODD for b in ODD]
    rng.shuffle(xs)
    for x in xs:
        yield shown(rng, ''.join(x))
    while True:
        yield shown(rng, ''.join(rng.choice(ODD + ['a', ' ', ' ', '\n', '1', "'"]) for _ in range(rng.choice([3, 3, 4, 5, 6, 8, 12]))))


def programs(rng, ctx):
    pool = Pool(ctx, 4, 700)
    while True:
        k = rng.random()
        t = pool(rng) if k < .6 else some(rng)
        if k < .3:
            t = texts.text(rng, lambda: pool(rng))
        elif k < .45:
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice(ODD) + t[i:]
        if len(t) <= 900:
            yield shown(rng, t)


def cut(rng, ctx):
    """one text, with every part of it as the prefix"""
    pool = Pool(ctx, 4, 120)
    while True:
        t = ''.join(rng.choice(ODD) for _ in range(rng.randint(1, 5))) if rng.random() < .6 else pool(rng)
        for i in range(len(t) + 1):
            yield Case(t[i:], t[:i], opts=(False,), kind='show')


Property('C24', 'a text, highlighted after a prefix (often none), in lines and as a page, and compiled; the specification says where its tokens are, of which class, and which errors it has',
         ('short texts', short, 1500), ('programs', programs, 400), ('all prefixes', cut, 1000))
