"""Families about what the compiler accepts: C20 (and the misplaced names of C02)."""
import itertools, random
import mangle, texts, fam_func, fam_calls
from check import Case
from families import Property, REGISTRY


class Pool:
    """programs of all the families, drawn once"""

    def __init__(self, ctx, per=10, longest=1500):
        import families
        self.srcs = []
        for pid in sorted(families.REGISTRY):
            if pid in ('C20', 'C24', 'C18', 'C19'):
                continue
            for fam in families.REGISTRY[pid].fams:
                if getattr(fam[1], 'pooled', False):
                    continue
                r = random.Random('%s %s %d' % (pid, fam[0], ctx.seed))
                try:
                    for c in itertools.islice(fam[1](r, ctx), per):
                        s = c if isinstance(c, str) else c.src
                        if len(s) <= longest:
                            self.srcs.append(s)
                except StopIteration:
                    pass

    def __call__(self, r):
        return r.choice(self.srcs)


def some(r):
    k = r.random()
    if k < .4:
        return fam_func.Names(r, r.randint(3, 14)).program()
    for _ in range(50):
        c = fam_func.closure_main(r) if k < .7 else fam_calls.structs(r)
        c = c if isinstance(c, str) else c.src
        if len(c) < 2500:
            return c
    return 'print(a)'


def misplaced(kind):
    def it(rng, ctx):
        while True:
            yield Case(mangle.mangle(rng, some(rng)), kind=kind)
    return it


def edited(rng, ctx):
    pool = Pool(ctx)
    while True:
        yield Case(texts.text(rng, lambda: pool(rng)), kind='text', lines=False)


def interpreter(rng, ctx):
    pool = Pool(ctx, 2)
    while True:
        t = mangle.mangle(rng, some(rng)) if rng.random() < .5 else texts.text(rng, lambda: pool(rng))
        if '\r' not in t:
            yield Case("print('one')\n" + t, kind='text', links=(), lines=False)


def tokens(rng, ctx):
    """all sequences of up to two tokens, then longer ones at random"""
    short = [(a,) for a in texts.BITS] + [(a, b) for a in texts.BITS for b in texts.BITS]
    rng.shuffle(short)
    for t in short:
        yield Case(rng.choice(['', ' ', ' ', '\n']).join(t), kind='text', lines=False)
    while True:
        yield Case(rng.choice(['', ' ', ' ', ' ', '\n']).join(rng.choice(texts.BITS) for _ in range(rng.choice([3, 3, 4, 5, 6, 8]))), kind='text', lines=False)


WRAPS = [('(', ')'), ('[', ']'), ('{', '}'), ('fn() -> ', ''), ('if a then ', ' else b'), ('if a then 1 else ', ''), ('- ', ''), ('not ', ''), ('f(', ')'), ('a[', ']'), ('x = ', ''), ('max(1, ', ')'), ('(1, ', ')'),
         ('{1: ', '}'), ('(+ ', ')'), ('a . ', ''), ('', ' . a'), ('1 + ', ''), ('a ** ', ''), ('', '->f'), ('', '[1:2]')]
BLOCKS = [('if a { ', ' }'), ('while a { ', ' }'), ('loop { ', ' }'), ('do { ', ' } while a'), ('for a in b { ', ' }'), ('fn a() { ', ' }'), ('let a = fn() { ', ' }'), ('if a { } elif b { ', ' } else { }')]


def nested(rng, ctx):
    while True:
        n = rng.choice([2, 3, 5, 8, 20, 60, 120])
        ws = [rng.choice(WRAPS) for _ in range(rng.choice([1, 2, 4]))]
        e = rng.choice(['a', '1', '', "'x'", 'x y'])
        for _ in range(n):
            w = rng.choice(ws)
            e = w[0] + e + w[1]
        b = rng.choice(['let y = ', 'print(', '']) + e
        b += ')' if b.startswith('print(') else ''
        for _ in range(rng.choice([0, 1, 3, 6])):
            w = rng.choice(BLOCKS)
            b = w[0] + b + w[1]
        if rng.random() < .3:
            b = b[:rng.randrange(len(b) + 1)]
        pre = 'let a = 1, b = 2, x = 3\nfn f(x) -> x\nstruct P(f)\n' if rng.random() < .6 else ''
        yield Case(pre + b, kind='text')


Property('C20', 'a text of the families below (programs with tokens and characters deleted, inserted, exchanged; programs with names misplaced; all short token sequences; deep nestings) that is not empty; '
         'the specification says whether it is to be accepted and which static errors it has, and every report has to show a place of the text',
         ('edited programs', edited, 500), ('misplaced names', misplaced('text'), 200), ('token sequences', tokens, 800), ('nested', nested, 150), ('rejected by the interpreter', interpreter, 100))


def misplaced_names(rng, ctx):
    while True:
        yield mangle.mangle(rng, Names(rng))


def Names(r):
    return fam_func.Names(r, r.randint(3, 14)).program() if r.random() < .7 else some(r)


REGISTRY['C02'].fams += (('misplaced names', misplaced_names, 300),)
