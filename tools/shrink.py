"""Shrinks a program which the specification and the implementation disagree on (a debugging aid)."""
import sys, re
import check
from check import Case


def bad(x):
    return x[3] not in ('ok', 'fuel', 'spec', 'front', 'compile')


def balanced(ls):
    d = 0
    for l in ls:
        for ch in l:
            if ch == '{':
                d += 1
            if ch == '}':
                d -= 1
    return d == 0


def verdicts(srcs):
    r = check.decide([Case(s) for s in srcs])
    out = {}
    for x in r:
        if bad(x):
            out[x[0].src] = x
    return out


def shrink(src, want=None):
    while True:
        ls = src.split('\n')
        cands = []
        for size in (16, 8, 4, 3, 2, 1):
            for i in range(0, len(ls) - size + 1):
                c = ls[:i] + ls[i + size:]
                if balanced(ls[i:i + size]):
                    cands.append('\n'.join(c))
        for i, l in enumerate(ls):          # unwrap a block
            if l.rstrip().endswith('{'):
                for j in range(i + 1, len(ls)):
                    if balanced(ls[i:j + 1]):
                        if not re.match(r'\s*(fn|struct|module)', l):
                            cands.append('\n'.join(ls[:i] + ls[i + 1:j] + ls[j + 1:]))
                        break
            for m in re.finditer(r"\d\d+", l):
                cands.append('\n'.join(ls[:i] + [l[:m.start()] + '1' + l[m.end():]] + ls[i + 1:]))
            for m in re.finditer(r", [^,()\[\]{}]+(?=[,)\]])", l):
                cands.append('\n'.join(ls[:i] + [l[:m.start()] + l[m.end():]] + ls[i + 1:]))
        cands = [c for c in dict.fromkeys(cands) if c != src]
        cands.sort(key=len)
        v = {}
        for k in range(0, len(cands), 400):
            v = verdicts(cands[k:k + 400])
            if v:
                break
        if not v:
            return src
        src = min(v, key=len)
        print(len(src), file=sys.stderr)


if __name__ == '__main__':
    s = shrink(sys.stdin.read())
    print(s)
    for x in verdicts([s]).values():
        print('=====', x[1:2], x[3:5], x[2] and {k: x[2].get(k) for k in ('st', 'out', 'error')})
