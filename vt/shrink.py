"""A generic shrinker for cases (plain JSON data): structural, greedy, and only through valid cases."""
import time
from . import lang

TAGS = {"atom", "op", "int", "var", "stm", "cmp", "call"}


def is_term(v):
    return isinstance(v, list) and v and isinstance(v[0], str) and v[0] in TAGS and lang.valid_term(v)


def children(t):
    if t[0] == "stm":
        return [t[2], t[3]]
    if t[0] in ("cmp", "call"):
        return list(t[2])
    return []


def smaller(v, key=None):
    if is_term(v):
        if v[0] not in ("atom",) or v[1] not in ("a", "b"):
            yield ["atom", "a"]
            yield ["atom", "b"]
        for c in children(v):
            yield c
        if v[0] == "call":
            yield ["cmp", "*", v[2]] if v[2] else ["op", v[1]]
        if v[0] == "stm":
            if v[1] != "-->":
                yield ["stm", "-->", v[2], v[3]]
            for x in smaller(v[2]):
                yield ["stm", v[1], x, v[3]]
            for x in smaller(v[3]):
                yield ["stm", v[1], v[2], x]
        elif v[0] in ("cmp", "call"):
            for x in sublists(v[2]):
                yield [v[0], v[1], x]
            for i, c in enumerate(v[2]):
                for x in smaller(c):
                    yield [v[0], v[1], v[2][:i] + [x] + v[2][i + 1:]]
        elif v[0] == "int":
            for x in smaller(v[1]):
                yield ["int", x]
        elif v[0] in ("atom", "op"):
            for x in smaller(v[1]):
                yield [v[0], x]
        return
    if isinstance(v, dict):
        for k in sorted(v):
            if k in ("truth", "budget", "tense") and v[k] is not None:
                d = dict(v)
                d[k] = None
                yield d
            if k == "st" and v[k]:
                d = dict(v)
                d[k] = []
                yield d
        for k in sorted(v):
            for x in smaller(v[k], k):
                d = dict(v)
                d[k] = x
                yield d
    elif isinstance(v, list):
        yield from sublists(v)
        for i, c in enumerate(v):
            for x in smaller(c):
                yield v[:i] + [x] + v[i + 1:]
    elif isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        if v != 0:
            yield 0
            if abs(v) > 3:
                yield v // 2 if v > 0 else -(-v // 2)
            yield v - 1 if v > 0 else v + 1
    elif isinstance(v, float):
        for c in (0.0, 1.0, 0.5, round(v, 1), round(v, 3)):
            if c != v and len(repr(c)) < len(repr(v)):
                yield c
    elif isinstance(v, str) and v:
        if len(v) > 1:
            h = len(v) // 2
            yield v[:h]
            yield v[h:]
            if len(v) < 80:
                for i in range(len(v)):
                    yield v[:i] + v[i + 1:]
        if v not in ("a", "b"):
            yield "a"


def sublists(v):
    n = len(v)
    k = n
    while k >= 1:
        for i in range(0, n, k):
            if k < n or n == 1 or k == n:
                yield v[:i] + v[i + k:]
        k //= 2


def shrink(case, fails, valid, seconds=60, limit=4000):
    """fails(case) -> message or None.  Returns the smallest failing case found."""
    end = time.time() + seconds
    tried = 0
    best = case
    progress = True
    while progress:
        progress = False
        for c in smaller(best):
            if time.time() > end or tried > limit:
                return best
            try:
                if not valid(c):
                    continue
            except Exception:
                continue
            tried += 1
            if fails(c):
                best = c
                progress = True
                break
    return best
