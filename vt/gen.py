"""Generators of abstract sentences (see lang.py).  All of them take a random.Random and return plain data."""
from . import lang
from .lang import CORE_COPULAS, COPULAS, MULTI, SINGLE, SETS, IMAGES

SHORT = ["a", "b", "c", "d", "e", "f", "g", "h"]
WORDS = ["bird", "animal", "robin", "swan", "go", "pick", "0", "1", "12", "007", "x_1", "it's", "N", "tim", "_", "A", "aa", "ab", "caf\xe9", "\xff\xfe", "\x01", "`q", "x\x7f", "\xe4\xb8\xad"]
QUOTED = ['"a"', '"x y"', '""', '"{}"', '"{0}"', '"%s"', '"a{b}c"', '"-->"', '"(&&, a, b)"', '"$x"', '"."', '" "', '"a|b&c"', '"{{"', '"}"', '"<a --> b>. %1;0.9%"', '"#?!@"', '"\xe9\x01"', '"^go"', '"0.5"', '"\t"', '"\r"', '"a\\"b"', '"a\\\\b"', '"a\\\\"', '"a\\"b\\"c\\\\d"', '"it is \\"so\\" "']
ALPHA = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_'`\x80\xc3\xff\x02"
QALPHA0 = ALPHA + " {}()[]<>-|&%$#?!@.,;:/*+~^="


# every byte that a plain word, or a quoted word without an escape, may contain
RAWALL = "".join(chr(i) for i in range(1, 256) if chr(i) not in lang.RAWX)
QALL = "".join(chr(i) for i in range(1, 256) if chr(i) not in '\n"\\')


def name(rng, kind=None):
    r = rng.random() if kind is None else kind
    if r < 0.5:
        return rng.choice(SHORT)
    if r < 0.75:
        return rng.choice(WORDS)
    if r < 0.88:
        return rng.choice(QUOTED)
    if r < 0.95:
        alpha = ALPHA if rng.random() < 0.6 else RAWALL
        start = str(rng.choice([0, 1, 2, 9, 10, 20, 21, 99, 100])) if rng.random() < 0.2 else ""
        return start + "".join(rng.choice(alpha) for _ in range(rng.randint(1, 8)))
    if r < 0.98:
        esc = rng.random() < 0.4
        QALPHA = QALPHA0 if rng.random() < 0.6 else QALL
        return '"' + "".join(rng.choice(QALPHA) + (rng.choice(['\\"', "\\\\"]) if esc and rng.random() < 0.3 else "") for _ in range(rng.choice([0, 1, 2, 3, 5, 10, rng.choice([10, 40, 130, 300])]))) + '"'
    return "".join(rng.choice(ALPHA) for _ in range(rng.choice([9, 15, 16, 17, 31, 33, 63, 65, 120, 255, 257, 600] if rng.random() < 0.9 else [511, 1000, 1025, 2050, 4099, 9000])))


def family(rng, k):
    """Names that are easily confused: a long common beginning or end, or only the case differs."""
    r = rng.random()
    if r < 0.3:
        b = rng.choice(["x", "go", "it", "abcd"])
        return [v for v in (b, b.upper(), b.capitalize(), b + b, b + "_", "_" + b, b + "0", b + "00")][:max(k, 3)]
    n = rng.choice([1, 3, 7, 8, 14, 15, 16, 19, 30, 31, 32, 62, 63, 64, 100, 127, 128, 254, 255, 256, 300] if rng.random() < 0.97 else [511, 512, 1000, 1023, 1024, 2048, 4096])
    b = "".join(rng.choice("abcxyz") for _ in range(n))
    if r < 0.5: # each differs from the first in one character, anywhere
        out = [b]
        while len(out) < max(k, 2):
            i = rng.randrange(n) if rng.random() < 0.7 else n - 1
            v = b[:i] + rng.choice([b[i].upper(), "0", chr(ord(b[i]) ^ 128)]) + b[i + 1:]
            if v in out:
                v = b + "_%d" % len(out)
            out.append(v)
        return out
    if r < 0.85:
        return [b] * (r < 0.65) + [b + x for x in rng.sample("0123456789abcdefghijklmnop", max(k, 2))]
    return [x + b for x in rng.sample("0123456789abcdefghijklmnop", max(k, 2))]


def integer(rng):
    r = rng.random()
    if r < 0.6:
        return rng.randint(0, 12)
    if r < 0.75:
        return -rng.randint(0, 12)
    if r < 0.9:
        return rng.choice([99, 100, 255, 256, 1000, 65535, 65536, 99999, 123456, 10**6, 16777217, 10**8 + 1])
    return rng.choice([1, -1]) * rng.choice([2**31 - 1, 2**31 - 2, 10**9, 2**30 + 1, 2**24 + 3])


class Cfg:
    """What a generated sentence draws from."""

    def __init__(self, rng, variables=True, ops=True, intervals=True, names=None, quoted=True, abbrev=True, calls=True):
        self.rng = rng
        k = rng.choice([2, 3, 3, 4, 5, 8])
        if names is None:
            names = [name(rng) if rng.random() < 0.5 else rng.choice(SHORT) for _ in range(k)]
            if not quoted:
                names = [n if n[0] != '"' else "q" for n in names]
        self.names = names
        self.opnames = [rng.choice(["go", "pick", "a", "b", rng.choice(names)]) for _ in range(2)]
        self.vnames = [rng.choice(["x", "y", "z", "a", "0", "1", rng.choice(names)]) for _ in range(rng.choice([1, 2, 3]))]
        r = rng.random()
        if r < 0.06:
            self.vnames = family(rng, rng.choice([2, 3]))
        elif r < 0.12:
            self.vnames = ["v%d" % i for i in range(rng.choice([8, 12, 20]))]
        elif r < 0.18:
            self.names = family(rng, k) + self.names[:1]
        elif r < 0.22:
            self.opnames = family(rng, 2)
        elif r < 0.25:
            f = family(rng, 3)
            self.names, self.opnames, self.vnames = f, f, f
        self.pv = rng.choice([0, 0.1, 0.2, 0.5]) if variables else 0
        self.po = rng.choice([0, 0.05, 0.1]) if ops else 0
        self.pi = rng.choice([0, 0.05, 0.1]) if intervals else 0
        self.calls = calls and ops
        self.abbrev = abbrev
        self.pool = []

    def leaf(self):
        rng = self.rng
        r = rng.random()
        if r < self.pv:
            return ["var", rng.randrange(3), rng.choice(self.vnames)]
        r -= self.pv
        if r < self.po:
            return ["op", rng.choice(self.opnames)]
        r -= self.po
        if r < self.pi:
            return ["int", integer(rng)]
        return ["atom", rng.choice(self.names)]

    def split(self, n, k):
        rng = self.rng
        n = max(n, k)
        if k == 1:
            return [n]
        cuts = sorted(rng.sample(range(1, n), k - 1)) if n > k else list(range(1, k))
        return [b - a for a, b in zip([0] + cuts, cuts + [n])]

    def term(self, n, parent=None):
        rng = self.rng
        if n <= 1:
            return self.leaf()
        if self.pool and rng.random() < 0.12:
            return rng.choice(self.pool)
        t = self.node(n, parent)
        if lang.size(t) < 12:
            self.pool.append(t)
        return t

    def node(self, n, parent=None):
        rng = self.rng
        r = rng.random()
        if n == 2:
            if r < 0.3:
                return ["cmp", "--", [self.term(1)]]
            if r < 0.75:
                return ["cmp", rng.choice(SETS), [self.term(1)]]
            if r < 0.9:
                return ["cmp", rng.choice(["*", "/", "\\"]), [self.term(1)]]
            if self.calls:
                return ["call", rng.choice(self.opnames), [self.term(1)] if rng.random() < 0.8 else []]
            return ["cmp", "--", [self.term(1)]]
        if r < 0.35:
            a, b = self.split(n - 1, 2)
            return ["stm", rng.choice(COPULAS if self.abbrev else CORE_COPULAS), self.term(a), self.term(b)]
        if r < 0.4 and self.calls:
            k = min(n - 1, rng.choice([0, 1, 2, 3]))
            return ["call", rng.choice(self.opnames), [self.term(x) for x in self.split(n - 1, k)] if k else []]
        if r < 0.45:
            return ["cmp", "--", [self.term(n - 1)]]
        if r < 0.53:
            return ["cmp", rng.choice(SINGLE), [self.term(x) for x in self.split(n - 1, 2)]]
        if r < 0.62:
            c = rng.choice(["*", "*", "/", "\\"])
            k = min(n - 1, rng.choice([1, 2, 2, 3, 4]))
            return ["cmp", c, [self.term(x) for x in self.split(n - 1, k)]]
        if r < 0.72:
            c = rng.choice(SETS)
            k = min(n - 1, rng.choice([1, 2, 3, 4]))
            return ["cmp", c, [self.term(x, c) for x in self.split(n - 1, k)]]
        c = parent if parent in MULTI and rng.random() < 0.3 else rng.choice(MULTI)
        k = min(n - 1, rng.choice([2, 2, 3, 4, 5]))
        k = max(k, 2)
        if c in "|&" and rng.random() < 0.4:
            ts = []
            for x in self.split(n - 1, k):
                if rng.random() < 0.7:
                    ts.append(["cmp", rng.choice(SETS), [self.term(1) for _ in range(rng.randint(1, 3))]])
                else:
                    ts.append(self.term(x, c))
            return ["cmp", c, ts]
        return ["cmp", c, [self.term(x, c) for x in self.split(n - 1, k)]]


def sizes(rng):
    r = rng.random()
    if r < 0.25:
        return rng.randint(1, 4)
    if r < 0.8:
        return rng.randint(3, 12)
    if r < 0.97:
        return rng.randint(10, 35)
    return rng.randint(35, 90)


def wide(rng, cfg, n=None):
    """A compound with very many operands."""
    n = n or rng.choice([5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 33, 64, 65, 100, 127, 129, 200, 257, 300])
    c = rng.choice(MULTI + ["*", "*", "{", "[", "/", "\\"])
    f = rng.random()
    if f < 0.4:
        ts = [["atom", "n%d" % i] for i in range(n)]
        rng.shuffle(ts)
    elif f < 0.6:
        ts = [["atom", "n%d" % rng.randrange(n)] for i in range(n)]
    elif f < 0.8 and cfg.pv:
        ts = [["var", rng.randrange(3), "v%d" % rng.randrange(max(n // 2, 1))] for i in range(n)]
    elif f < 0.9:
        ts = [["int", i] for i in range(n)]
    else:
        ts = [cfg.term(rng.randint(1, 3)) for i in range(n)]
    if cfg.calls and rng.random() < 0.15:
        return ["call", rng.choice(cfg.opnames), ts]
    return ["cmp", c, ts]


def bulky(rng, cfg):
    """A term whose text takes tens of kilobytes: many operands of some size, some of them with long names."""
    k = rng.choice([20, 60, 150, 300])
    names = cfg.names
    if rng.random() < 0.5:
        cfg.names = list(names) + ["".join(rng.choice(ALPHA) for _ in range(rng.choice([100, 400, 1500]))) for _ in range(2)]
    ts = [cfg.term(rng.choice([1, 2, 3, 3, 5])) for _ in range(k)]
    cfg.names = names
    t = ["cmp", rng.choice(["*", "*", "&&", "&/", "||", "{", "["]), ts]
    r = rng.random()
    if r < 0.3:
        t = ["cmp", "*", [cfg.term(3), t, cfg.term(3), ["cmp", "&/", [cfg.term(2), cfg.term(3)]]]]
    elif r < 0.5:
        t = ["stm", "==>", t, ["stm", "-->", cfg.term(3), cfg.term(3)]]
    return t


def deep(rng, cfg, n=None):
    """A term of great depth."""
    n = n or rng.choice([8, 12, 20, 33, 50, 64, 100, 130])
    t = cfg.leaf()
    mode = rng.randrange(4)
    for i in range(n):
        m = mode if mode < 3 else rng.randrange(3)
        x = cfg.leaf()
        if m == 0:
            t = ["stm", rng.choice(CORE_COPULAS), t, x] if rng.random() < 0.5 else ["stm", rng.choice(CORE_COPULAS), x, t]
        elif m == 1:
            c = rng.choice(["*", "&&", "||", "&/", "&|", "-", "~", "&", "|", "/", "\\"])
            t = ["cmp", c, [t, x] if rng.random() < 0.5 else [x, t]]
        else:
            t = ["cmp", "--", [t]] if rng.random() < 0.5 else ["cmp", rng.choice(SETS), [t]]
    return t


def term(rng, cfg=None, tails=0.04, bare=True):
    cfg = cfg or Cfg(rng)
    r = rng.random()
    if r < tails / 2:
        t = wide(rng, cfg)
        if rng.random() < 0.5:
            t = ["stm", rng.choice(COPULAS), t, cfg.term(2)]
    elif r < tails:
        t = deep(rng, cfg)
    else:
        t = cfg.term(sizes(rng))
        while t[0] == "var" and not bare:
            t = cfg.term(3)
    if t[0] == "var" and not bare:
        t = ["stm", "-->", t, ["atom", "a"]]
    return t


def digits(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def unit_number(rng):
    r = rng.random()
    if r < 0.12:
        return rng.choice(["0", "1", "1.", "1.0", "1.000", ".0", "0.0", "0.00"])
    if r < 0.5:
        return rng.choice(["", "0"]) + "." + digits(rng, rng.choice([1, 1, 2, 2, 3]))
    if r < 0.9:
        return rng.choice(["0.5", "0.8", "0.9", "0.95", ".5", "0.25", "0.75", "0.01", "0.99", "0.1", "0.333", "0.05", "0.005"])
    return rng.choice(["", "0"]) + "." + digits(rng, rng.randint(4, 12))


def open_number(rng):
    while True:
        r = rng.random()
        if r < 0.06:
            s = rng.choice(["", "0"]) + "." + "9" * rng.randint(2, 7)
        elif r < 0.12:
            s = rng.choice(["", "0"]) + "." + "0" * rng.randint(2, 12) + rng.choice("123456789")
        elif r < 0.5:
            s = rng.choice(["0.5", "0.9", "0.45", "0.99", ".9", ".01", "0.1", "0.90", "0.999", "0.001", "0.60", "0.345"])
        elif r < 0.9:
            s = rng.choice(["", "0"]) + "." + digits(rng, rng.choice([1, 2, 2, 3]))
        else:
            s = rng.choice(["", "0"]) + "." + digits(rng, rng.randint(4, 10))
        if lang.RE_OPEN.match(s) and 0 < lang.f32(s) < 1:
            return s


def k_number(rng):
    if rng.random() < 0.7:
        return rng.choice(["1", "2", "10", "3", "7", "100", "12", "1000", "99", "5"])
    return rng.choice(["127", "128", "255", "256", "32767", "32768", "40000", "65535", "65536", "100000", "2147483647", "2147483648", "4294967296", "99999999999", "1" + "0" * rng.randint(3, 25), rng.choice("123456789") + digits(rng, rng.randint(1, 24))])


def tense(rng):
    r = rng.random()
    if r < 0.5:
        return None
    if r < 0.8:
        return rng.choice(["/", "|", "\\"])
    return integer(rng)


def truth(rng):
    k = rng.choice([0, 0, 1, 2, 2, 3])
    return [unit_number(rng), open_number(rng), k_number(rng)][:k] or None


def budget(rng):
    k = rng.choice([0, 0, 0, 1, 2, 3])
    return [unit_number(rng), open_number(rng), unit_number(rng)][:k] or None


def style(rng, n=None):
    if rng.random() < 0.25:
        return []
    k = n if n is not None else rng.choice([3, 10, 40, 120])
    return [rng.randrange(60) for _ in range(k)]


def line(rng, cfg=None, tails=0.04, styled=True, **kw):
    cfg = cfg or Cfg(rng, **kw)
    p = rng.choice("...?!@")
    return {"t": term(rng, cfg, tails, bare=False), "p": p, "tense": tense(rng), "truth": truth(rng) if p in ".!" else None,
            "budget": budget(rng), "st": style(rng) if styled else []}


def lines(rng, n, **kw):
    """Several sentences over shared names."""
    cfg = Cfg(rng, **kw)
    out = []
    for _ in range(n):
        if rng.random() < 0.4:
            cfg = Cfg(rng, **kw)
        cfg.pool = [] if rng.random() < 0.7 else cfg.pool
        out.append(line(rng, cfg))
    return out
