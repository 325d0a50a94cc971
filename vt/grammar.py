"""A scannerless recogniser of the documented grammar.  It tries every way to cut the text into tokens, so it
accepts a superset of what any tokenisation of a grammatical line allows: what it rejects is outside the
grammar beyond doubt."""
import re

MULTI = ["&&", "||", "&|", "&/", "|", "&", "*"]
COPULAS = ["-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"]
RAW = set(map(chr, range(1, 256))) - set("\n !\"#$%&()*+,-./:;<=>?@[\\]^{|}~")
UNIT = re.compile(r"0?\.[0-9]+|1\.0*|1|0")
OPEN = re.compile(r"0?\.0*[1-9]+[0-9]*")
KEV = re.compile(r"[1-9]+[0-9]*")
INT = re.compile(r"-?[0-9]+")


class Rec:
    def __init__(self, s):
        self.s = s
        self.n = len(s)
        self.memo = {}

    def ws(self, i):
        while i < self.n and self.s[i] in " \t":
            i += 1
        return i

    def lit(self, ends, tok):
        out = set()
        for i in ends:
            j = self.ws(i)
            if self.s.startswith(tok, j):
                out.add(j + len(tok))
        return out

    def lits(self, ends, toks):
        out = set()
        for t in toks:
            out |= self.lit(ends, t)
        return out

    def rex(self, ends, r):
        out = set()
        for i in ends:
            j = self.ws(i)
            for e in range(j + 1, min(self.n, j + 40) + 1):
                if r.fullmatch(self.s, j, e):
                    out.add(e)
        return out

    def word1(self, i):
        k = ("w", i)
        if k in self.memo:
            return self.memo[k]
        out = set()
        starts = set(range(i, self.ws(i) + 1))   # a tab may belong to the word
        for j in list(starts):
            e = j
            while e < self.n and self.s[e] in RAW:
                e += 1
                out.add(e)
            if j < self.n and self.s[j] == '"':
                for e in range(j + 1, self.n):
                    if self.s[e] == '"':
                        out.add(e + 1)
        self.memo[k] = out
        return out

    def word(self, ends):
        out = set()
        for i in ends:
            out |= self.word1(i)
        return out

    def term(self, ends):
        out = set()
        for i in ends:
            out |= self.term1(i)
        return out

    def many(self, ends, sep, least):
        """term (sep term)*, at least `least` further ones; ends = after the first term"""
        cur, out = ends, set(ends) if least == 0 else set()
        k = 0
        while cur:
            cur = self.term(self.lit(cur, sep))
            k += 1
            new = cur - out if k >= least else cur
            if k >= least:
                if not new:
                    break
                out |= cur
            cur = new
        return out

    def infix(self, i):
        k = ("x", i)
        if k not in self.memo:
            t = self.term1(i)
            out = set()
            for o in MULTI:
                out |= self.many(t, o, 1)
            self.memo[k] = out
        return self.memo[k]

    def operand(self, ends):
        out = set()
        for i in ends:
            out |= self.term1(i) | self.infix(i)
        return out

    def term1(self, i):
        k = ("t", i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        out = self.nonvar(i)
        out |= self.word(self.lits({i}, "$#?"))
        self.memo[k] = out
        return out

    def nonvar(self, i):
        k = ("n", i)
        if k in self.memo:
            return self.memo[k]
        b = {i}
        out = set(self.word1(i))
        w = self.lit(self.word1(i), "(")
        out |= self.lit(self.many(self.term(w), ",", 0), ")")
        out |= self.word(self.lit(b, "^"))
        out |= self.rex(self.lit(b, "+"), INT)
        out |= self.lit(self.many(self.term(self.lit(b, "{")), ",", 0), "}")
        out |= self.lit(self.many(self.term(self.lit(b, "[")), ",", 0), "]")
        out |= self.term(self.lit(b, "--"))
        lt = self.lit(b, "<")
        if lt:
            out |= self.lit(self.term(self.lits(self.term(lt), COPULAS)), ">")
        p = self.lit(b, "(")
        if p:
            c = set()
            first = self.term(p)
            c |= self.term(self.lits(first, COPULAS))
            c |= self.many(self.word(self.lit(p, "^")), ",", 0)
            c |= self.many(first, ",", 1)
            for j in p:
                c |= self.infix(j)
            for o in MULTI:
                a = self.term(self.lit(self.lit(p, o), ","))
                c |= self.many(a, ",", 0 if o == "*" else 1)
            for o in ("/", "\\"):
                c |= self.many(self.term(self.lit(self.lit(p, o), ",")), ",", 0)
            c |= self.term(self.lit(self.lit(p, "--"), ","))
            for o in ("-", "~"):
                c |= self.operand(self.lit(self.operand(self.lit(self.lit(p, o), ",")), ","))
                c |= self.operand(self.lit(self.operand(p), o))
            out |= self.lit(c, ")")
        self.memo[k] = out
        return out

    def opt_list(self, ends, rs):
        out = set()
        cur = self.rex(ends, rs[0])
        out |= cur
        for r in rs[1:]:
            cur = self.rex(self.lit(cur, ";"), r)
            out |= cur
        return out

    def line(self):
        start = {0} | self.lit(self.opt_list(self.lit({0}, "$"), [UNIT, OPEN, UNIT]), "$")
        t = set()
        for i in start:
            t |= self.nonvar(i)
        fin = set()
        for p in ".?!@":
            e = self.lit(t, p)
            te = self.lit(self.rex(self.lit(e, ":!"), INT), ":") | self.lits(e, [":/:", ":|:", ":\\:"])
            e = e | te
            if p in ".!":
                e = e | self.lit(self.opt_list(self.lit(e, "%"), [UNIT, OPEN, KEV]), "%")
            fin |= e
        return any(self.ws(i) == self.n for i in fin)


def may_be_line(s):
    if "\0" in s:
        return False
    s = s.split("\n")[0]
    try:
        return Rec(s).line()
    except RecursionError:
        return True
