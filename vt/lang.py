"""The reference model of the Narsese language: abstract sentences, how they may be written, what they
denote (normal form), what the interpreter is expected to print around the term, and a recogniser.

Abstract terms (plain lists, so that a case can be written to a replay file):
  ["atom", name] ["op", name] ["int", n] ["var", kind, name]        kind 0 '$', 1 '#', 2 '?'
  ["stm", copula, s, p]       copula as written, abbreviations included
  ["cmp", connector, [t, ...]]
  ["call", op name, [t, ...]]  an operation applied to arguments
Abstract sentence: {"t": term, "p": one of .?!@, "tense": None|"/"|"|"|"\\"|int, "truth": None|[text..],
"budget": None|[text..]}; a line is a sentence plus "st", the list of notation choices."""
import re, math, struct

COPULAS = ["-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"]
CORE_COPULAS = [c for c in COPULAS if c not in ("{--", "--]", "{-]")]
SYM_COPULAS = {"<->", "<=>", "<|>"}
HIGHER = {"==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"}
MULTI = ["&&", "||", "&|", "&/", "|", "&"]
SINGLE = ["-", "~"]
SETS = ["{", "["]
IMAGES = ["/", "\\"]
COMMUTATIVE = {"&&", "||", "&|", "|", "&", "{", "["}
REDUCIBLE = COMMUTATIVE | {"&/"}
VARS = "$#?"
CLOSE = {"{": "}", "[": "]"}


class Unmodelled(Exception):
    """The sentence is outside the domain of the property (for example an empty intersection of sets)."""


# ------------------------------------------------------------------ notation
class Style:
    def __init__(self, choices):
        self.c = choices or []
        self.i = 0

    def __call__(self, n):
        if self.i < len(self.c):
            v = self.c[self.i] % n
        else:
            v = 0
        self.i += 1
        return v


OPS = sorted(set(COPULAS + MULTI + SINGLE + SETS + IMAGES + ["*", "--", "(", ")", "<", ">", "}", "]", ",", "^", "+", "$", "#", "?", ".", "!", "@", ":", ":!", ":/:", ":|:", ":\\:", "%", ";"]), key=lambda s: -len(s))
WORDISH = "w"  # token kinds: ("w", text) a word or number; ("o", text) an operator


def _munch(s):
    for o in OPS:
        if s.startswith(o):
            return o
    return None


def can_touch(a, b):
    """May token b follow token a without a blank, under longest match over all tokens?"""
    if a[0] == "w":
        return b[0] != "w"
    if b[0] == "w" and not b[1][0] in "-.+":
        return True
    return _munch(a[1] + b[1]) == a[1]


def tokens_term(t, st, out):
    o = lambda x: out.append(("o", x))
    w = lambda x: out.append(("w", x))
    k = t[0]
    if k == "atom":
        w(t[1])
    elif k == "op":
        o("^")
        w(t[1])
    elif k == "int":
        o("+")
        w(str(t[1]))
    elif k == "var":
        o(VARS[t[1]])
        w(t[2])
    elif k == "stm":
        _, c, s, p = t
        if c == "-->" and p[0] == "op" and s[0] == "cmp" and s[1] == "*":
            f = st(5)
            if f == 2:
                return tokens_term(["call", p[1], s[2]], _Pre(st, 0), out)
            if f == 3:
                return tokens_term(["call", p[1], s[2]], _Pre(st, 1), out)
        br = ("<", ">") if st(2) == 0 else ("(", ")")
        if c == "-->":
            # abbreviations: <{a} --> b> is a {-- b
            es = s[0] == "cmp" and s[1] == "{" and len(s[2]) == 1
            ip = p[0] == "cmp" and p[1] == "[" and len(p[2]) == 1
            f = st(3)
            if f == 1 and es and ip:
                c, s, p = "{-]", s[2][0], p[2][0]
            elif f >= 1 and es:
                c, s = "{--", s[2][0]
            elif f >= 1 and ip:
                c, p = "--]", p[2][0]
        o(br[0])
        tokens_term(s, st, out)
        o(c)
        tokens_term(p, st, out)
        o(br[1])
    elif k == "call":
        f = st(3) if not isinstance(st, _Pre) else st.take()
        if isinstance(st, _Pre):
            st = st.st
        args = t[2]
        if f == 2 and args:
            return tokens_term(["stm", "-->", ["cmp", "*", args], ["op", t[1]]], _Plain(st), out)
        if f == 1 and args:
            w(t[1])
            o("(")
            _list(args, st, out)
            o(")")
        else:
            o("(")
            o("^")
            w(t[1])
            for a in args:
                o(",")
                tokens_term(a, st, out)
            o(")")
    else:
        _, c, ts = t
        if c in SETS:
            o(c)
            _list(ts, st, out)
            o(CLOSE[c])
        elif c == "--":
            if st(2) == 0:
                o("--")
                tokens_term(ts[0], st, out)
            else:
                o("(")
                o("--")
                o(",")
                tokens_term(ts[0], st, out)
                o(")")
        elif c in IMAGES:
            _prefix(c, ts, st, out)
        elif c in SINGLE:
            if st(2) == 0:
                o("(")
                o(c)
                o(",")
                _operand(ts[0], st, out)
                o(",")
                _operand(ts[1], st, out)
                o(")")
            else:
                o("(")
                _operand(ts[0], st, out)
                o(c)
                _operand(ts[1], st, out)
                o(")")
        else:
            f = st(3)
            if len(ts) < 2 or f == 0 or (f == 2 and c != "*") or (f == 2 and ts[0][0] == "op"):
                _prefix(c, ts, st, out)
            elif f == 1:
                o("(")
                _infix(c, ts, st, out)
                o(")")
            else:
                o("(")
                _list(ts, st, out)
                o(")")


class _Pre:
    """A style whose first choice is already made."""

    def __init__(self, st, f):
        self.st, self.f = st, f

    def take(self):
        return self.f


class _Plain:
    """Forces the plain statement form at the next choice."""

    def __init__(self, st):
        self.st, self.first = st, True

    def __call__(self, n):
        if self.first:
            self.first = False
            return 0
        return self.st(n)


def _list(ts, st, out):
    for i, x in enumerate(ts):
        if i:
            out.append(("o", ","))
        tokens_term(x, st, out)


def _prefix(c, ts, st, out):
    out.append(("o", "("))
    out.append(("o", c))
    out.append(("o", ","))
    _list(ts, st, out)
    out.append(("o", ")"))


def _infix(c, ts, st, out):
    for i, x in enumerate(ts):
        if i:
            out.append(("o", c))
        tokens_term(x, st, out)


def _operand(t, st, out):
    """Operand of a difference: an infix expression needs no parentheses there."""
    if t[0] == "cmp" and (t[1] in MULTI or t[1] == "*") and len(t[2]) >= 2 and st(2) == 1:
        _infix(t[1], t[2], st, out)
    else:
        tokens_term(t, st, out)


def tokens_line(s, st):
    out = []
    o = lambda x: out.append(("o", x))
    w = lambda x: out.append(("w", x))
    if s["budget"]:
        o("$")
        for i, x in enumerate(s["budget"]):
            if i:
                o(";")
            w(x)
        o("$")
    tokens_term(s["t"], st, out)
    o(s["p"])
    te = s["tense"]
    if te is not None:
        if isinstance(te, int):
            o(":!")
            w(str(te))
            o(":")
        else:
            o(":%s:" % te)
    if s["truth"]:
        o("%")
        for i, x in enumerate(s["truth"]):
            if i:
                o(";")
            w(x)
        o("%")
    return out


TAB_AFTER = (">", ")", "}", "]", ".", "!", "@", ":|:", ":/:", ":\\:", ":")


def join(toks, st):
    """Blanks: 0 the conventional spacing, otherwise chosen gap by gap."""
    mode = st(4)
    if mode == 0:
        return conventional(toks)
    parts = []
    tabs = mode > 1 and st(3) == 2
    if mode == 3 and st(3) == 1:
        parts.append(" " * (1 + st(3)))
    for i, t in enumerate(toks):
        if i:
            touch = can_touch(toks[i - 1], t)
            if mode == 1:
                g = 0 if touch else 1
            elif mode == 2:
                g = 1
            else:
                g = (0, 1, 1, 2, 3)[st(5)]
                if not touch:
                    g = max(g, 1)
            # a tab is a blank only where no word can begin or go on (elsewhere the grammar lets words contain it)
            parts.append("\t" if tabs and g == 1 and toks[i - 1][1] in TAB_AFTER and st(2) else " " * g)
        parts.append(t[1])
    if mode == 3 and st(3) == 1:
        parts.append(" " * (1 + st(3)))
    return "".join(parts)


def conventional(toks):
    """One blank around infix operators, after commas and around the parts of the sentence."""
    s = ""
    opened = ("(", "<", "{", "[", "^", "$", "#", "?", "+", "--", ":!", "%", ";")
    closing = (")", ">", "}", "]", ",", ";", ".", "!", "@", ":", "%", "?")
    for i, t in enumerate(toks):
        if i:
            a = toks[i - 1]
            if not can_touch(a, t):
                s += " "
            elif a[0] == "o" and a[1] == ",":
                s += " "
            elif t[0] == "o" and t[1] in COPULAS + MULTI + SINGLE + ["*"] and not (a[0] == "o" and a[1] in ("(",)) and a[1] != ",":
                s += " "
            elif a[0] == "o" and a[1] in COPULAS + MULTI + SINGLE + ["*"] and not (t[0] == "o" and t[1] == ","):
                s += " "
        s += t[1]
    return s


def line_text(l):
    st = Style(l.get("st"))
    toks = tokens_line(l, st)
    return join(toks, st)


def plain_text(l):
    return conventional(tokens_line(l, Style([])))


# ------------------------------------------------------------------ validity of abstract sentences
RAWX = set("!\"#$%&()*+,-./:;<=>?@[\\]^{|}~ \n\0\t")


# every character of a quoted word may be followed by one escaped quote or backslash
QWORD = re.compile(r'^"(?:[^"\\\n\0](?:\\["\\])?)*"\Z')


def valid_name(n):
    if not isinstance(n, str) or not n or any(ord(ch) > 255 for ch in n):
        return False
    if n[0] == '"':
        return bool(QWORD.match(n))
    return not any(ch in RAWX for ch in n)


def valid_term(t):
    try:
        k = t[0]
        if k in ("atom", "op"):
            return valid_name(t[1]) and len(t) == 2
        if k == "int":
            return isinstance(t[1], int) and abs(t[1]) < 2**31
        if k == "var":
            return t[1] in (0, 1, 2) and valid_name(t[2])
        if k == "stm":
            return t[1] in COPULAS and valid_term(t[2]) and valid_term(t[3])
        if k == "call":
            return valid_name(t[1]) and all(map(valid_term, t[2]))
        if k == "cmp":
            n = len(t[2])
            c = t[1]
            if c in MULTI:
                ok = n >= 2
            elif c in SETS or c in IMAGES or c == "*":
                ok = n >= 1
            elif c in SINGLE:
                ok = n == 2
            elif c == "--":
                ok = n == 1
            else:
                return False
            return ok and all(map(valid_term, t[2]))
    except (IndexError, TypeError, KeyError):
        pass
    return False


RE_UNIT = re.compile(r"^(0?\.[0-9]+|1\.0*|1|0)$")
RE_OPEN = re.compile(r"^0?\.0*[1-9]+[0-9]*$")
RE_K = re.compile(r"^[1-9]+[0-9]*$")


def valid_line(l):
    try:
        if not valid_term(l["t"]) or l["t"][0] == "var" or l["p"] not in ".?!@":
            return False
        te = l["tense"]
        if not (te is None or te in ("/", "|", "\\") or (isinstance(te, int) and abs(te) < 2**31)):
            return False
        tr = l["truth"]
        if tr is not None:
            if l["p"] in "?@" or not 1 <= len(tr) <= 3 or not all(r.match(x) and len(x) < 30 for r, x in zip((RE_UNIT, RE_OPEN, RE_K), tr)):
                return False
            if len(tr) > 1 and not 0 < f32(tr[1]) < 1:
                return False
        b = l["budget"]
        if b is not None:
            if not 1 <= len(b) <= 3 or not all(r.match(x) and len(x) < 30 for r, x in zip((RE_UNIT, RE_OPEN, RE_UNIT), b)):
                return False
            if len(b) > 1 and not 0 < f32(b[1]) < 1:
                return False
        return isinstance(l.get("st", []), list)
    except (KeyError, TypeError, ValueError):
        return False


# ------------------------------------------------------------------ denotation
def f32(x):
    return struct.unpack("<f", struct.pack("<f", float(x)))[0]


def number_vars(t, tab, core=True):
    """Replaces variable names by numbers, in the order in which the text mentions them."""
    k = t[0]
    if k == "var":
        m = tab[t[1]]
        if t[2] not in m:
            m[t[2]] = len(m)
        return ("var", t[1], m[t[2]])
    if k == "stm":
        s = number_vars(t[2], tab)
        p = number_vars(t[3], tab)
        return ("stm", t[1], s, p)
    if k == "call":
        return ("stm", "-->", ("cmp", "*", tuple(number_vars(x, tab) for x in t[2])), ("op", t[1]))
    if k == "cmp":
        return ("cmp", t[1], tuple(number_vars(x, tab) for x in t[2]))
    return tuple(t)


def keyof(t):
    return repr(t)


def uniq(ts):
    seen, out = set(), []
    for t in ts:
        if t not in seen:
            seen.add(t)
            out.append(t)
    return out


def compound(c, ts, degenerate=True, keep=False):
    """Normal form of a compound whose components are in normal form; `keep`: sets with nothing in common stay as they are."""
    ts = list(ts)
    if c in REDUCIBLE:
        flat = []
        for t in ts:
            if t[0] == "cmp" and t[1] == c:
                flat.extend(t[2])
            else:
                flat.append(t)
        ts = flat
    if c in COMMUTATIVE:
        ts = uniq(ts)
        if c in ("&", "|"):
            for b in SETS:
                sets = [t for t in ts if t[0] == "cmp" and t[1] == b]
                if len(sets) < 2:
                    continue
                meet = (c == "&") == (b == "{")
                if meet:
                    els = set(sets[0][2])
                    for s in sets[1:]:
                        els &= set(s[2])
                    if not els:
                        if keep:
                            continue
                        raise Unmodelled("empty intersection")
                else:
                    els = set()
                    for s in sets:
                        els |= set(s[2])
                ts = [t for t in ts if t not in sets] + [("cmp", b, tuple(sorted(els, key=keyof)))]
            if len(ts) == 1 and ts[0][0] == "cmp" and ts[0][1] in SETS:
                return ts[0]
        if len(ts) == 1 and c not in SETS and not degenerate:
            raise Unmodelled("one component left")
        ts.sort(key=keyof)
    return ("cmp", c, tuple(ts))


def normal(t, degenerate=True, keep=False):
    k = t[0]
    if k == "stm":
        s, p, c = normal(t[2], degenerate, keep), normal(t[3], degenerate, keep), t[1]
        if c in ("{--", "{-]"):
            s = compound("{", [s])
        if c in ("--]", "{-]"):
            p = compound("[", [p])
        if c in ("{--", "--]", "{-]"):
            c = "-->"
        return ("stm", c, s, p)
    if k == "cmp":
        return compound(t[1], [normal(x, degenerate, keep) for x in t[2]], degenerate, keep)
    return t


def denote(t, degenerate=True, tab=None, keep=False):
    return normal(number_vars(t, [{}, {}, {}] if tab is None else tab), degenerate, keep)


def from_dump(d):
    """The executor's dump of a term in the same form (components of commutative compounds sorted)."""
    k = d["k"]
    if k == "atom":
        return ("atom", d["n"])
    if k == "op":
        n = d["n"]
        return ("op", n[1:] if n.startswith("^") else n)
    if k == "int":
        return ("int", d["i"])
    if k == "var":
        return ("var", d["v"], d["i"])
    if k == "stm":
        return ("stm", d["c"], from_dump(d["s"]), from_dump(d["p"]))
    if k == "cmp":
        ts = [from_dump(x) for x in d["t"]]
        if d["c"] in COMMUTATIVE:
            ts.sort(key=keyof)
        return ("cmp", d["c"], tuple(ts))
    return ("?", repr(d))


def subterms(t):
    yield t
    if t[0] == "stm":
        yield from subterms(t[2])
        yield from subterms(t[3])
    elif t[0] in ("cmp", "call"):
        for x in t[2]:
            yield from subterms(x)


def size(t):
    return sum(1 for _ in subterms(t))


def depth(t):
    if t[0] == "stm":
        return 1 + max(depth(t[2]), depth(t[3]))
    if t[0] in ("cmp", "call"):
        return 1 + max([depth(x) for x in t[2]], default=0)
    return 1


def complexity(n):
    if n[0] == "stm":
        return 1 + complexity(n[2]) + complexity(n[3])
    if n[0] == "cmp":
        return sum(map(complexity, n[2]))
    return 1


def atoms(n):
    """Printed names of the atoms and operations of a normal form."""
    return {("^" if t[0] == "op" else "") + t[1] for t in subterms(n) if t[0] in ("atom", "op")}


CONFIG = dict(f=1.0, c=0.9, k=1.0, priority=0.8, durability=0.8, quality=0.5, c_judgement=0.9, c_goal=0.9,
              p_judgement=0.8, d_judgement=0.5, p_goal=0.9, d_goal=0.9, p_question=0.9, d_question=0.9, p_quest=0.9, d_quest=0.9, temporal_duration=5)


def expected_truth(l, cfg=CONFIG):
    if l["p"] in "?@":
        return None
    tr = l["truth"] or []
    c = cfg["c"]
    return [f32(tr[0]) if len(tr) > 0 else f32(cfg["f"]), f32(tr[1]) if len(tr) > 1 else f32(c), f32(tr[2]) if len(tr) > 2 else f32(cfg["k"])]


def expected_budget(l, cfg=CONFIG):
    b = l["budget"]
    if not b:
        return [f32(cfg["priority"]), f32(cfg["durability"]), f32(cfg["quality"])]
    name = {".": "judgement", "?": "question", "!": "goal", "@": "quest"}[l["p"]]
    r = [f32(b[0]) if len(b) > 0 else f32(cfg["p_" + name]), f32(b[1]) if len(b) > 1 else f32(cfg["d_" + name])]
    if len(b) > 2:
        r.append(f32(b[2]))
    elif l["p"] in "?@":
        r.append(1.0)
    else:
        t = expected_truth(l, cfg)
        e = t[1] * (t[0] - 0.5) + 0.5
        r.append(max(e, (1 - e) * 0.75))
    return r


def near(a, b, tol=3e-7):
    return a is not None and b is not None and math.isfinite(a) and abs(a - b) <= tol * max(1.0, abs(a), abs(b)) and (b == 0) == (a == 0) or a == b


def occurrence(l, now, dur=5):
    te = l["tense"]
    if te is None:
        return None
    if isinstance(te, int):
        return te
    return {"/": now + dur, "|": now, "\\": now - dur}[te]


def category(occ, now, dur=5):
    """0 future.. as written in the text: the tense shown for an occurrence."""
    if occ is None:
        return None
    if occ >= now + dur:
        return "/"
    if occ <= now - dur:
        return "\\"
    return "|"
