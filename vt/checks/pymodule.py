"""The Python module (C28, C29), driven inside an embedded Python in a sanitised process."""
import functools, json, math, os, struct
from .. import build, gen, grammar, lang
from ..client import q
from ..runner import Sub, Trivial
from . import language
from .language import compare_task
from .common import Check, need, model, valid_lines, shape
from .numbers import f32, unit, konst, conf


@functools.lru_cache(None)
def py_exec():
    os.environ["VT_PY_DRIVER"] = os.path.join(build.VERIF, "py", "driver.py")
    return {"py": build.executor("py", ["py_exec.cpp"], repo_sources=["Narsese.cpp"], python=True)}


def utf8(s):
    """The bytes of the text (one character per byte) as a Python string, or None."""
    try:
        return s.encode("latin-1").decode("utf-8")
    except UnicodeDecodeError:
        return None


def back(s):
    return s.encode("utf-8", "surrogateescape").decode("latin-1")


def fit(t):
    """Names as Python strings: only those that are UTF-8."""
    if t[0] in ("atom", "op"):
        return [t[0], t[1] if utf8(t[1]) is not None else "n"]
    if t[0] == "var":
        return ["var", t[1], t[2] if utf8(t[2]) is not None else "n"]
    if t[0] == "stm":
        return ["stm", t[1], fit(t[2]), fit(t[3])]
    if t[0] == "cmp":
        return ["cmp", t[1], [fit(x) for x in t[2]]]
    if t[0] == "call":
        return ["call", t[1] if utf8(t[1]) is not None else "n", [fit(x) for x in t[2]]]
    return t


def dump_of(d):
    """The driver's dump as the executor's (names one character per byte)."""
    return d


def ops_run(ctx, ops):
    r = ctx.run("py", [["py", q(json.dumps(ops))]])[0]
    need(len(r) == len(ops), "the driver stopped early")
    return r


def show_ops(ops):
    return json.dumps(ops)


def val(r, what):
    need("e" not in r, "%s raised %s: %s", what, r.get("e"), r.get("m"))
    return r["v"]


def nf(d):
    return lang.from_dump(d)


# ------------------------------------------------------------------ C28: lines
def g28(rng, tier):
    steps = []
    cfg = gen.Cfg(rng)
    for _ in range(rng.choice([1, 2, 4, 8])):
        r = rng.random()
        if r < 0.6:
            l = gen.line(rng, cfg if rng.random() < 0.6 else None)
            l["t"] = fit(l["t"])
            if utf8(lang.line_text(l)) is not None:
                steps.append(["ok", l, rng.choice(["parse", "parsekw", "parsebytes"])])
        else:
            c = language.g02(rng, tier)
            for s in (c or {"texts": []})["texts"][:2]:
                if utf8(s) is not None:
                    steps.append(["bad", s])
    return {"steps": steps} if steps else None


def v28(c):
    def ok(s):
        if not isinstance(s, list) or not s:
            return False
        if s[0] == "ok":
            return len(s) == 3 and s[2] in ("parse", "parsekw", "parsebytes") and lang.valid_line(s[1]) and utf8(lang.line_text(s[1])) is not None
        return s[0] == "bad" and len(s) == 2 and isinstance(s[1], str) and len(s[1]) < 200 and utf8(s[1]) is not None and not grammar.may_be_line(s[1])
    return isinstance(c.get("steps"), list) and all(ok(s) for s in c["steps"])


def c28(c, ctx):
    ops, at = [], []
    for i, s in enumerate(c["steps"]):
        at.append(len(ops))
        t = str(i)
        if s[0] == "bad":
            ops.append(["parse", "b" + t, utf8(s[1])])
            continue
        text = utf8(lang.line_text(s[1]))
        ops += [[s[2], "t" + t, text], ["get", "s" + t, "t" + t, "sentence"], ["get", "x" + t, "t" + t, "term"],
                ["repr", "t" + t], ["repr", "s" + t], ["repr", "x" + t], ["text", "t" + t], ["text", "s" + t], ["text", "x" + t],
                ["dump", "t" + t], ["sentence", "s" + t], ["dump", "x" + t], ["cpp", text]]
    n = len(ops)
    for i, s in enumerate(c["steps"]):
        if s[0] == "ok":
            ops += [["repr", "t%d" % i], ["repr", "s%d" % i], ["repr", "x%d" % i]]
    ops += [["parse", "z", "<robin --> bird>."], ["repr", "z"]]
    rs = ops_run(ctx, ops)
    labels = set()
    later = n
    for i, s in enumerate(c["steps"]):
        k = at[i]
        if s[0] == "bad":
            r = rs[k]
            need("e" in r, "parse(%r) returns although the line is not in the grammar", utf8(s[1]))
            need("RuntimeError" in r["b"] and "RecursionError" not in r["b"] and "NotImplementedError" not in r["b"], "parse(%r) raises %s instead of RuntimeError", utf8(s[1]), r["e"])
            labels.add("refused")
            continue
        l, text = s[1], lang.line_text(s[1])
        val(rs[k], "parse(%r)" % text)
        for j, what in ((1, "sentence"), (2, "term")):
            need(val(rs[k + j], "task.%s" % what) is True, "the task of %r has no %s", text, what)
        for j, what in ((0, "task"), (1, "sentence"), (2, "term")):
            rep, plain = val(rs[k + 3 + j], "repr of the %s of %r" % (what, text)), val(rs[k + 6 + j], "text")
            need(plain in rep, "the repr of the %s of %r is %r, which does not contain the text the interpreter prints, %r", what, text, rep, plain)
            need(val(rs[later + j], "a later repr") == rep, "the repr of the %s of %r changed from %r to %r after other lines", what, text, rep, rs[later + j].get("v"))
        later += 3
        d, sent, x, cpp = (val(rs[k + j], "reading") for j in (9, 10, 11, 12))
        need(cpp is not None, "Python parses %r but the C++ API does not", text)
        cd = cpp[0]
        need(nf(d["term"]) == nf(cd["term"]) and d["is"] == cd["is"] == l["p"] and d["truth"] == cd["truth"] and d["budget"] == cd["budget"], "Python reads %r as %r and C++ as %r", text, d, cd)
        need(bool(d["stamp"]) == bool(cd["stamp"]) and (not d["stamp"] or (d["stamp"]["eternal"], d["stamp"]["occ"]) == (cd["stamp"]["eternal"], cd["stamp"]["occ"])), "Python reads the tense of %r as %r and C++ as %r", text, d["stamp"], cd["stamp"])
        need(nf(x) == nf(d["term"]), "task.term of %r is %r", text, nf(x))
        need(nf(sent["term"]) == nf(d["term"]) and sent["punct"] == d["punct"] and sent["truth"] == d["truth"], "task.sentence of %r is %r", text, sent)
        try:
            compare_task(l, text, d)
        except Trivial:
            pass
        labels.add("parsed")
        labels |= shape(l["t"])
    need(val(rs[-1], "a probe") == "<Task: $0.80;0.80;0.50$ <robin --> bird>. %1.000;0.900%>" or "<robin --> bird>. " in rs[-1]["v"], "the probe line prints as %r", rs[-1])
    return labels


# ------------------------------------------------------------------ C28: lifetimes
def g28life(rng, tier):
    ls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        l = gen.line(rng, gen.Cfg(rng, variables=rng.random() < 0.5), tails=0.02)
        l["t"] = fit(l["t"])
        if utf8(lang.line_text(l)) is not None:
            ls.append(l)
    if not ls:
        return None
    acts = []
    for _ in range(rng.choice([5, 15, 40, 100])):
        r = rng.random()
        a = rng.randrange(1000)
        if r < 0.12:
            acts.append(["parse", a])
        elif r < 0.3:
            acts.append(["terms", a])
        elif r < 0.55:
            acts.append(["next", a])
        elif r < 0.62:
            acts.append([rng.choice(["subject", "predicate"]), a])
        elif r < 0.68:
            acts.append(["term", a])
        elif r < 0.72:
            acts.append(["sentence", a])
        elif r < 0.94:
            acts.append(["del", a])
        elif r < 0.97:
            acts.append(["gc", a])
        else:
            acts.append(["bad", a])
    return {"lines": ls, "acts": acts}


def v28life(c):
    return valid_lines(c) and c["lines"] and all(utf8(lang.line_text(l)) is not None for l in c["lines"]) and isinstance(c.get("acts"), list) and \
        all(isinstance(a, list) and len(a) == 2 and a[0] in ("parse", "terms", "next", "subject", "predicate", "term", "sentence", "del", "gc", "bad") and isinstance(a[1], int) for a in c["acts"])


def c28life(c, ctx):
    """The history is played twice: the first run learns the shape of the terms (by what the objects
    turn out to be), every object's repr is taken when it appears and again before it is released."""
    texts = [utf8(lang.line_text(l)) for l in c["lines"]]
    ops, expect = [], []
    live, n = [], 0          # slots and their kinds
    def add(kind, op_of, parent=None):
        nonlocal n
        s = "o%d" % n
        n += 1
        ops.append(op_of(s))
        expect.append(["make", s, kind, parent])
        if kind != "iter":
            ops.append(["repr", s])
            expect.append(["first", s])
            ops.append(["dump" if kind != "sentence" else "sentence", s])
            expect.append(["dump", s])
        live.append((s, kind))
        return s
    for i, t in enumerate(texts):
        add("task", lambda s, t=t: ["parse", s, t])
    for what, a in c["acts"]:
        if what == "parse":
            t = texts[a % len(texts)]
            add("task", lambda s: ["parse", s, t])
            continue
        if what == "gc":
            ops.append(["gc"])
            expect.append(None)
            continue
        if what == "bad":
            ops.append(["parse", "bad", texts[a % len(texts)] + " )"])
            expect.append(["bad"])
            continue
        kinds = {"terms": ("term",), "next": ("iter",), "subject": ("term",), "predicate": ("term",), "term": ("task",), "sentence": ("task",), "del": ("task", "term", "sentence", "iter")}[what]
        pool = [x for x in live if x[1] in kinds]
        if not pool:
            continue
        # mostly recent objects, so that chains of components get long
        s, k = pool[-1 - (a % len(pool) if a % 3 else a % min(len(pool), 2))]
        if what == "del":
            if k != "iter":
                ops.append(["repr", s])
                expect.append(["last", s])
            ops.append(["del", s])
            expect.append(None)
            live.remove((s, k))
        elif what == "next":
            add("term", lambda x: ["next", x, s], s)
        elif what == "terms":
            add("iter", lambda x: ["get", x, s, "terms"], s)
        else:
            add("sentence" if what == "sentence" else "term", lambda x: ["get", x, s, what], (s, what))
    for s, k in live:
        if k != "iter":
            ops += [["repr", s], ["dump" if k != "sentence" else "sentence", s]]
            expect += [["last", s], ["dump2", s]]
    rs = ops_run(ctx, ops)
    first, dumps, given, owner = {}, {}, {}, {}
    missing = set()
    made = 0
    for op, e, r in zip(ops, expect, rs):
        if e is None:
            continue
        if e[0] == "bad":
            need("RuntimeError" in r.get("b", []), "parsing %r gives %r instead of RuntimeError", op[2], r)
            continue
        s = e[1]
        if e[0] == "make":
            src = op[2] if op[0] in ("get", "next") else None
            if src in missing:
                missing.add(s)
                continue
            v = val(r, " ".join(map(str, op)))
            if v is not True:
                missing.add(s)
                if op[0] == "get" and op[3] == "terms":
                    need(dumps[src]["k"] not in ("stm", "cmp"), "terms is None for %r", dumps[src])
                elif op[0] == "get" and op[3] in ("subject", "predicate"):
                    need(dumps[src]["k"] != "stm", "%s is None for %r", op[3], dumps[src])
                elif op[0] == "get":
                    need(False, "%s is None", op[3])
                else:
                    d = dumps[owner[src]]
                    want = 2 if d["k"] == "stm" else len(d["t"])
                    need(len(given[src]) == want, "iterating the terms of %r gave %d of %d components", d, len(given[src]), want)
                continue
            made += 1
            if op[0] == "get" and op[3] == "terms":
                given[s] = []
                owner[s] = src
            elif op[0] == "next":
                given[src].append(s)
            continue
        if s in missing:
            continue
        v = val(r, " ".join(map(str, op)))
        if e[0] == "first":
            first[s] = v
        elif e[0] == "last":
            need(v == first[s], "the repr of an object changed from %r to %r while it was held", first[s], v)
        elif e[0] == "dump":
            dumps[s] = v
        elif e[0] == "dump2":
            need(v == dumps[s], "an object changed from %r to %r while it was held", dumps[s], v)
    # what was obtained belongs to what it was obtained from
    for op, e in zip(ops, expect):
        if e and e[0] == "make" and e[1] not in missing and op[0] == "get" and op[3] != "terms":
            d, p = dumps[e[1]], dumps[op[2]]
            if op[3] == "subject":
                need(nf(d) == nf(p["s"]), "subject of %r is %r", p, d)
            elif op[3] == "predicate":
                need(nf(d) == nf(p["p"]), "predicate of %r is %r", p, d)
            elif op[3] == "term":
                need(nf(d) == nf(p["term"]), "the term of task %r is %r", p, d)
            else:
                need(nf(d["term"]) == nf(p["term"]) and d["punct"] == p["punct"] and d["truth"] == p["truth"], "the sentence of task %r is %r", p, d)
    for it, got in given.items():
        d = dumps[owner[it]]
        want = [d["s"], d["p"]] if d["k"] == "stm" else d["t"]
        need(len(got) <= len(want) and [nf(dumps[s]) for s in got] == [nf(x) for x in want][:len(got)], "iterating the terms of %r gives %r", d, [nf(dumps[s]) for s in got])
    return ["objects<=5" if made <= 5 else "objects<=20" if made <= 20 else "objects>20"] + (["partly consumed"] if any(given.values()) else [])


class C28(Check):
    id = "C28"
    rule = "histories of grammatical lines (all notations, passed as str, keyword and bytes) and refused lines through narsese.parse, compared with the C++ parse of the same line and the interpreter's text; and random orders of obtaining, iterating and releasing tasks, sentences, terms and components under AddressSanitizer; non-trivial: distinct histories"

    def executors(self):
        return py_exec()

    def subs(self):
        return [Sub("lines", g28, c28, v28, 3500), Sub("lifetimes", g28life, c28life, v28life, 3500)]


# ------------------------------------------------------------------ C29
CONNECTOR = {"&&": "Conjunction", "||": "Disjunction", "*": "Product", "&|": "ParallelEvents", "&/": "SequentialEvents", "|": "IntensionalIntersection",
             "&": "ExtensionalIntersection", "-": "ExtensionalDifference", "~": "IntensionalDifference", "--": "Negation", "[": "IntensionalSet",
             "{": "ExtensionalSet", "\\": "IntensionalImage", "/": "ExtensionalImage"}
COPULA = {"-->": "Inheritance", "<->": "Similarity", "==>": "Implication", "=/>": "PredictiveImplication", "=|>": "ConcurrentImplication",
          "=\\>": "RetrospectiveImplication", "<=>": "Equivalence", "</>": "PredictiveEquivalence", "<|>": "ConcurrentEquivalence"}
PUNCT = {".": "Judgement", "?": "Question", "!": "Goal", "@": "Quest"}


def buildable(t):
    if t[0] == "atom":
        return utf8(t[1]) is not None and "\x00" not in t[1]
    if t[0] == "stm":
        return t[1] in COPULA and buildable(t[2]) and buildable(t[3])
    return t[0] == "cmp" and t[1] in CONNECTOR and all(buildable(x) for x in t[2])


def g29(rng, tier):
    items = []
    cfg = gen.Cfg(rng, variables=False, ops=False, intervals=False, calls=False, abbrev=False)
    for _ in range(rng.choice([1, 2, 4])):
        t = fit(gen.term(rng, cfg, tails=0.02))
        if buildable(t):
            items.append(t)
    return {"ts": items, "order": rng.choice(["build first", "parse first", "parse and release"]), "share": rng.random() < 0.5, "style": gen.style(rng, 40), "drop": rng.random() < 0.5} if items else None


def v29(c):
    return isinstance(c.get("ts"), list) and all(isinstance(t, list) and lang.valid_line({"t": t, "p": ".", "tense": None, "truth": None, "budget": None, "st": []}) and buildable(t) for t in c["ts"]) \
        and c.get("order") in ("build first", "parse first", "parse and release") and isinstance(c.get("style"), list)


def c29(c, ctx):
    ops, marks = [], []
    memo = {}
    n = 0

    def build_term(t):
        nonlocal n
        key = json.dumps(t)
        if c["share"] and key in memo:
            return memo[key]
        if t[0] == "atom":
            s = "n%d" % n
            n += 1
            ops.append(["word", s, utf8(t[1])])
        elif t[0] == "stm":
            a, b = build_term(t[2]), build_term(t[3])
            s = "n%d" % n
            n += 1
            ops.append(["stm", s, a, COPULA[t[1]], b])
            if c["drop"] and not c["share"]:
                ops.extend([["del", a], ["del", b]])
        else:
            xs = [build_term(x) for x in t[2]]
            s = "n%d" % n
            n += 1
            ops.append(["cmp", s, CONNECTOR[t[1]], xs])
            if c["drop"] and not c["share"]:
                ops.extend(["del", x] for x in set(xs))
        memo[key] = s
        return s

    for i, t in enumerate(c["ts"]):
        text = utf8(lang.line_text({"t": t, "p": ".", "tense": None, "truth": None, "budget": None, "st": c["style"]}))
        parse = [["parse", "t%d" % i, text], ["get", "p%d" % i, "t%d" % i, "term"]]
        if c["order"] != "build first":
            ops += parse
            if c["order"] == "parse and release":
                ops += [["del", "t%d" % i], ["del", "p%d" % i]]
        s = build_term(t)
        if c["order"] != "parse first":
            ops += parse
        m = len(ops)
        p = "p%d" % i
        ops += [["repr", s], ["repr", p], ["dump", s], ["dump", p], ["equal", s, p], ["enum", s, "copula"], ["enum", p, "copula"],
                ["get", "ss", s, "subject"], ["get", "sp", s, "predicate"], ["get", "ps", p, "subject"], ["get", "pp", p, "predicate"],
                ["get", "si", s, "terms"], ["get", "pi", p, "terms"], ["type", s], ["equal", "ss", "ps"], ["equal", "sp", "pp"]]
        marks.append((m, t, text, s, p))
    rs = ops_run(ctx, ops)
    ends = [m for m, *_ in marks]
    for op, r in zip(ops, rs):
        if op[0] in ("word", "stm", "cmp", "parse", "parse", "repr", "dump", "del"):
            val(r, json.dumps(op))
    labels = set()
    for m, t, text, s, p in marks:
        v = [r.get("v") for r in rs[m:m + 16]]
        need(v[0] == v[1], "built term prints as %r, the term parsed from %r as %r", v[0], text, v[1])
        need(v[2] == v[3], "built term is %r, the term parsed from %r is %r", v[2], text, v[3])
        need(v[4] == [True, True, True], "built term and the term parsed from %r: ==, == the other way, same hash are %r", text, v[4])
        need(v[5] == v[6], "copula of the built term is %r, of the parsed %r", v[5], v[6])
        for a, b, w in ((7, 9, "subject"), (8, 10, "predicate"), (11, 12, "terms")):
            need(v[a] == v[b] and v[a] is not None, "%s of the built term: %r, of the parsed: %r", w, rs[m + a], rs[m + b])
        d = v[2]
        try:
            want = lang.denote(t)
            need(nf(d) == want, "the term built for %r is %r instead of %r", text, nf(d), want)
        except lang.Unmodelled:
            pass
        if d["k"] == "stm":
            need(v[5] and v[5][1] == COPULA[d["c"]] and v[5][3], "copula of %r is given as %r", text, v[5])
            need(v[7] and v[8] and v[14] == [True] * 3 and v[15] == [True] * 3, "subject and predicate of %r differ: %r %r", text, rs[m + 14], rs[m + 15])
        else:
            need(v[5] is None and v[7] is False and v[8] is False, "%r is no statement but has a copula, subject or predicate", text)
        need(v[11] == (d["k"] in ("stm", "cmp")), "%r: terms is %r", text, v[11])
        labels |= shape(t)
    return labels


# components one by one: the built and the parsed term give the same sequence
def c29iter(c, ctx):
    t = c["t"]
    text = utf8(lang.line_text({"t": t, "p": ".", "tense": None, "truth": None, "budget": None, "st": []}))
    ops = [["parse", "t", text], ["get", "p", "t", "term"]]
    k = len(t[2]) if t[0] == "cmp" else 2
    xs = []
    for i, x in enumerate(t[2] if t[0] == "cmp" else t[2:]):
        if x[0] == "var":   # no sentence by itself
            ops += [["parse", "u", utf8(lang.line_text({"t": ["stm", "-->", x, ["atom", "w"]], "p": ".", "tense": None, "truth": None, "budget": None, "st": []}))], ["get", "u", "u", "term"], ["get", "x%d" % i, "u", "subject"]]
        else:
            ops += [["parse", "u", utf8(lang.line_text({"t": x, "p": ".", "tense": None, "truth": None, "budget": None, "st": []}))], ["get", "x%d" % i, "u", "term"]]
        xs.append("x%d" % i)
    if t[0] == "cmp":
        ops.append(["cmp", "s", CONNECTOR[t[1]], xs])
    else:
        ops.append(["stm", "s", xs[0], COPULA[t[1]], xs[1]])
    m = len(ops)
    ops += [["equal", "s", "p"], ["repr", "s"], ["repr", "p"], ["dump", "s"], ["get", "si", "s", "terms"], ["get", "pi", "p", "terms"]]
    lim = k + 40 if t[0] == "cmp" else 3
    j = len(ops)
    for i in range(lim):
        ops += [["next", "a%d" % i, "si"], ["next", "b%d" % i, "pi"], ["equal", "a%d" % i, "b%d" % i]]
    rs = ops_run(ctx, ops)
    for op, r in zip(ops[:m], rs):
        val(r, json.dumps(op))
    need(val(rs[m], "comparing") == [True] * 3, "the term built from parsed components and the term parsed from %r differ: %r", text, rs[m])
    need(rs[m + 1] == rs[m + 2], "built: %r, parsed: %r", rs[m + 1], rs[m + 2])
    d = rs[m + 3]["v"]
    if d["k"] not in ("stm", "cmp"):
        return None
    want = 2 if d["k"] == "stm" else len(d["t"])
    for i in range(lim):
        a, b, e = rs[j + 3 * i:j + 3 * i + 3]
        there = i < want
        if not there:
            need(a.get("v") is False and b.get("v") is False, "%r: a component number %d of %d: %r %r", text, i + 1, want, a, b)
            break
        need(val(a, "next") is True and val(b, "next") is True, "%r: no component number %d", text, i + 1)
        need(val(e, "comparing") == [True] * 3, "%r: component %d differs", text, i + 1)
    return ["components<=4" if want <= 4 else "components>4", d["c"]]


def g29iter(rng, tier):
    variables = rng.random() < 0.5
    cfg = gen.Cfg(rng, variables=variables, intervals=False, calls=False, abbrev=False)
    for _ in range(20):
        t = fit(gen.term(rng, cfg, tails=0.02))
        if variables:
            t = onevar(t)
        if v29iter({"t": t}):
            return {"t": t}
    return None


def onevar(t):
    """One variable of each kind, which has the same number in every part and in the whole."""
    if t[0] == "var":
        return ["var", t[1], "v%d" % t[1]]
    if t[0] == "stm":
        return ["stm", t[1], onevar(t[2]), onevar(t[3])]
    if t[0] in ("cmp", "call"):
        return [t[0], t[1], [onevar(x) for x in t[2]]]
    return t


def has_ops(t):
    return any(x[0] in ("op", "call") for x in lang.subterms(t))


def v29iter(c):
    t = c.get("t")
    try:
        return isinstance(t, list) and lang.valid_line({"t": t, "p": ".", "tense": None, "truth": None, "budget": None, "st": []}) and \
            all(x[2] == "v%d" % x[1] for x in lang.subterms(t) if x[0] == "var") and \
            (t[0] == "cmp" and t[1] in CONNECTOR or t[0] == "stm" and t[1] in COPULA) and utf8(lang.line_text({"t": t, "p": ".", "tense": None, "truth": None, "budget": None, "st": []})) is not None
    except Exception:
        return False


# ---- objects that hold numbers
def dec(s, lo, hi):
    return lo - 1e-9 <= s <= hi + 1e-9


def g29num(rng, tier):
    acts = []
    for _ in range(rng.choice([1, 3, 8])):
        acts.append([rng.choice(["f", "c", "k", "p", "d", "q"]), konst(rng) if rng.random() < 0.2 else unit(rng)])
    return {"truth": [unit(rng), conf(rng), konst(rng)], "defk": rng.random() < 0.3, "kw": rng.random() < 0.4,
            "budget": [unit(rng), unit(rng), unit(rng)][:rng.choice([0, 1, 2, 3, 3])], "acts": acts,
            "sent": [fit(gen.Cfg(rng, variables=False, ops=False, intervals=False, calls=False, abbrev=False).term(rng.choice([2, 4, 8]))), rng.choice(".?!@"), rng.random() < 0.6]}


def v29num(c):
    def u(x):
        return isinstance(x, (int, float)) and not isinstance(x, bool) and 0 <= x <= 2000 and f32(x) == x
    try:
        return len(c["truth"]) == 3 and all(u(x) for x in c["truth"]) and c["truth"][2] > 0 and len(c["budget"]) <= 3 and all(u(x) and x <= 1 for x in c["budget"]) and \
            all(a[0] in "fckpdq" and len(a[0]) == 1 and u(a[1]) for a in c["acts"]) and c["sent"][1] in ".?!@" and len(c["sent"]) == 3 and v29({"ts": [c["sent"][0]], "order": "parse first", "style": []})
    except Exception:
        return False


def c29num(c, ctx):
    tr, bu = list(c["truth"]), list(c["budget"])
    if c["defk"]:
        tr[2] = 1.0
    given = tr[:2] if c["defk"] else tr
    ops = [["truth", "t", [], dict(zip("fck", map(repr, given)))] if c["kw"] else ["truth", "t", list(map(repr, given)), {}],
           ["budget", "b", [], dict(zip("pdq", map(repr, bu)))] if c["kw"] else ["budget", "b", list(map(repr, bu)), {}]]
    now = dict(f=tr[0], c=tr[1], k=tr[2])
    now.update(zip("pdq", bu + [None] * 3))  # what an omitted number becomes is not part of the property
    read = [["num", "t", x] for x in "fcke"] + [["num", "b", x] for x in "pdq"] + [["repr", "t"], ["repr", "b"], ["quality", "t"]]
    ops += read
    states = [dict(now)]
    for a, x in c["acts"]:
        ops.append(["set", "t" if a in "fck" else "b", a, repr(x)])
        now[a] = x
        states.append(dict(now))
        ops += read
    rs = ops_run(ctx, ops)
    for op, r in zip(ops, rs):
        val(r, json.dumps(op))
    k = 2
    for st in states:
        v = [r["v"] for r in rs[k:k + 10]]
        for i, x in enumerate("fck"):
            need(float(v[i]) == st[x], "Truth.%s is %s after %r was stored", x, v[i], st[x])
        for i, x in enumerate("pdq"):
            need(0 <= float(v[4 + i]) <= 1 if st[x] is None else abs(float(v[4 + i]) - st[x]) <= 6e-8 * max(1, abs(st[x])), "Budget.%s is %s after %r was stored", x, v[4 + i], st[x])
        e = st["c"] * (st["f"] - 0.5) + 0.5
        need(abs(float(v[3]) - e) <= 1e-6 * max(1, abs(e), abs(st["c"] * st["f"])), "Truth.e is %s, expected %r for %r", v[3], e, st)
        if 0 <= st["f"] <= 1 and 0 <= st["c"] <= 1:
            need(abs(float(v[9]) - max(e, (1 - e) * 0.75)) <= 1e-6, "Budget.quality_from_truth gives %s for %r", v[9], st)
        import re
        nums = re.findall(r"-?\d+(?:\.\d+)?(?:e[-+]?\d+)?", v[7])
        need(len(nums) >= 3 and abs(float(nums[0]) - st["f"]) <= 0.0051 and abs(float(nums[1]) - st["c"]) <= 0.0051 and abs(float(nums[2]) - st["k"]) <= 0.0051 * max(1, st["k"]), "the repr %r of a truth value with %r", v[7], st)
        nums = re.findall(r"-?\d+(?:\.\d+)?(?:e[-+]?\d+)?", v[8])
        need(len(nums) >= 3 and all(st[x] is None or abs(float(n) - st[x]) <= 0.0051 for n, x in zip(nums, "pdq")), "the repr %r of a budget with %r", v[8], st)
        k += 11
    # a sentence
    t, p, with_truth = c["sent"]
    text = utf8(lang.line_text({"t": t, "p": p, "tense": None, "truth": None, "budget": None, "st": []}))
    if not 0 < now["c"] < 0.999 or not 0 <= now["f"] <= 1:
        with_truth = False
    ops = [["truth", "t", list(map(repr, (now["f"], now["c"], now["k"]))), {}], ["parse", "k", text], ["get", "x", "k", "term"], ["dump", "x"], ["text", "x"],
           ["mksent", "s", "x", PUNCT[p], "t" if with_truth else None], ["sentence", "s"], ["repr", "s"], ["text", "s"], ["del", "t"], ["del", "x"], ["del", "k"], ["gc"], ["repr", "s"], ["sentence", "s"]]
    rs = ops_run(ctx, ops)
    v = [val(r, json.dumps(op)) for op, r in zip(ops, rs)]
    d = v[6]
    need(nf(d["term"]) == nf(v[3]), "the sentence built over %r holds %r", text, nf(d["term"]))
    need(d["punct"] == ".?!@".index(p) if d["punct"] is not None else False, "the sentence built with %s is of type %r", PUNCT[p], d["punct"])
    if with_truth:
        need(d["truth"] == [now["f"], now["c"], now["k"]], "the sentence built with truth %r holds %r", now, d["truth"])
    elif p in ".!":
        need(d["truth"] is not None and all(abs(a - b) < 1e-6 for a, b in zip(d["truth"], (1.0, 0.9, 1.0))), "the sentence built without truth holds %r", d["truth"])
    else:
        need(d["truth"] is None, "the question built without truth holds %r", d["truth"])
    need(v[4] + p in v[7] and v[8] in v[7], "the repr of the sentence is %r and its text %r, of its term %r", v[7], v[8], v[4])
    need(v[13] == v[7] and v[14] == d, "the sentence changed after its parts were released: %r %r", v[13], v[14])
    return ["sentence " + p, "set" if c["acts"] else "constructed"]


# ---- enumerations and unnamed terms
def g29enum(rng, tier):
    k = rng.choice(["connector", "copula", "punct", "unnamed"])
    names = [gen.name(rng) for _ in range(3)]
    names = [n if utf8(n) is not None and "\x00" not in n else "n" for n in names]
    if k == "connector":
        s = rng.choice(sorted(CONNECTOR))
        n = {"--": 1, "-": 2, "~": 2}.get(s, rng.choice([1, 2, 3]) if s in ("{", "[") else rng.choice([2, 3]))
        return {"k": k, "s": s, "n": names[:n]}
    if k == "copula":
        return {"k": k, "s": rng.choice(sorted(COPULA)), "n": names[:2]}
    return {"k": k, "s": rng.choice(".?!@"), "n": names[:1]}


def v29enum(c):
    try:
        if c["k"] not in ("connector", "copula", "punct", "unnamed") or not all(lang.valid_name(n) and utf8(n) is not None for n in c["n"]):
            return False
        n = len(c["n"])
        if c["k"] == "connector":
            return c["s"] in CONNECTOR and (n == 1 if c["s"] == "--" else n == 2 if c["s"] in "-~" else n >= 1 if c["s"] in "{[" else n >= 2)
        if c["k"] == "copula":
            return c["s"] in COPULA and n == 2
        return c["s"] in (".", "?", "!", "@") and n == 1
    except Exception:
        return False


ALL_COPULAS = {"Inheritance": "-->", "Similarity": "<->", "Instance": "{--", "Property": "--]", "InstanceProperty": "{-]", "Implication": "==>", "PredictiveImplication": "=/>",
               "ConcurrentImplication": "=|>", "RetrospectiveImplication": "=\\>", "Equivalence": "<=>", "PredictiveEquivalence": "</>", "ConcurrentEquivalence": "<|>"}


def c29enum(c, ctx):
    ops = [["word", "n%d" % i, utf8(n)] for i, n in enumerate(c["n"])]
    xs = ["n%d" % i for i in range(len(c["n"]))]
    m = len(ops)
    if c["k"] == "connector":
        ops += [["cmp", "s", CONNECTOR[c["s"]], xs], ["dump", "s"], ["members", "Connector"]]
    elif c["k"] == "copula":
        ops += [["stm", "s", xs[0], COPULA[c["s"]], xs[1]], ["enum", "s", "copula"], ["members", "Copula"], ["repr", "s"]]
    elif c["k"] == "punct":
        ops += [["mksent", "s", "n0", PUNCT[c["s"]], None], ["repr", "s"], ["members", "Punctuation"]]
    else:
        ops += [["unnamed", "u"], ["unnamed", "w"], ["repr", "u"], ["repr", "u"], ["equal", "u", "w"], ["equal", "u", "u"], ["equal", "u", "n0"], ["stm", "s", "u", "Inheritance", "n0"], ["stm", "s2", "u", "Inheritance", "n0"],
                ["equal", "s", "s2"], ["del", "u"], ["repr", "s"], ["cmp", "c", "ExtensionalSet", ["w", "n0", "w"]], ["dump", "c"]]
    rs = ops_run(ctx, ops)
    v = [val(r, json.dumps(op)) for op, r in zip(ops, rs)][m:]
    if c["k"] == "connector":
        d = v[1]
        if d["k"] == "cmp":
            need(d["c"] == c["s"], "Compound(%s, ...) is a %r compound", CONNECTOR[c["s"]], d["c"])
        doc, names = v[2][0], [n for n, _ in v[2][1]]
        for sym, n in list(CONNECTOR.items()) + [("#", "List")]:
            need(n in names and "%s : %s" % (n, sym) in doc, "Connector.%s is not documented as %s", n, sym)
        need(len({x for _, x in v[2][1]}) == len(names), "two members of Connector have the same value")
    elif c["k"] == "copula":
        need(v[1] and v[1][1] == COPULA[c["s"]] and v[1][3], "the copula of a statement built with %s is %r", COPULA[c["s"]], v[1])
        need(" %s " % c["s"] in v[3], "a statement built with Copula.%s prints as %r", COPULA[c["s"]], v[3])
        doc, names = v[2][0], [n for n, _ in v[2][1]]
        for n, sym in ALL_COPULAS.items():
            need(n in names and "%s : %s" % (n, sym) in doc, "Copula.%s is not documented as %s", n, sym)
        need(len({x for _, x in v[2][1]}) == len(names), "two members of Copula have the same value")
    elif c["k"] == "punct":
        need((utf8(c["n"][0]) + c["s"]) in v[1], "a sentence built with Punctuation.%s prints as %r", PUNCT[c["s"]], v[1])
        doc, names = v[2][0], [n for n, _ in v[2][1]]
        for sym, n in PUNCT.items():
            need(n in names and "%s : %s" % (n, sym) in doc, "Punctuation.%s is not documented as %s", n, sym)
    else:
        need(v[2] == v[3], "an unnamed term prints as %r and then as %r", v[2], v[3])
        need(v[4][:2] == [False, False], "two unnamed terms are equal")
        need(v[5] == [True] * 3, "an unnamed term differs from itself")
        need(v[6][:2] == [False, False], "an unnamed term equals a named one")
        need(v[9] == [True] * 3, "statements over the same unnamed term differ")
        need(v[13]["k"] == "cmp" and v[13]["n"] == 2, "a set of an unnamed term, a named one and the unnamed one again has %r components", v[13].get("n"))
    return [c["k"], c["s"] if c["k"] != "unnamed" else "unnamed"]


class C29(Check):
    id = "C29"
    rule = "variable-free terms over all connectors and copulas built bottom-up with the Python constructors (sharing, releasing and ordering varied) against the term parsed from their text; terms assembled from parsed components; Truth, Budget and Sentence objects with random numbers against the stored values; enumeration members against the symbols they document; non-trivial: distinct cases"

    def executors(self):
        return py_exec()

    def subs(self):
        return [Sub("terms", g29, c29, v29, 3500), Sub("assembled", g29iter, c29iter, v29iter, 2000), Sub("numbers", g29num, c29num, v29num, 1200), Sub("enums", g29enum, c29enum, v29enum, 400)]


CHECKS = [C28(), C29()]
