"""C01-C06, C15, C19, C20, C26: what lines denote."""
import math, re
from .common import *
from .. import grammar


# ------------------------------------------------------------------ C01
def g01(rng, tier):
    return {"lines": gen.lines(rng, rng.choice([1, 3, 6, 8])), "slots": rng.choice([0, 0, 1])}


def c01(c, ctx):
    texts = [lang.line_text(l) for l in c["lines"]]
    cmds = [["parse", "p" if c["slots"] else 0, "t", q(t)] for t in texts]
    if not cmds:
        raise Trivial()
    labels = set()
    for r, t, l in zip(ctx.run("term", cmds), texts, c["lines"]):
        must_parse(r, t)
        labels |= shape(l["t"])
    return labels


class C01(Check):
    id = "C01"
    rule = "random derivations of the grammar (abstract sentence, then a random admissible notation and blanks for every construct); non-trivial: every distinct list of lines, all of which must be accepted"

    def subs(self):
        from . import robust
        return [Sub("derivations", g01, c01, valid_lines, 14000), Sub("forms", g01f, c01, valid_lines, 3000), Sub("large", robust.g_valid_large, robust.c_large, robust.v_large, 400)]


def g01f(rng, tier):
    """One construct at a time, in every notation, directly below each kind of parent."""
    def small(d):
        cfg = gen.Cfg(rng)
        cfg.pv = 0.3
        cfg.po = cfg.pi = 0.15
        return cfg.term(rng.choice([1, 1, 2, 3, 4]) if d else 1)
    ls = []
    for _ in range(8):
        k = rng.choice(["stm", "multi", "single", "set", "img", "neg", "call", "prod"])
        def mk(k, inner):
            o = lambda: inner() if inner else small(0)
            if k == "stm":
                return ["stm", rng.choice(lang.COPULAS), o(), o()]
            if k == "multi":
                return ["cmp", rng.choice(lang.MULTI), [o() for _ in range(rng.choice([2, 2, 3]))]]
            if k == "single":
                return ["cmp", rng.choice(lang.SINGLE), [o(), o()]]
            if k == "set":
                return ["cmp", rng.choice(lang.SETS), [o() for _ in range(rng.choice([1, 2, 3]))]]
            if k == "img":
                return ["cmp", rng.choice(lang.IMAGES), [o() for _ in range(rng.choice([1, 2, 3]))]]
            if k == "neg":
                return ["cmp", "--", [o()]]
            if k == "prod":
                return ["cmp", "*", [o() for _ in range(rng.choice([1, 2, 3]))]]
            return ["call", rng.choice(["go", "a", '"x y"', "5"]), [o() for _ in range(rng.choice([0, 1, 2]))]]
        ks = ["stm", "multi", "single", "set", "img", "neg", "call", "prod"]
        t = mk(k, lambda: mk(rng.choice(ks), None) if rng.random() < 0.6 else small(1))
        p = rng.choice(".?!@")
        ls.append({"t": t, "p": p, "tense": gen.tense(rng), "truth": gen.truth(rng) if p in ".!" else None, "budget": gen.budget(rng), "st": gen.style(rng, 30)})
    return {"lines": ls, "slots": 0}


# ------------------------------------------------------------------ C02
MUT_CH = "ab01 .,;:()<>{}[]-+*/\\|&~=!?@#$%^\"_\xe9"
MUT_TOK = lang.OPS + ["a", "b", "x", "0.5", "1", "0", "0.9", "-1", '"q r"', " "]


def mutate_chars(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < 0.3:
            s = s[:i] + s[i + 1:]
        elif r < 0.6:
            s = s[:i] + rng.choice(MUT_CH) + s[i:]
        elif r < 0.75:
            s = s[:i] + rng.choice(MUT_CH) + s[i + 1:]
        elif r < 0.83:
            s = s[:i]
        elif r < 0.88:
            s = s[i:]
        elif r < 0.94 and len(s) > 1:
            j = rng.randrange(len(s))
            a, b = min(i, j), max(i, j)
            s = s[:a] + s[b:]
        else:
            j = rng.randrange(len(s) + 1)
            a, b = min(i, j), max(i, j)
            s = s[:b] + s[a:b][:30] + s[b:]
    return s


def mutate_tokens(rng, toks):
    toks = [t[1] for t in toks]
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(toks) + 1)
        r = rng.random()
        if r < 0.3:
            toks = toks[:i] + toks[i + 1:]
        elif r < 0.5:
            toks = toks[:i] + [rng.choice(MUT_TOK)] + toks[i:]
        elif r < 0.7:
            toks = toks[:i] + [rng.choice(MUT_TOK)] + toks[i + 1:]
        elif r < 0.8 and len(toks) > 1:
            i = rng.randrange(len(toks) - 1)
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        elif r < 0.87:
            toks = toks[:i] + toks[max(0, i - rng.randint(1, 3)):]
        elif r < 0.92:
            toks = toks[:i]
        else:
            toks = toks + [rng.choice(MUT_TOK)]
    return " ".join(toks) if rng.random() < 0.7 else "".join(toks)


def bad_numbers(rng):
    """Lines whose only fault is a number outside the range the grammar gives it."""
    t = "a"
    bu = rng.choice(["1.1", "2", "-0.1", "00.5", "0.", "1.01", "10", "x", "5", "0.5.5", "+0.5", "1e-1", ""])
    bo = rng.choice(["0", "1", "1.0", "0.0", "0.", "1.", "-0.5", "2", "00.5", ".0", "x", ""])
    gu, go = rng.choice(["0.5", "1", "0", ".3"]), rng.choice(["0.5", ".9"])
    bk = rng.choice(["0", "01", "-1", "1.5", "0.5", ""])
    return rng.choice(["%s. %%%s%%" % (t, bu), "%s. %%%s;%s%%" % (t, gu, bo), "%s! %%%s;%s%%" % (t, bu, go), "%s. %%%s;%s;%s%%" % (t, gu, go, bk), "%s. %%%s;%s;1;1%%" % (t, gu, go),
                       "$%s$ %s." % (bu, t), "$%s;%s$ %s?" % (gu, bo, t), "$%s;%s;%s$ %s@" % (gu, go, bu, t), "$%s;%s;%s;0.5$ %s." % (gu, go, gu, t),
                       "%s? %%%s;%s%%" % (t, gu, go), "%s@ %%%s%%" % (t, gu), "%s. %%%s %% :|:" % (t, gu), "%s. :|: :|:" % t, "%s. %%%s;%s%% %%%s%%" % (t, gu, go, gu), "%s. :!%s:" % (t, rng.choice(["x", "", "1.5", "+3", "--3", "3-"]))])


def arity(rng):
    """Compounds with a number of components the grammar does not allow."""
    cfg = gen.Cfg(rng)
    o = lambda: lang.conventional(_toks(cfg.term(rng.choice([1, 1, 2, 4]))))
    m = rng.choice(lang.MULTI)
    s = rng.choice(lang.SINGLE)
    i = rng.choice(lang.IMAGES)
    t = rng.choice(["(%s, %s)" % (m, o()), "(%s)" % m, "(%s,)" % m, "(%s, %s)" % (s, o()), "(%s, %s, %s, %s)" % (s, o(), o(), o()), "(%s %s %s %s %s)" % (o(), s, o(), s, o()),
                    "(--, %s, %s)" % (o(), o()), "(--)", "(%s)" % i, "(%s, )" % i, "{}", "[]", "{%s]" % o(), "[%s}" % o(), "(%s)" % o() if False else "( )", "(%s %s %s)" % (o(), i, o()),
                    "<%s>" % o(), "<%s --> >" % o(), "<--> %s>" % o(), "<%s --> %s --> %s>" % (o(), o(), o()), "<%s --> %s)" % (o(), o()), "(%s --> %s>" % (o(), o()), "<%s %s>" % (o(), o()),
                    "(%s %s %s %s %s)" % (o(), m, o(), rng.choice([x for x in lang.MULTI + ["*"] if x != m]), o()), "(%s,, %s)" % (o(), o()), "(,%s, %s)" % (o(), o()), "(%s, %s,)" % (o(), o()), "{%s %s}" % (o(), o()), "{%s, }" % o()])
    r = rng.random()
    if r < 0.4:
        t = "<%s --> %s>" % (t, o()) if rng.random() < 0.5 else "(*, %s, %s)" % (o(), t)
    return t + rng.choice([".", "?", "!", "@", ". :|:", ". %1;0.9%"])


def _toks(t):
    out = []
    lang.tokens_term(t, lang.Style([]), out)
    return out


def g02(rng, tier):
    texts = []
    for _ in range(8):
        for attempt in range(12):
            r = rng.random()
            if r < 0.12:
                s = bad_numbers(rng)
            elif r < 0.3:
                s = arity(rng)
            else:
                cfg = gen.Cfg(rng)
                p = rng.choice("..?!@")
                l = {"t": cfg.term(rng.choice([1, 2, 3, 5, 8, 12])), "p": p, "tense": gen.tense(rng), "truth": gen.truth(rng) if p in ".!" else None, "budget": gen.budget(rng), "st": gen.style(rng, 20)}
                st = lang.Style(l["st"])
                toks = lang.tokens_line(l, st)
                if r < 0.65:
                    s = mutate_tokens(rng, toks)
                elif r < 0.95:
                    s = mutate_chars(rng, lang.join(toks, st))
                else:  # a NUL character after a complete line, or inside one
                    s = lang.join(toks, st)
                    i = rng.choice([len(s), len(s), len(s), rng.randrange(len(s) + 1)])
                    s = s[:i] + rng.choice(["\0", "\0", " \0", "\0\0"]) + s[i:] + rng.choice(["", "b", "b.", s[:20], ")", "\n", "x\0"])
            if len(s) <= 110 and not grammar.may_be_line(s):
                texts.append(s)
                break
    return {"texts": texts} if texts else None


def c02(c, ctx):
    if not c["texts"]:
        raise Trivial()
    cmds = [["parse", 0, "t%d" % i, q(s)] for i, s in enumerate(c["texts"])]
    cmds += [["parse", 0, "z", q("<robin --> bird>.")], ["table"]]
    rs = ctx.run("term", cmds)
    for s, r in zip(c["texts"], rs):
        need(not is_task(r), "the line %r is not in the grammar but gives a task: %s", s, describe(r))
    need(is_task(rs[-2]) and lang.from_dump(rs[-2]["term"]) == ("stm", "-->", ("atom", "robin"), ("atom", "bird")), "a correct line is misread after refused lines")
    need(sorted(rs[-1]["names"]) == ["bird", "robin"] and sorted(rs[-1]["inv"]) == ["bird", "robin"], "refused lines leave names behind: %s", rs[-1]["names"])
    return ["refused"]


def v02(c):
    return isinstance(c.get("texts"), list) and all(isinstance(s, str) and len(s) < 200 and not grammar.may_be_line(s) for s in c["texts"])


class C02(Check):
    id = "C02"
    rule = "token- and character-level mutations of grammatical lines, forbidden component counts and numbers out of range, kept only when a scannerless recogniser of the grammar rejects them under every tokenisation; non-trivial: every distinct list of such lines"

    def subs(self):
        return [Sub("mutants", g02, c02, v02, 16000)]

    def show(self, case):
        return repr(case["texts"])


# ------------------------------------------------------------------ C03
def g03(rng, tier):
    return {"lines": gen.lines(rng, rng.choice([1, 3, 6])), "slots": rng.choice([0, 0, 1])}


def c03(c, ctx):
    keep = [(l, lang.line_text(l)) for l in c["lines"] if modelled(l)]
    if not keep:
        raise Trivial()
    cmds = []
    for i, (l, t) in enumerate(keep):
        cmds.append(["parse", "p" if c["slots"] else 0, i, q(t)])
    cmds += [["dump", i] for i in range(len(keep))]
    rs = ctx.run("term", cmds)
    labels = set()
    n = len(keep)
    for j, (l, t) in enumerate(keep):
        must_parse(rs[j], t)
        compare_task(l, t, rs[j])
        # and it is still that after the later lines
        need(rs[n + j] == rs[j] or compare_task(l, t, rs[n + j]) is None, "the task of %r changed when later lines were parsed", t)
        labels |= shape(l["t"])
    return labels


def compare_task(l, t, r):
    want, got = model(l), lang.from_dump(r["term"])
    need(got == want, "the line %r was read as\n  %r instead of\n  %r", t, got, want)
    need(r["is"] == l["p"], "the line %r was read as a sentence of type %r", t, r["is"])
    flags(r["term"], t)


def flags(d, t):
    if d["k"] == "cmp":
        need(d["n"] == len(d["t"]), "%r: a compound says it has %d components but has %d", t, d["n"], len(d["t"]))
        for x in d["t"]:
            flags(x, t)
    elif d["k"] == "stm":
        flags(d["s"], t)
        flags(d["p"], t)


class C03(Check):
    id = "C03"
    rule = "random abstract sentences in random notation; the dumped task is compared node by node with the reference denotation (commutative compounds as sets); non-trivial: distinct cases with at least one sentence inside the modelled domain (no empty set intersection, no compound reduced to one component)"

    def subs(self):
        return [Sub("structure", g03, c03, valid_lines, 13000), Sub("forms", g01f, c03, valid_lines, 3000)]


# ------------------------------------------------------------------ C04
def printable(l):
    """Confidence and durability stay strictly inside (0, 1) at the printed precision."""
    t = lang.expected_truth(l)
    b = lang.expected_budget(l)
    return (t is None or "0.000" < "%.3f" % t[1] < "1.000") and all("0.00" < "%.2f" % (b[1] + e) < "1.00" for e in (-6e-4, 0, 6e-4))


def g04(rng, tier):
    return {"lines": [l for l in gen.lines(rng, rng.choice([1, 3, 5])) if printable(l)], "now": rng.choice([0, 0, 7, 100, 100000])}


def g04long(rng, tier):
    for _ in range(20):
        cfg = gen.Cfg(rng, variables=rng.random() < 0.4)
        l = gen.line(rng, cfg, tails=0)
        l["t"] = gen.bulky(rng, cfg)
        l["st"] = []
        c = {"lines": [l, gen.line(rng, cfg, tails=0)], "now": 0}
        if modelled(l) and all(printable(x) for x in c["lines"]) and len(lang.line_text(l)) > 2000:
            return c
    return None


BUDGET = re.compile(r"^\$([0-9.]+);([0-9.]+);([0-9.]+)\$ ", re.S)


def renumbered(d):
    """(is it unchanged, normal form) with the variables numbered by first occurrence in the order of the dump,
    which is the order of printing."""
    tab = [{}, {}, {}]
    for k, i in var_dumps(d, []):
        tab[k].setdefault(i, len(tab[k]))

    def walk(t):
        if t[0] == "var":
            return ("var", t[1], tab[t[1]][t[2]])
        if t[0] == "stm":
            return ("stm", t[1], walk(t[2]), walk(t[3]))
        if t[0] == "cmp":
            ts = [walk(x) for x in t[2]]
            if t[1] in lang.COMMUTATIVE:
                ts.sort(key=lang.keyof)
            return ("cmp", t[1], tuple(ts))
        return t
    return all(k == v for m in tab for k, v in m.items()), walk(lang.from_dump(d))


def c04(c, ctx):
    keep = [l for l in c["lines"] if modelled(l)]
    if not keep:
        raise Trivial()
    texts = [lang.line_text(l) for l in keep]
    cmds = [["time", c["now"]]] + [["parse", 0, "a%d" % i, q(t)] for i, t in enumerate(texts)]
    for r, t in zip(ctx.run("term", cmds)[1:], texts):
        must_parse(r, t)
    n = len(cmds)
    rs = ctx.run("term", cmds + [["reparse", "a%d" % i, "b%d" % i] for i in range(len(keep))])
    labels = set()
    for i, (l, t) in enumerate(zip(keep, texts)):
        a, x = rs[1 + i], rs[n + i]
        p, b = x["text"], x["task"]
        need(is_task(b), "%r is printed as %r, which gives %s", t, p, describe(b))
        # the printed order of an unordered compound may mention the variables in another order
        same, na = renumbered(a["term"])
        need(na == lang.from_dump(b["term"]), "%r is printed as %r, which is another term", t, p)
        need(x["eq"] is True or not same, "%r is printed as %r, which gives a term that is not equal", t, p)
        need(a["is"] == b["is"], "%r is printed as %r: another sentence type", t, p)
        need(a["stamp"]["eternal"] == b["stamp"]["eternal"] and a["stamp"]["tense"] == b["stamp"]["tense"], "%r is printed as %r: another tense", t, p)
        need((a["truth"] is None) == (b["truth"] is None), "%r is printed as %r: truth value lost or invented", t, p)
        if a["truth"]:
            need(all(abs(u - v) <= 0.000501 for u, v in zip(a["truth"][:2], b["truth"][:2])), "%r is printed as %r: another truth value", t, p)
        need(all(abs(u - v) <= 0.00551 for u, v in zip(a["budget"], b["budget"])), "%r is printed as %r: another budget", t, p)
        need(x["again"] == p or not same, "%r is printed as %r, and that as %r", t, p, x["again"])
        if not same:
            labels.add("variables renumbered")
        labels |= shape(l["t"])
        if l["tense"] is not None:
            labels.add("tense")
    return labels


class C04(Check):
    id = "C04"
    rule = "random sentences are parsed, printed, parsed again and printed again; non-trivial: distinct cases whose sentences are printable within the grammar (no compound reduced to one component, confidence and durability not rounded to 0 or 1)"

    def subs(self):
        return [Sub("roundtrip", g04, c04, valid_lines, 6000), Sub("long", g04long, c04, valid_lines, 200)]


# ------------------------------------------------------------------ C05
def g05(rng, tier):
    ls = gen.lines(rng, rng.choice([1, 3, 5]))
    return {"lines": [dict(l, st2=gen.style(rng, rng.choice([5, 20, 60]))) for l in ls], "noise": noise(rng)}


def suffix(printed, term_text):
    i = printed.index(term_text)
    return printed[:i], printed[i + len(term_text):]


def c05(c, ctx):
    if not c["lines"]:
        raise Trivial()
    cmds = noise_cmds(c["noise"])
    n0 = len(cmds)
    pairs = []
    for i, l in enumerate(c["lines"]):
        a, b = lang.line_text(l), lang.line_text(dict(l, st=l.get("st2", [])))
        pairs.append((a, b))
        for s, t in (("a", a), ("b", b)):
            cmds += [["parse", 0, s, q(t)], ["print", s], ["term", s, s], ["tprint", s]]
        cmds += [["eqtask", "a", "b"]]
    # a line that is refused has no task to print: parse first
    pr = ctx.run("term", [["parse", 0, "a", q(t)] for p in pairs for t in p])
    for k, r in enumerate(pr):
        must_parse(r, pairs[k // 2][k % 2])
    rs = ctx.run("term", cmds)[n0:]
    labels = set()
    different = False
    for i, l in enumerate(c["lines"]):
        a, b = pairs[i]
        ra, pa, _, ta, rb, pb, _, tb, eq = rs[9 * i:9 * i + 9]
        need(eq is True, "%r and %r give terms that are not equal", a, b)
        need(lang.from_dump(ra["term"]) == lang.from_dump(rb["term"]), "%r and %r give different terms", a, b)
        need(ra["is"] == rb["is"] and ra["truth"] == rb["truth"] and ra["budget"] == rb["budget"], "%r and %r differ in type, truth or budget", a, b)
        need(all(ra["stamp"][k] == rb["stamp"][k] for k in ("eternal", "occ", "tense")), "%r and %r differ in tense", a, b)
        need(suffix(pa, ta) == suffix(pb, tb), "%r and %r print differently: %r, %r", a, b, pa, pb)
        if a != b:
            different = True
            labels.add("different text")
        labels |= shape(l["t"])
    if not different:
        raise Trivial()
    return labels


def v05(c):
    return valid_lines(c) and all(isinstance(l.get("st2", []), list) for l in c["lines"])


class C05(Check):
    id = "C05"
    rule = "one abstract sentence rendered in two independently chosen notations and blank layouts; non-trivial: distinct cases in which the two texts differ"

    def subs(self):
        return [Sub("notations", g05, c05, v05, 7000)]

    def show(self, case):
        return repr([(lang.line_text(l), lang.line_text(dict(l, st=l.get("st2", [])))) for l in case["lines"]])


# ------------------------------------------------------------------ C06
def junk(rng):
    r = rng.random()
    if r < 0.5:
        cfg = gen.Cfg(rng)
        l = gen.line(rng, cfg, tails=0)
        return mutate_chars(rng, lang.line_text(l))
    if r < 0.7:
        return rng.choice(["", ".", "<a --> b", "(&&, a, b", "{a, b", "$0.5$", "<a --> $x>. %1.0;", "((((((", "(*, (*, (*, $x, $y", "a. :|: %", "<$x --> y> ==>", '"abc', "$x.", "{--", "(-, a, ", "a.%0.5;", "$0.5;0.5;0.5$ <$a --> #b", "<<$x --> a> ==> <$y -->", "a\n", "\x00"])
    return "".join(rng.choice(MUT_CH) for _ in range(rng.randint(0, 25)))


def g06(rng, tier):
    h = []
    n = rng.choice([1, 2, 4, 8, 8, 20, 60, 150] if rng.random() < 0.96 else [400])
    for _ in range(n):
        r = rng.random()
        p = rng.choice([0, 0, 1, 2])
        if r < 0.55:
            h.append(["line", p, rng.randrange(6), gen.line(rng, None, tails=0.01)])
        elif r < 0.85:
            h.append(["text", p, rng.randrange(6), junk(rng)])
        elif r < 0.95:
            h.append(["drop", rng.randrange(6)])
        else:
            h.append(["dropparser", rng.choice([1, 2])])
    return {"history": h, "lines": [dict(gen.line(rng, None, tails=0.03)) for _ in range(rng.choice([1, 2]))], "texts": [junk(rng) for _ in range(rng.choice([0, 1]))], "p": rng.choice([0, 0, 1, 3])}


def g06same(rng, tier):
    """The history is made of relatives of the probe: the same names, variables and prefixes of it."""
    cfg = gen.Cfg(rng)
    cfg.pv = rng.choice([0.2, 0.5])
    probe = gen.line(rng, cfg, tails=0.01)
    text = lang.line_text(probe)
    h = []
    for _ in range(rng.choice([1, 2, 3, 6, 15])):
        r = rng.random()
        p = rng.choice([0, 0, 1])
        s = rng.randrange(3)
        if r < 0.25:
            h.append(["text", p, s, text[:rng.randrange(len(text) + 1)]])
        elif r < 0.45:
            h.append(["text", p, s, text])
        elif r < 0.65:
            h.append(["line", p, s, gen.line(rng, cfg, tails=0)])
        elif r < 0.85:
            h.append(["text", p, s, mutate_chars(rng, text)])
        else:
            h.append(["drop", s])
    return {"history": h, "lines": [probe], "texts": [], "p": rng.choice([0, 1])}


def observe(r, t):
    if not is_task(r):
        return "refused" if r is None else "exception"
    return (repr(lang.from_dump(r["term"])), r["is"], repr(r["truth"]), repr(r["budget"]), r["stamp"]["eternal"], r["stamp"]["occ"], r["stamp"]["tense"], r["stamp"]["cre"])


def probes(c):
    out = []
    for i, t in enumerate([lang.line_text(l) for l in c["lines"]] + c["texts"]):
        out.append(t)
    return out


def c06(c, ctx):
    ps = probes(c)
    if not ps or not c["history"]:
        raise Trivial()
    alive = set()
    cmds = []
    hist = [["drop", 0]] * 0
    for h in c["history"]:
        if h[0] in ("line", "text"):
            t = lang.line_text(h[3]) if h[0] == "line" else h[3]
            cmds.append(["parse", h[1], "h%d" % h[2], q(t)])
        elif h[0] == "drop":
            cmds.append(["drop", "h%d" % h[1]])
        else:
            cmds.append(["dropparser", h[1]])
    cmds.append(["changed"])
    n = len(cmds)
    own = [["parsex", c["p"], "z%d" % i, q(t)] for i, t in enumerate(ps)]
    fresh = [ctx.run("term", [o])[0] for o in own]
    after = ctx.run("term", cmds + own)
    need(after[n - 1] == 0, "parsing has changed %d of the texts it was given", after[n - 1])
    after = after[n:]
    labels = set()
    fp, fa = [], []
    for i, (t, f, a) in enumerate(zip(ps, fresh, after)):
        of, oa = observe(f, t), observe(a, t)
        need(of == oa, "the line %r gives %s in a fresh process but %s after the history", t, of, oa)
        if is_task(f):
            fp.append((i, t))
        labels.add("probe accepted" if is_task(f) else "probe refused")
    if fp:
        pf = [ctx.run("term", [own[i], ["print", "z%d" % i]])[1] for i, t in fp]
        pa = ctx.run("term", cmds + own + [["print", "z%d" % i] for i, t in fp])[n + len(own):]
        for (i, t), x, y in zip(fp, pf, pa):
            # components of commutative compounds are printed in an arbitrary order
            need(sorted(x) == sorted(y), "the line %r is printed %r in a fresh process but %r after the history", t, x, y)
    k = len(c["history"])
    labels.add("history<=5" if k <= 5 else "history<=50" if k <= 50 else "history>50")
    return labels


def v06(c):
    try:
        return (valid_lines(c) and all(isinstance(t, str) and all(ord(x) < 256 for x in t) for t in c["texts"]) and c["p"] in (0, 1, 2, 3)
                and all(h[0] in ("line", "text", "drop", "dropparser") and (h[0] != "line" or (h[1] in (0, 1, 2) and h[2] in range(6) and lang.valid_line(h[3])))
                        and (h[0] != "text" or (h[1] in (0, 1, 2) and h[2] in range(6) and isinstance(h[3], str) and all(ord(x) < 256 for x in h[3])))
                        and (h[0] != "dropparser" or h[1] in (1, 2)) and (h[0] != "drop" or h[1] in range(6)) for h in c["history"]))
    except (IndexError, TypeError, KeyError):
        return False


def g06session(rng, tier):
    """Very many parses in one process over a few texts."""
    cfg = gen.Cfg(rng)
    cfg.pv = rng.choice([0, 0.3, 0.5])
    texts = []
    for _ in range(rng.choice([3, 6, 12])):
        l = {"t": cfg.term(rng.choice([2, 3, 5, 9]), None), "p": rng.choice(".?!@"), "tense": gen.tense(rng), "truth": None, "budget": gen.budget(rng), "st": gen.style(rng, 12)}
        if l["t"][0] == "var":
            l["t"] = ["stm", "-->", l["t"], ["atom", "a"]]
        t = lang.line_text(l)
        texts.append(t if rng.random() < 0.8 else mutate_chars(rng, t))
    n = rng.choice([70, 130, 260, 300, 600, 1100])
    return {"texts": texts, "seq": [[rng.randrange(len(texts)), rng.choice([0, 0, 0, 1]), rng.randrange(4)] for _ in range(n)], "keep": rng.choice([0, 1])}


def c06session(c, ctx):
    if len(c["seq"]) < 2 or not c["texts"]:
        raise Trivial()
    fresh = [observe(ctx.run("term", [["parse", 0, "z", q(t)]])[0], t) for t in c["texts"]]
    cmds = [["parse", p, "h%d" % (k if c["keep"] else s), q(c["texts"][i])] for k, (i, p, s) in enumerate(c["seq"])]
    seen = {}
    for k, ((i, p, s), r) in enumerate(zip(c["seq"], ctx.run("term", cmds))):
        t = c["texts"][i]
        o = observe(r, t)
        need(o == fresh[i], "the line %r gives %s in a fresh process but %s as line %d of a session", t, fresh[i], o, k + 1)
        if is_task(r):
            for x in r["stamp"]["base"] or []:
                need(x not in seen, "lines %s and %d of a session have the same evidence %d", seen.get(x), k + 1, x)
                seen[x] = k + 1
    n = len(c["seq"])
    return ["session " + ("<256" if n < 256 else "<1024" if n < 1024 else ">=1024")]


def v06session(c):
    try:
        return bool(c["texts"]) and all(isinstance(t, str) and all(ord(x) < 256 for x in t) for t in c["texts"]) and c["keep"] in (0, 1) and len(c["seq"]) <= 5000 and all(i in range(len(c["texts"])) and p in (0, 1) and s in range(4) for i, p, s in c["seq"])
    except (TypeError, ValueError, KeyError):
        return False


class C06(Check):
    id = "C06"
    rule = "a probe line parsed in a fresh process and again after a random history of accepted, refused and aborted parses with up to three parser objects and dropped or live tasks; non-trivial: distinct (history, probe) pairs with a non-empty history"

    def subs(self):
        return [Sub("history", g06, c06, v06, 2600), Sub("relatives", g06same, c06, v06, 3600), Sub("session", g06session, c06session, v06session, 400)]

    def show(self, case):
        if "seq" in case:
            return "texts %r sequence %r keep %r" % (case["texts"], case["seq"], case["keep"])
        h = [[x[0], x[1], x[2], lang.line_text(x[3]) if x[0] == "line" else x[3]] if x[0] in ("line", "text") else x for x in case["history"]]
        return "history %r probes %r" % (h, probes(case))


# ------------------------------------------------------------------ C15
def g15(rng, tier):
    ls = []
    for _ in range(rng.choice([1, 3, 5])):
        cfg = gen.Cfg(rng)
        cfg.pv = rng.choice([0.4, 0.6, 0.9])
        cfg.vnames = [gen.name(rng, rng.random() * 0.9) for _ in range(rng.choice([1, 2, 3, 6, 12]))]
        if rng.random() < 0.2:
            cfg.vnames = gen.family(rng, rng.choice([2, 3, 4]))
        l = gen.line(rng, cfg, tails=0.08)
        if rng.random() < 0.004:  # more variables than a byte can number
            n = rng.choice([255, 256, 257, 300])
            ks = [rng.randrange(3)] if rng.random() < 0.7 else [0, 1, 2]
            vs = [["var", rng.choice(ks), "n%d" % rng.randrange(n)] for _ in range(40)]
            l["t"] = ["cmp", rng.choice(["*", "&/"]), [["stm", "-->", ["cmp", "*", [["var", k, "n%d" % i] for i in range(n) for k in ks]], ["atom", "a"]]] + vs]
        l["seed2"] = rng.randrange(10**6)
        ls.append(l)
    return {"lines": ls, "noise": noise(rng)}


def var_names(t):
    return sorted({(x[1], x[2]) for x in lang.subterms(t) if x[0] == "var"})


def rename(t, m):
    if t[0] == "var":
        return ["var", t[1], m[(t[1], t[2])]]
    if t[0] == "stm":
        return ["stm", t[1], rename(t[2], m), rename(t[3], m)]
    if t[0] in ("cmp", "call"):
        return [t[0], t[1], [rename(x, m) for x in t[2]]]
    return t


def other_names(l):
    import random
    rng = random.Random(l["seed2"])
    vs = var_names(l["t"])
    m = {}
    for k in (0, 1, 2):
        mine = [v for v in vs if v[0] == k]
        pool = set()
        mode = rng.randrange(3)
        if mode == 0 and len(mine) > 1:  # a permutation of the same names
            ns = [v[1] for v in mine]
            rng.shuffle(ns)
        else:
            if rng.random() < 0.2 and len(mine) < 20:
                pool = set(gen.family(rng, len(mine)))
            while len(pool) < len(mine):
                pool.add(gen.name(rng, rng.random() * 0.95) if mode == 1 else rng.choice(["x", "y", "0", "1", "2", "v"]) + str(rng.randrange(len(mine) * 3 + 3)))
            ns = sorted(pool)
            rng.shuffle(ns)
            ns = ns[:len(mine)]
        for v, n in zip(mine, ns):
            m[v] = n
    return dict(l, t=rename(l["t"], m))


def var_dumps(d, out):
    if d["k"] == "var":
        out.append((d["v"], d["i"]))
    elif d["k"] == "stm":
        var_dumps(d["s"], out)
        var_dumps(d["p"], out)
    elif d["k"] == "cmp":
        for x in d["t"]:
            var_dumps(x, out)
    return out


def c15(c, ctx):
    keep = [l for l in c["lines"] if modelled(l) and var_names(l["t"])]
    if not keep:
        raise Trivial()
    pairs = [(lang.line_text(l), lang.line_text(other_names(l))) for l in keep]
    pr = ctx.run("term", [["parse", 0, "a", q(t)] for p in pairs for t in p])
    for k, r in enumerate(pr):
        must_parse(r, pairs[k // 2][k % 2])
    cmds = noise_cmds(c["noise"])
    n0 = len(cmds)
    for a, b in pairs:
        cmds += [["parse", 0, "a", q(a)], ["print", "a"], ["parse", 0, "b", q(b)], ["print", "b"], ["eqtask", "a", "b"]]
    rs = ctx.run("term", cmds)[n0:]
    labels = set()
    for i, l in enumerate(keep):
        a, b = pairs[i]
        ra, pa, rb, pb, eq = rs[5 * i:5 * i + 5]
        want = model(l)
        for t, r in ((a, ra), (b, rb)):
            got = lang.from_dump(r["term"])
            need(sorted(var_dumps(r["term"], [])) == sorted((x[1], x[2]) for x in lang.subterms(want) if x[0] == "var"), "%r has the variables (kind, number) %s", t, sorted(var_dumps(r["term"], [])))
            need(got == want, "%r was read as\n  %r instead of\n  %r", t, got, want)
        need(eq is True, "%r and %r (variables renamed) give terms that are not equal", a, b)
        need(pa == pb, "%r and %r (variables renamed) are printed differently: %r, %r", a, b, pa, pb)
        n = len(var_names(l["t"]))
        labels.add("variables %s" % ("1" if n == 1 else "2-4" if n < 5 else "5-9" if n < 10 else ">=10"))
        if len({v[0] for v in var_names(l["t"])}) > 1:
            labels.add("several kinds")
    return labels


class C15(Check):
    id = "C15"
    rule = "sentences with many variables of all kinds, and the same sentences with their variables renamed injectively; non-trivial: distinct cases with at least one variable"

    def subs(self):
        return [Sub("renaming", g15, c15, lambda c: valid_lines(c) and all(isinstance(l.get("seed2"), int) for l in c["lines"]), 7000)]

    def show(self, case):
        return repr([(lang.line_text(l), lang.line_text(other_names(l))) for l in case["lines"]])


# ------------------------------------------------------------------ C19
def g19(rng, tier):
    ls = []
    cfg = gen.Cfg(rng)
    for _ in range(rng.choice([2, 5, 10])):
        p = rng.choice(".?!@")
        b = [gen.unit_number(rng), gen.open_number(rng), gen.unit_number(rng)][:rng.choice([0, 1, 2, 3])] or None
        t = [gen.unit_number(rng), gen.open_number(rng), gen.k_number(rng)][:rng.choice([0, 1, 2, 3])] or None
        ls.append({"t": cfg.term(rng.choice([2, 3, 4])), "p": p, "tense": gen.tense(rng), "truth": t if p in ".!" else None, "budget": b, "st": gen.style(rng, 12)})
    conf = {}
    if rng.random() < 0.4:
        for k in rng.sample(sorted(lang.CONFIG), rng.choice([1, 3, 8])):
            conf[k] = {"k": float(rng.randint(1, 20)), "temporal_duration": rng.randint(1, 50)}.get(k, rng.randint(1, 99) / 100)
    if any(k in conf for k in ("c", "c_judgement", "c_goal")):
        conf.update(confidences(rng))
    return {"lines": ls, "config": conf}


def confidences(rng):
    v = [rng.randint(1, 99) / 100 for _ in range(3)]
    if rng.random() < 0.3:
        v = v[:1] * 3
    return dict(zip(("c", "c_goal", "c_judgement"), v))


def readings(cfg, p):
    """An omitted confidence is the general one or that of the sentence type, whichever entry an implementation reads."""
    return [dict(cfg, c=v, c_judgement=v, c_goal=v) for v in dict.fromkeys([cfg["c"], cfg["c_goal" if p == "!" else "c_judgement"]])]


def c19(c, ctx):
    ls = [l for l in c["lines"]]
    if not ls:
        raise Trivial()
    cfg = dict(lang.CONFIG)
    cfg.update(c["config"])
    cmds = [["config", k, v] for k, v in sorted(c["config"].items())]
    n0 = len(cmds)
    texts = [lang.line_text(l) for l in ls]
    rs = ctx.run("term", cmds + [["parse", 0, "a", q(t)] for t in texts])[n0:]
    labels = set()
    for l, t, r in zip(ls, texts, rs):
        must_parse(r, t)
        check_values(l, t, r, cfg)
        labels.add("truth parts %d" % len(l["truth"] or []))
        labels.add("budget parts %d" % len(l["budget"] or []))
        labels.add(l["p"])
    if c["config"]:
        labels.add("other configuration")
    return labels


def check_values(l, t, r, cfg=lang.CONFIG):
    rd = readings(cfg, l["p"])
    for i, x in enumerate(rd):
        try:
            return _check_values(l, t, r, x)
        except Violation:
            if i + 1 == len(rd):
                raise


def _check_values(l, t, r, cfg):
    et = lang.expected_truth(l, cfg)
    if et is None:
        need(r["truth"] is None, "%r: a question or quest has the truth value %s", t, r["truth"])
    else:
        need(r["truth"] is not None and all(lang.near(x, y) for x, y in zip(r["truth"], et)), "%r: truth value %s instead of %s", t, r["truth"], et)
    eb = lang.expected_budget(l, cfg)
    need(all(lang.near(x, y, 1e-6) for x, y in zip(r["budget"], eb)), "%r: budget %s instead of %s", t, r["budget"], eb)


def duration(rng):
    return rng.choice([5, 5, 5, 1, 2, 10, 30]) if rng.random() < 0.8 else rng.choice([100, 101, 127, 128, 255, 256, 300, 1000, 32767, 32768, 65536, 10**6, 2**24 + 1, 10**8, rng.randint(1, 10**rng.randint(1, 8))])


def stamp_spec(rng, now, dur):
    """A stamp as a program makes it: [created by the function?, form, arguments]."""
    near = lambda: rng.choice([now, now + dur, now - dur, now + dur - 1, now - dur + 1, now + rng.randint(-3 * dur, 3 * dur), rng.choice([0, -1, 1, 77, 2**30, -2**30])])
    how = rng.choice(["plain", "eternal", "at", "at", "full", "full"])
    a = {"plain": [], "eternal": [rng.randint(0, 1)], "at": [near()]}.get(how)
    if a is None:
        a = [near(), rng.choice([now, 0, 5]), rng.choice([-1, now, 9]), rng.choice(["-", "new", "new"])] + rng.choice([[], [0], [1]])
    return [rng.randint(0, 1), how] + a


def valid_stamp(s):
    """as made by stamp_spec, also after shrinking"""
    if not (isinstance(s, list) and len(s) >= 2 and s[0] in (0, 1)):
        return False
    ok = lambda v: isinstance(v, int) and not isinstance(v, bool) and abs(v) <= 2**30 + 10**9
    a = s[2:]
    if s[1] == "plain":
        return not a
    if s[1] == "eternal":
        return len(a) == 1 and a[0] in (0, 1)
    if s[1] == "at":
        return len(a) == 1 and ok(a[0])
    return s[1] == "full" and len(a) in (4, 5) and all(ok(v) for v in a[:3]) and a[3] in ("-", "new") and all(v in (0, 1) for v in a[4:])


def stamp_cmds(slot, s, ids):
    """Commands that make the stamp; the evidence `ids` goes into its base if it asks for one."""
    if s[1] != "full":
        return [["mkstamp", slot, s[0], s[1]] + s[2:]]
    base = "b" + slot
    return [["mkbase", base] + ids, ["mkstamp", slot, s[0], "full"] + s[2:5] + ["-" if s[5] == "-" else base] + s[6:]]


def stamp_model(s, now):
    """occurrence, creation (None: unspecified), put (None: unspecified), eternal"""
    if s[1] == "plain":
        return [now, now, None, False]
    if s[1] == "eternal":
        return [now, now, None, bool(s[2])]
    if s[1] == "at":
        return [s[2], now, None, False]
    return [s[2], s[3], s[4], bool(s[6]) if len(s) > 6 else True]


PUNCT = ".?!@"


def g19obj(rng, tier):
    items = []
    for _ in range(rng.choice([1, 3, 8])):
        p = rng.randrange(4)
        num = lambda: rng.choice([0.0, 1.0, 0.5, 0.25, 0.9, rng.random()])
        items.append({"how": rng.choice(["new", "create", "class"]), "p": p, "budget": [num() for _ in range(rng.choice([0, 1, 2, 3]))],
                      "truth": ([num(), min(num(), 0.99), float(rng.randint(1, 9))][:rng.choice([0, 2, 3])] or rng.choice([[], [2.0]])) if p in (0, 2) else [],
                      "stamp": rng.choice([None, stamp_spec(rng, 3, 5)])})
    conf = {}
    if rng.random() < 0.4:
        conf = dict(confidences(rng), f=rng.randint(0, 100) / 100, k=float(rng.randint(1, 9)))
    return {"items": items, "config": conf}


def v19obj(c):
    num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool) and 0 <= v <= 9
    return isinstance(c.get("items"), list) and isinstance(c.get("config"), dict) and (not c["config"] or sorted(c["config"]) == ["c", "c_goal", "c_judgement", "f", "k"] and all(num(v) and (v < 1 or k in "fk") for k, v in c["config"].items()) and c["config"]["k"] >= 1) and all(
        isinstance(x, dict) and x.get("how") in ("new", "create", "class") and x.get("p") in (0, 1, 2, 3) and isinstance(x.get("budget"), list) and len(x["budget"]) <= 3 and all(num(v) and v <= 1 for v in x["budget"])
        and isinstance(x.get("truth"), list) and len(x["truth"]) <= 3 and (not x["truth"] or x["p"] in (0, 2)) and all(num(v) for v in x["truth"]) and (len(x["truth"]) < 2 or x["truth"][0] <= 1 and x["truth"][1] < 1) and (len(x["truth"]) != 1 or x["truth"][0] >= 1) and (len(x["truth"]) < 3 or x["truth"][2] >= 1)
        and (x.get("stamp") is None or valid_stamp(x["stamp"])) for x in c["items"])


def c19obj(c, ctx):
    """Sentences, truth values, stamps and budgets put together by a program."""
    if not c["items"]:
        raise Trivial()
    cfg = dict(lang.CONFIG)
    cfg.update(c["config"])
    cmds = [["config", k, v] for k, v in sorted(c["config"].items())] + [["time", 3], ["atom", "a", q("thing")]]
    at = []
    for i, x in enumerate(c["items"]):
        st = "-"
        if x["stamp"]:
            st = "s%d" % i
            cmds += stamp_cmds(st, x["stamp"], [10**6 + i])
        at.append(len(cmds))
        cmds.append(["mktask", "t%d" % i, x["how"], x["p"], "a", st, len(x["budget"])] + x["budget"] + [len(x["truth"])] + x["truth"])
    rs = ctx.run("term", cmds)
    labels = set()
    for n, x in zip(at, c["items"]):
        r = rs[n]
        t = r["task"]
        what = "a %s sentence (%s) with truth parts %s and budget parts %s" % (PUNCT[x["p"]], x["how"], x["truth"], x["budget"])
        need(t["is"] == PUNCT[x["p"]] and t["punct"] == x["p"], "%s is of kind %r", what, t["is"])
        need(r["term"], "%s does not refer to the term it was made of", what)
        need(r["desire"], "%s: the desire of the goal is not its truth value", what)
        need(r["stamp"], "%s does not keep its stamp", what)
        if x["p"] in (1, 3):
            need(t["truth"] is None, "%s has the truth value %s", what, t["truth"])
        else:
            tr = x["truth"]
            if len(tr) >= 2:
                wants = [[tr[0], tr[1], tr[2] if len(tr) > 2 else 1.0]]
            else:
                wants = [[cfg["f"], g["c"], tr[0] if tr else cfg["k"]] for g in readings(cfg, PUNCT[x["p"]])]
            need(t["truth"] is not None and any(all(lang.near(v, lang.f32(w)) for v, w in zip(t["truth"], want)) for want in wants), "%s has the truth value %s instead of %s", what, t["truth"], wants)
        want = x["budget"] + r["general"][len(x["budget"]):]
        need(all(lang.near(v, lang.f32(w)) for v, w in zip(t["budget"], want)), "%s has the budget %s instead of %s", what, t["budget"], want)
        s = t["stamp"]
        need(s is not None and s["base"], "%s has no usable stamp", what)
        if not x["stamp"]:
            need(s["eternal"], "%s, made without a stamp, is not eternal", what)
        labels |= {PUNCT[x["p"]] + x["how"], "truth parts %d" % len(x["truth"]), "budget parts %d" % len(x["budget"]), "stamp" if x["stamp"] else "no stamp"}
    return labels


class C19(Check):
    id = "C19"
    rule = "sentences with every number of truth and budget parts and many number formats, also under other configured defaults, and the same objects made by a program through every constructor; non-trivial: every distinct case"

    def subs(self):
        return [Sub("values", g19, c19, lambda c: valid_lines(c) and isinstance(c.get("config"), dict) and all(k in lang.CONFIG and isinstance(v, (int, float)) and 0 < v < 60 and (k in ("k", "temporal_duration") or v < 1) for k, v in c["config"].items()), 13000),
                Sub("objects", g19obj, c19obj, v19obj, 2500)]


# ------------------------------------------------------------------ C20
def g20(rng, tier):
    now = rng.choice([0, 0, 1, 3, 5, 7, 100, 1000, 10**6, 2**30])
    dur = duration(rng)
    cfg = gen.Cfg(rng)
    ls = []
    for _ in range(rng.choice([2, 5, 12])):
        p = rng.choice(".?!@")
        te = rng.choice([None, "/", "|", "\\", None, now, now + dur, now - dur, now + dur - 1, now - dur + 1, now + dur + 1, now - dur - 1, now + rng.randint(-3 * dur, 3 * dur), gen.integer(rng)])
        ls.append({"t": cfg.term(rng.choice([2, 3])), "p": p, "tense": te, "truth": gen.truth(rng) if p in ".!" else None, "budget": gen.budget(rng), "st": gen.style(rng, 12)})
    later = rng.choice([0, 1, dur, 2 * dur, 1000])
    return {"lines": ls, "now": now, "dur": dur, "later": later, "other": [rng.choice(["stamp", "event", "stamp2", "event2", "id", "id2", "create", "create2"]) for _ in range(rng.choice([0, 2, 6, 30]))]}


TENSES = {None: 3, "\\": 0, "|": 1, "/": 2}


def c20(c, ctx):
    if not c["lines"]:
        raise Trivial()
    now, dur = c["now"], c["dur"]
    texts = [lang.line_text(l) for l in c["lines"]]
    cmds = [["time", now], ["config", "temporal_duration", dur]]
    oth = list(c["other"])
    plan = []
    for i, t in enumerate(texts):
        cmds.append(["parse", 0, "t%d" % i, q(t)])
        plan.append(("line", i))
        for _ in range(-(-len(c["other"]) // len(texts))):
            if oth:
                o = oth.pop()
                cmds.append(["newid", o])
                plan.append(("other", o))
    cmds += [["time", now + c["later"]]]
    n = len(plan)
    rs = ctx.run("term", cmds)[2:2 + n]
    for (k, i), r in zip(plan, rs):
        if k == "line":
            must_parse(r, texts[i])
    tail = ctx.run("term", cmds + [["dump", "t%d" % i] for i in range(len(texts))] + [["print", "t%d" % i] for i in range(len(texts))])[len(cmds):]
    labels = set()
    seen = {}
    for (k, i), r in zip(plan, rs):
        if k == "line":
            l, t, s = c["lines"][i], texts[i], r["stamp"]
            need(s is not None, "%r: the sentence has no stamp", t)
            occ = lang.occurrence(l, now, dur)
            need(s["eternal"] == (occ is None), "%r: eternal is %s", t, s["eternal"])
            if occ is not None:
                need(s["occ"] == occ, "%r at time %d: occurs at %d instead of %d", t, now, s["occ"], occ)
                need(s["cre"] == now, "%r at time %d: made at %d", t, now, s["cre"])
            want = TENSES[lang.category(occ, now, dur)]
            need(s["tense"] == want, "%r at time %d: tense %d instead of %d", t, now, s["tense"], want)
            s2 = tail[i]["stamp"]
            need((s2["eternal"], s2["cre"], s2["occ"]) == (s["eternal"], s["cre"], s["occ"]), "%r: the times %s of its stamp became %s", t, (s["eternal"], s["cre"], s["occ"]), (s2["eternal"], s2["cre"], s2["occ"]))
            want2 = TENSES[lang.category(occ, now + c["later"], dur)]
            need(s2["tense"] == want2, "%r read at time %d: tense %d instead of %d at time %d", t, now, s2["tense"], want2, now + c["later"])
            shown = re.search(r" (:[\\|/]:) ?[^ ]*$", tail[len(texts) + i])
            need((shown.group(1) if shown else None) == (None if occ is None else ":%s:" % lang.category(occ, now + c["later"], dur)), "%r at time %d is printed %r", t, now + c["later"], tail[len(texts) + i])
            need(s["base"] is not None, "%r: the stamp has no usable evidential base", t)
            ids = s["base"]
            labels.add("eternal" if occ is None else ("past", "present", "future")[want])
        else:
            ids = r
        for x in ids:
            need(x not in seen, "evidence %d belongs to two inputs: %s and %s", x, seen.get(x), (k, i))
            seen[x] = (k, i)
    return labels


def g20ids(rng, tier):
    return {"ops": [[rng.choice(["stamp", "event", "stamp2", "event2", "id", "id2", "create", "create2"]), rng.choice([1, 1, 2, 5, 50, 300])] for _ in range(rng.choice([1, 3, 10, 30]))]}


def c20ids(c, ctx):
    if not c["ops"]:
        raise Trivial()
    cmds = []
    for o, n in c["ops"]:
        cmds += [["newid", o]] * n
    rs = ctx.run("term", cmds)
    seen = {}
    kinds = []
    for o, n in c["ops"]:
        kinds += [o] * n
    for i, (r, o) in enumerate(zip(rs, kinds)):
        need(len(r) > 0, "a stamp made for an input (%s) carries no evidence", o)
        for x in r:
            need(x not in seen, "evidence identifier %d was given out twice: input %s and input %d (%s)", x, seen.get(x), i, o)
            seen[x] = "%d (%s)" % (i, o)
    return ["ids>=%d" % (10 ** (len(str(len(rs))) - 1))] + [o for o, n in c["ops"]]


def g20many(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        ops.append([rng.choice(OPS20), rng.choice([100, 1000, 30000, 70000, 100000])])
    pre = sorted(rng.choice([2**31, 2**32, 2**16, 2**24, 2**33, 2**53, 2**63]) - rng.choice([0, 1, 2, 50, 60]) for _ in range(rng.choice([0, 1, 2])))
    return {"many": ops, "preset": pre, "lines": rng.choice([0, 5, 300])}


def c20many(c, ctx):
    """Very many identifiers in one process, also with the counter set ahead to where narrower types wrap."""
    if not c["many"]:
        raise Trivial()
    cmds = []
    for i in range(c["lines"]):
        cmds.append(["parseid", q("<a --> b>" + ".!?@"[i % 4] + (" :|:" if i % 3 else ""))])
    cmds += [["manyids", o, n] for o, n in c["many"]]
    for v in c["preset"]:
        cmds.append(["presetid", v])
        cmds += [["manyids", o, 120] for o, n in c["many"]]
        cmds += [["parseid", q("<a --> b>.")]] * 20
    rs = ctx.run("term", cmds + [["idsum"]])
    r = rs[-1]
    need(r["twice"] is None, "evidence identifier %s was given out twice (to inputs %s and %s of %d)", r["twice"], r["first"], r["second"], r["n"])
    need(not r["none"], "an input was given no evidence")
    return ["ids>=%d" % (10 ** (len(str(r["n"])) - 1)), "presets %d" % len(c["preset"])]


OPS20 = ["stamp", "event", "stamp2", "event2", "id", "id2", "create", "create2"]


OPS20S = ["time", "stamp", "stamp", "eternalize", "base", "stamp2", "look"]


def g20st(rng, tier):
    """A history of stamps: made, merged, made eternal, and looked at while time passes."""
    now = rng.choice([0, 3, 5, 100, 10**6])
    dur = duration(rng)
    ops = []
    n = 0
    for _ in range(rng.choice([1, 3, 6, 12, 25])):
        o = rng.choice(OPS20S) if n else "stamp"
        if o == "time":
            now += rng.choice([0, 1, dur, 2 * dur, 17])
            ops.append([o, now])
        elif o == "stamp":
            ops.append([o, stamp_spec(rng, now, dur), sorted(rng.sample(range(1000, 1040), rng.choice([1, 2, 5, 12])))])
            n += 1
        elif o == "base":
            ops.append([o, rng.randrange(n), sorted(rng.sample(range(1000, 1040), rng.choice([0, 1, 2, 5, 12, 25])))])
        elif o == "stamp2":
            ops.append([o, rng.randrange(n), rng.randrange(n)])
        else:
            ops.append([o, rng.randrange(n)])
    return {"ops": ops, "dur": dur, "max": rng.choice([20, 20, 20, 1, 2, 5, 100])}


def v20st(c):
    if not (isinstance(c.get("ops"), list) and isinstance(c.get("dur"), int) and 1 <= c["dur"] <= 10**8 + 1 and isinstance(c.get("max"), int) and 1 <= c["max"] <= 1000):
        return False
    n, now = 0, 0
    ids = lambda v: isinstance(v, list) and all(isinstance(x, int) and 1000 <= x < 2000 for x in v) and len(set(v)) == len(v)
    for o in c["ops"]:
        if not isinstance(o, list) or not o:
            return False
        if o[0] == "time":
            if not (len(o) == 2 and isinstance(o[1], int) and now <= o[1] <= 2**29):
                return False
            now = o[1]
        elif o[0] == "stamp":
            if not (len(o) == 3 and valid_stamp(o[1]) and ids(o[2]) and o[2]):
                return False
            n += 1
        elif not (o[0] in OPS20S and len(o) == (2 if o[0] in ("look", "eternalize") else 3) and isinstance(o[1], int) and 0 <= o[1] < n):
            return False
        elif o[0] == "base" and not ids(o[2]) or o[0] == "stamp2" and not (isinstance(o[2], int) and 0 <= o[2] < n):
            return False
    return True


def c20st(c, ctx):
    from .structures import merged
    if not c["ops"]:
        raise Trivial()
    cmds = [["config", "temporal_duration", c["dur"]], ["maxlength", c["max"]], ["time", 0]]
    plan = [None] * 3
    n = 0
    for i, o in enumerate(c["ops"]):
        if o[0] == "time":
            cmds.append(["time", o[1]])
            plan.append(None)
        elif o[0] == "stamp":
            x = stamp_cmds("s%d" % n, o[1], o[2])
            cmds += x
            plan += [None] * (len(x) - 1) + [(i, n)]
            n += 1
        elif o[0] == "base":
            cmds += [["mkbase", "e%d" % i] + o[2], ["extendstamp", "s%d" % o[1], "b", "e%d" % i], ["base", "e%d" % i]]
            plan += [None, (i, o[1]), ("base", o[2])]
        elif o[0] == "stamp2":
            cmds += [["extendstamp", "s%d" % o[1], "s", "s%d" % o[2]], ["stamp", "s%d" % o[2]]]
            plan += [(i, o[1]), ("other", o[2])]
        else:
            cmds.append(["stamp" if o[0] == "look" else o[0], "s%d" % o[1]])
            plan.append((i, o[1]))
    cmds += [["stamp", "s%d" % k] for k in range(n)]
    plan += [("other", k) for k in range(n)]
    rs = ctx.run("term", cmds)
    now = 0
    model, base, fresh = [], [], {}
    labels = set()

    def same(k, r, what):
        m = model[k]
        need(r["occ"] == m[0], "%s occurs at %d instead of %d", what, r["occ"], m[0])
        need(m[1] is None or r["cre"] == m[1], "%s was created at %d instead of %s", what, r["cre"], m[1])
        need(m[2] is None or r["put"] == m[2], "%s was put at %d instead of %s", what, r["put"], m[2])
        need(r["eternal"] == m[3], "%s: eternal is %s", what, r["eternal"])
        want = TENSES[None if m[3] else lang.category(m[0], now, c["dur"])]
        need(r["tense"] == want, "%s, occurring at %s: tense %d instead of %d at time %d", what, "all times" if m[3] else m[0], r["tense"], want, now)
        labels.add("eternal" if m[3] else "event")

    for cmd, pl, r in zip(cmds, plan, rs):
        if cmd[0] == "time":
            now = int(cmd[1])
        if pl is None:
            continue
        if pl[0] == "base":
            need(r == sorted(pl[1]), "a base of evidence %s changed to %s when a stamp was extended by it", pl[1], r)
            continue
        k = pl[1]
        o = ["look"] if pl[0] == "other" else c["ops"][pl[0]]
        what = "after %s the stamp %d" % (o[0] if pl[0] != "other" else "all that", k)
        need(r["base"], "%s has no usable evidential base", what)
        got = {"set": r["base"], "size": len(r["base"])}
        if o[0] == "stamp":
            sp = o[1]
            model.append(stamp_model(sp, now))
            if sp[1] == "full" and sp[5] == "new":
                need(r["base"] == o[2], "a stamp made with the evidence %s carries %s", o[2], r["base"])
            else:
                for e in r["base"]:
                    need(e not in fresh and not any(e in b for b in base), "the evidence %d given to a new stamp is not new", e)
                    fresh[e] = k
            base.append(set(r["base"]))
        elif o[0] in ("base", "stamp2"):
            other = set(o[2]) if o[0] == "base" else base[o[2]]
            labels.add("merge " + merged("extending a stamp's evidence %s by %s" % (sorted(base[k]), sorted(other)), got, base[k], other, c["max"]))
            base[k] = set(r["base"])
        else:
            if o[0] == "eternalize":
                model[k][3] = True
                labels.add("eternalized")
            need(set(r["base"]) == base[k], "%s carries the evidence %s instead of %s", what, r["base"], sorted(base[k]))
        same(k, r, what)
    return labels


class C20(Check):
    id = "C20"
    rule = "histories of stamps made by every constructor, merged, made eternal and looked at as time passes; sentences of every tense at random current times and durations around the category boundaries, re-examined at a later time, interleaved with stamps and identifiers created elsewhere (also in a second translation unit); non-trivial: every distinct case"

    def subs(self):
        return [Sub("tenses", g20, c20, lambda c: valid_lines(c) and 0 <= c["now"] <= 2**30 and 1 <= c["dur"] <= 10**8 + 1 and 0 <= c["later"] <= 10**9 and all(o in OPS20 for o in c["other"]), 6000),
                Sub("stamps", g20st, c20st, v20st, 2500),
                Sub("identifiers", g20ids, c20ids, lambda c: all(isinstance(o, list) and len(o) == 2 and o[0] in OPS20 and 0 < o[1] <= 1000 for o in c["ops"]), 1500),
                Sub("many", g20many, c20many, lambda c: all(isinstance(o, list) and len(o) == 2 and o[0] in OPS20 and 0 < o[1] <= 200000 for o in c["many"]) and c["preset"] == sorted(c["preset"]) and all(0 < v < 2**64 for v in c["preset"]) and 0 <= c["lines"] <= 1000, 60)]


# ------------------------------------------------------------------ C26
ESC = re.compile("\x1b\\[[0-9;]*m")


def g26(rng, tier):
    ls = gen.lines(rng, rng.choice([1, 3, 6]))
    return {"lines": ls, "now": rng.choice([0, 0, 50])}


def c26(c, ctx):
    ls = c["lines"]
    if not ls:
        raise Trivial()
    texts = [lang.line_text(l) for l in ls]
    cmds = [["time", c["now"]]]
    for i, t in enumerate(texts):
        cmds += [["parse", 0, i, q(t)]]
    for r, t in zip(ctx.run("term", cmds)[1:], texts):
        must_parse(r, t)
    n = len(cmds)
    for i, t in enumerate(texts):
        cmds += [["print", i], ["color", i], ["sprint", i], ["scolor", i], ["term", i, i], ["tprint", i], ["tcolor", i]]
    rs = ctx.run("term", cmds)[n:]
    labels = set()
    for i, (l, t) in enumerate(zip(ls, texts)):
        p, co, sp, sc, _, tp, tc = rs[7 * i:7 * i + 7]
        for a, b, what in ((sp, sc, "sentence"), (tp, tc, "term")):
            need(ESC.sub("", b) == a, "%r: the %s is printed %r but in colour %r", t, what, a, b)
        need("\x1b[" in co and "\x1b[" in sc and "\x1b[" in tc, "%r: coloured output without colour codes", t)
        plain = ESC.sub("", co)
        m = BUDGET.match(p)
        need(m is not None and p[m.end():] == sp, "%r: the task is printed %r, its sentence %r", t, p, sp)
        m2 = re.match(r"^\D*?([0-9.]+)\D+?([0-9.]+)\D+?([0-9.]+)\s*", plain)
        need(m2 is not None and m2.groups() == m.groups() and plain.endswith(sp) and not plain[m2.end():-len(sp)].strip(), "%r: the task is printed %r but in colour %r", t, p, co)
        need(sp.startswith(tp), "%r: the sentence is printed %r, its term %r", t, sp, tp)
        for nm in (lang.atoms(model(l)) if modelled(l) else ()):
            need(nm in tp, "%r is printed %r: the name %r is missing", t, tp, nm)
            if any(x in nm for x in "{}%"):
                labels.add("format characters in a name")
        labels |= shape(l["t"])
    return labels


NAMES26 = ["a", "b", "cat", "{x}", "}", "{0}", "%s", "x y", "{{}}", "\x1b", "<", "0x12", "", "[]", "(&, a)"]


def leaf26(rng):
    k = rng.random()
    return ["atom", rng.choice(NAMES26)] if k < 0.4 else ["anon"] if k < 0.7 else ["int", rng.choice([0, 1, 7, 1000000])] if k < 0.8 else ["var", rng.randrange(3), rng.randrange(3)]


def tree26(rng, d):
    k = rng.random()
    if d == 0 or k < 0.2:
        return leaf26(rng)
    if k < 0.55:
        return ["stm", rng.choice(["-->", "<->", "==>", "<=>", "=/>", "=|>"]), tree26(rng, d - 1), tree26(rng, d - 1)]
    if k < 0.75:
        return ["do", rng.randint(0, 1), [tree26(rng, d - 1) for _ in range(rng.choice([1, 1, 2, 3]))]]
    return ["cmp", rng.choice(["*", "&/", "&&", "||", "&|", "{", "["]), [tree26(rng, d - 1) for _ in range(rng.choice([2, 2, 3]))]]


def valid26(t, d=0):
    if not (isinstance(t, list) and t and d < 8):
        return False
    if t[0] == "atom":
        return len(t) == 2 and isinstance(t[1], str) and all(ord(x) < 256 and x != "\0" for x in t[1])
    if t[0] == "anon":
        return len(t) == 1
    if t[0] == "int":
        return len(t) == 2 and isinstance(t[1], int) and 0 <= t[1] < 2**30
    if t[0] == "var":
        return len(t) == 3 and t[1] in (0, 1, 2) and isinstance(t[2], int) and 0 <= t[2] < 100
    if t[0] == "stm":
        return len(t) == 4 and t[1] in ("-->", "<->", "==>", "<=>", "=/>", "=|>") and valid26(t[2], d + 1) and valid26(t[3], d + 1)
    if t[0] == "do":
        return len(t) == 3 and t[1] in (0, 1) and isinstance(t[2], list) and len(t[2]) >= 1 and all(valid26(x, d + 1) for x in t[2])
    return t[0] == "cmp" and len(t) == 3 and t[1] in ("*", "&/", "&&", "||", "&|", "{", "[") and isinstance(t[2], list) and len(t[2]) >= 2 and all(valid26(x, d + 1) for x in t[2])


def build26(t, cmds):
    s = "n%d" % len(cmds)
    if t[0] == "atom":
        cmds.append(["atom", s, q(t[1])])
    elif t[0] == "anon":
        cmds.append(["anon", s])
    elif t[0] == "int":
        cmds.append(["interval", s, t[1]])
    elif t[0] == "var":
        cmds.append(["var", s, t[1], t[2]])
    elif t[0] == "stm":
        a, b = build26(t[2], cmds), build26(t[3], cmds)
        s = "n%d" % len(cmds)
        cmds.append(["stm", s, q(t[1]), a, b])
    elif t[0] == "do":
        xs = [build26(x, cmds) for x in t[2]]
        a = "n%d" % len(cmds)
        cmds.append(["cmp", a, q("*")] + xs)
        o = "n%d" % len(cmds)
        cmds.append(["anonop", o, t[1]])
        s = "n%d" % len(cmds)
        cmds.append(["stm", s, q("-->"), a, o])
    else:
        xs = [build26(x, cmds) for x in t[2]]
        s = "n%d" % len(cmds)
        cmds.append(["cmp", s, q(t[1])] + xs)
    return s


def g26built(rng, tier):
    num = lambda: rng.choice([0.0, 1.0, 0.5, 0.999, 0.9949, 0.005, 1e-5, rng.random()])
    p = rng.randrange(4)
    return {"t": tree26(rng, rng.choice([0, 1, 2, 3])), "p": p, "how": rng.choice(["new", "create", "class"]), "budget": [rng.choice([num(), num(), 1.5, -0.25]) for _ in range(rng.choice([0, 3]))],
            "truth": [num(), min(num(), 0.9999)] + rng.choice([[], [2.0]]) if p in (0, 2) and rng.random() < 0.8 else [], "stamp": rng.choice([None, stamp_spec(rng, 20, 5)]), "first": rng.randint(0, 1)}


def v26built(c):
    num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool) and -1 <= v <= 2
    return valid26(c.get("t")) and c.get("p") in (0, 1, 2, 3) and c.get("how") in ("new", "create", "class") and isinstance(c.get("budget"), list) and len(c["budget"]) in (0, 3) and all(map(num, c["budget"])) and isinstance(c.get("truth"), list) and len(c["truth"]) in (0, 2, 3) and (not c["truth"] or c["p"] in (0, 2) and 0 <= c["truth"][0] <= 1 and 0 <= c["truth"][1] < 1) and all(map(num, c["truth"])) and (c.get("stamp") is None or valid_stamp(c["stamp"])) and c.get("first") in (0, 1)


def c26built(c, ctx):
    """Terms, sentences and tasks made by a program, with parts that have no name."""
    cmds = []
    root = build26(c["t"], cmds)
    cmds.append(["time", 20])
    st = "-"
    if c["stamp"]:
        st = "s"
        cmds += stamp_cmds(st, c["stamp"], [10**6])
    cmds.append(["mktask", "t", c["how"], c["p"], root, st, len(c["budget"])] + c["budget"] + [len(c["truth"])] + c["truth"])
    n = len(cmds)
    pairs = [["print", "t"], ["color", "t"], ["sprint", "t"], ["scolor", "t"], ["tprint", root], ["tcolor", root]]
    if c["first"]: # the order of asking must not matter
        pairs = [pairs[i ^ 1] for i in range(6)]
    rs = ctx.run("term", cmds + pairs)[n:]
    if c["first"]:
        rs = [rs[i ^ 1] for i in range(6)]
    p, co, sp, sc, tp, tc = rs
    wild = "\x1b" in tp # a name with the first character of a colour code
    for a, b, what in ((sp, sc, "sentence"), (tp, tc, "term")):
        need(wild or ESC.sub("", b) == a, "the %s is printed %r but in colour %r", what, a, b)
        need(b.count("\x1b[") > 0, "the coloured %s %r has no colour codes", what, b)
    m = BUDGET.match(p)
    need(m is not None and p[m.end():] == sp, "the task is printed %r, its sentence %r", p, sp)
    plain = ESC.sub("", co)
    m2 = re.match(r"^\D*?([0-9.]+)\D+?([0-9.]+)\D+?([0-9.]+)\s*", plain)
    need(m2 is not None and m2.groups() == m.groups() and (wild or plain.endswith(sp) and not plain[m2.end():-len(sp)].strip()), "the task is printed %r but in colour %r", p, co)
    need(sp.startswith(tp), "the sentence is printed %r, its term %r", sp, tp)

    def kinds(t):
        yield t[0]
        for x in t[1:]:
            if isinstance(x, list):
                for y in (x if x and isinstance(x[0], list) else [x]):
                    yield from kinds(y) if y else ()
    return {"unnamed" if k == "anon" else "operation" if k == "do" else k for k in kinds(c["t"])} | {PUNCT[c["p"]], "stamp" if c["stamp"] else "no stamp"}


class C26(Check):
    id = "C26"
    rule = "terms, sentences and tasks made by a program (also with unnamed atoms and operations), and random sentences printed plain and in colour as task, sentence and term; non-trivial: every distinct case"

    def subs(self):
        return [Sub("colour", g26, c26, valid_lines, 6500), Sub("long", g04long, c26, valid_lines, 200), Sub("built", g26built, c26built, v26built, 3000)]


CHECKS = [C01(), C02(), C03(), C04(), C05(), C06(), C15(), C19(), C20(), C26()]
