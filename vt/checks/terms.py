"""C08-C14, C16, C17: terms and the objects that hold them."""
import random
from .common import *
from .language import junk, var_dumps


def term_line(t, p="."):
    return {"t": t, "p": p, "tense": None, "truth": None, "budget": None, "st": []}


def nonvar(t):
    return t if t[0] != "var" else ["cmp", "--", [t]]


# ------------------------------------------------------------------ building terms in the executor
class Builder:
    """Builds abstract terms bottom-up through the constructors (no parsing), as slots of the executor."""

    def __init__(self, how="cmp", stm="stm"):
        self.cmds = []
        self.n = 0
        self.how, self.stm = how, stm
        self.leaves = {}

    def slot(self):
        self.n += 1
        return "k%d" % self.n

    def build(self, t, tab, fresh=True):
        """t is a normal-form-like tuple (variables already numbered)"""
        k = t[0]
        if k == "atom":
            s = self.slot()
            self.cmds.append(["atom", s, q(t[1])])
        elif k == "op":
            s = self.leaves[t]
        elif k == "int":
            s = self.slot()
            self.cmds.append(["interval", s, t[1]])
        elif k == "var":
            s = self.slot()
            self.cmds.append(["var", s, t[1], t[2]])
        elif k == "stm":
            a, b = self.build(t[2], tab), self.build(t[3], tab)
            s = self.slot()
            self.cmds.append([self.stm, s, q(t[1]), a, b])
        else:
            xs = [self.build(x, tab) for x in t[2]]
            s = self.slot()
            self.cmds.append([self.how, s, q(t[1])] + xs)
        return s


# ------------------------------------------------------------------ C08
def g08(rng, tier):
    ops = []
    cfgs = [gen.Cfg(rng) for _ in range(2)]
    n = rng.choice([3, 6, 12, 25])
    for _ in range(n):
        r = rng.random()
        s = rng.randrange(4)
        if r < 0.42:
            l = gen.line(rng, rng.choice(cfgs) if rng.random() < 0.8 else None, tails=0.03)
            ops.append(["line", rng.choice([0, 0, 0, 1]), s, l])
        elif r < 0.55:
            ops.append(["text", rng.choice([0, 0, 1]), s, junk(rng)])
        elif r < 0.63:
            # an accepted line cut short
            t = lang.line_text(gen.line(rng, rng.choice(cfgs), tails=0.01))
            ops.append(["text", 0, s, t[:rng.randrange(len(t) + 1)]])
        elif r < 0.72:
            ops.append(["drop", s])
        elif r < 0.8:
            ops.append(["term", s, rng.randrange(4)])
        elif r < 0.84:
            ops.append(["copytask", s, rng.randrange(4)])
        elif r < 0.87:
            ops.append([rng.choice(["clone", "deep", "copyterm"]), rng.randrange(4), rng.randrange(4)])
        elif r < 0.9:
            ops.append(["swapterm", rng.randrange(4), rng.randrange(4)])
        elif r < 0.92:
            ops.append(["vecterm", rng.randrange(4), rng.randrange(4), rng.randrange(4)])
        elif r < 0.96:
            ops.append(["comp", rng.randrange(4), rng.randrange(2), rng.randrange(4)])
        elif r < 0.98:
            ops.append(["tdrop", rng.randrange(4)])
        else:
            ops.append(["dropparser", 1])
    return {"ops": ops}


def c08(c, ctx):
    """Runs the history with a model of which terms every slot holds; looks at the name table after every step."""
    cmds, expect = [["repeat", 4]], []
    tasks, terms = {}, {}
    texts = [lang.line_text(o[3]) if o[0] == "line" else o[3] for o in c["ops"] if o[0] in ("line", "text")]
    labels = set()
    # texts of unknown status: find out whether they are accepted
    pre = iter(ctx.run("term", [["parse", 0, "x", q(t)] for t in texts]))

    def check_table():
        names = set()
        for v in list(tasks.values()) + list(terms.values()):
            names |= lang.atoms(v)
        cmds.append(["table"])
        expect.append(sorted(names))

    for o in c["ops"]:
        if o[0] in ("line", "text"):
            r = next(pre)
            t = lang.line_text(o[3]) if o[0] == "line" else o[3]
            if o[0] == "line":
                must_parse(r, t)
            cmds.append(["parse", "p" if o[1] else 0, "t%d" % o[2], q(t)])
            expect.append(None)
            if is_task(r):
                tasks[o[2]] = lang.from_dump(r["term"])
            elif r is None:
                tasks.pop(o[2], None)
                cmds.append(["drop", "t%d" % o[2]])
                expect.append(None)
                labels.add("refused line")
            else:
                labels.add("aborted line")
        elif o[0] == "drop":
            tasks.pop(o[1], None)
            cmds.append(["drop", "t%d" % o[1]])
            expect.append(None)
        elif o[0] == "term":
            if o[1] not in tasks:
                continue
            terms[o[2]] = tasks[o[1]]
            cmds.append(["term", "t%d" % o[1], "m%d" % o[2]])
            expect.append(None)
        elif o[0] == "copytask":
            if o[1] not in tasks:
                continue
            tasks[o[2]] = tasks[o[1]]
            cmds.append(["copytask", "t%d" % o[1], "t%d" % o[2]])
            expect.append(None)
        elif o[0] in ("clone", "deep", "copyterm"):
            if o[1] not in terms:
                continue
            terms[o[2]] = terms[o[1]]
            cmds.append([o[0], "m%d" % o[1], "m%d" % o[2]])
            expect.append(None)
        elif o[0] == "swapterm":
            if o[1] not in terms or o[2] not in terms:
                continue
            terms[o[1]], terms[o[2]] = terms[o[2]], terms[o[1]]
            cmds.append(["swapterm", "m%d" % o[1], "m%d" % o[2]])
            expect.append(None)
        elif o[0] == "vecterm":
            if not all(x in terms for x in o[1:]):
                continue
            cmds.append(["vecterm"] + ["m%d" % x for x in o[1:]])
            expect.append(None)
        elif o[0] == "comp":
            v = terms.get(o[1])
            if v is None or not (v[0] == "stm" or (v[0] == "cmp" and v[1] not in lang.COMMUTATIVE and len(v[2]) > o[2])):
                continue
            terms[o[3]] = v[2 + o[2]] if v[0] == "stm" else v[2][o[2]]
            cmds.append(["comp", "m%d" % o[1], o[2], "m%d" % o[3]])
            expect.append(None)
        elif o[0] == "tdrop":
            terms.pop(o[1], None)
            cmds.append(["tdrop", "m%d" % o[1]])
            expect.append(None)
        else:
            cmds.append(["dropparser", "p"])
            expect.append(None)
        labels.add(o[0])
        check_table()
    if len(cmds) < 2:
        raise Trivial()
    rs = ctx.run("term", cmds)
    for k, (r, e) in enumerate(zip(rs, expect)):
        if e is not None:
            need(sorted(r["names"]) == e and sorted(r["inv"]) == e, "after %d steps the name table holds %r (by name %r) but the referenced atoms are %r", k, sorted(r["names"]), sorted(r["inv"]), e)
    live, left = rs[-1]["live"], rs[-1]["left"]
    need(not any(left), "the name table is not empty after everything was dropped: %s entries", left)
    d = [b - a for a, b in zip(live[1:], live[2:])]
    need(not all(x > 0 for x in d), "repeating the history leaves more and more memory allocated: live blocks %s", live)
    return labels


def v08(c):
    n = {"line": 4, "text": 4, "drop": 2, "term": 3, "copytask": 3, "clone": 3, "deep": 3, "copyterm": 3, "swapterm": 3, "vecterm": 4, "comp": 4, "tdrop": 2, "dropparser": 2}
    try:
        for o in c["ops"]:
            if o[0] not in n or len(o) != n[o[0]] or not all(isinstance(x, int) and 0 <= x < 4 for x in o[1:3]):
                return False
            if o[0] == "line" and not lang.valid_line(o[3]):
                return False
            if o[0] == "text" and not (isinstance(o[3], str) and all(ord(x) < 256 for x in o[3])):
                return False
            if o[0] not in ("line", "text") and not all(isinstance(x, int) and 0 <= x < 4 for x in o[1:]):
                return False
            if o[0] == "comp" and o[2] > 1:
                return False
        return True
    except (IndexError, TypeError):
        return False


def g08rel(rng, tier):
    """Many variants of one line: every prefix and single-token deletion, parsed and dropped."""
    cfg = gen.Cfg(rng)
    l = gen.line(rng, cfg, tails=0)
    t = lang.line_text(l)[:120]
    return {"ops": [["text", 0, i % 2, t[:i]] for i in range(len(t) + 1)]}


class C08(Check):
    id = "C08"
    rule = "random histories of parsing (accepted, refused, cut-off lines), copying, cloning, taking components and dropping, run four times over in one process under malloc hooks and AddressSanitizer; the name table is compared with the model after every step; non-trivial: every distinct history that does something"

    def subs(self):
        return [Sub("histories", g08, c08, v08, 6000), Sub("prefixes", g08rel, c08, v08, 400)]

    def show(self, case):
        return repr([[o[0], o[1], o[2], lang.line_text(o[3])] if o[0] == "line" else o for o in case["ops"]])


# ------------------------------------------------------------------ C09
def free_name(rng, n):
    """A name that no line can mention, but a constructor can be given."""
    r = rng.random()
    if r < 0.6:
        x = rng.choice([" ", "\t", "\n", "\r", ".", "%", "{}", "\"", ",", ")", "\x80"])
        return (n + x if rng.random() < 0.6 else x + n) if rng.random() < 0.9 else x
    if r < 0.8:
        i = rng.randrange(len(n))
        return n[:i] + rng.choice(" \t(,<") + n[i:]
    return "".join(chr(rng.randrange(1, 256)) for _ in range(rng.choice([0, 1, 2, 5, 30])))


def valid_free(n):
    return isinstance(n, str) and all(0 < ord(x) < 256 for x in n) and n[:1] != "^"


def g09(rng, tier):
    names = [gen.name(rng) for _ in range(rng.choice([2, 3, 5, 9] if rng.random() < 0.95 else [150]))]
    names += rng.choice([[], ["a", "aa", "A"], ["x", '"x"'], ["1", "01"]])
    free = [x for x in (free_name(rng, rng.choice(names)) for _ in range(rng.choice([2, 4, 8]))) if valid_free(x)] if rng.random() < 0.3 else []
    ops = []
    for _ in range(rng.choice([4, 8, 16, 40])):
        r = rng.random()
        s = rng.randrange(8)
        if r < 0.35:
            n = rng.choice(names)
            ops.append(["atom", s, rng.choice(free) if free and rng.random() < 0.5 else n])
        elif r < 0.6:
            ops.append(["parse", s, rng.randrange(8), rng.choice(names), rng.choice(names), rng.choice([0, 0, 1, 2, 3])])
        elif r < 0.85:
            ops.append(["drop", s])
        elif r < 0.92:
            ops.append(["copy", s, rng.randrange(8)])
        elif r < 0.96:
            ops.append(["anon", s, rng.randint(0, 1)])
        else:
            ops.append(["noise", rng.choice([16, 64, 80, 96, 112, 160])])
    c = {"ops": ops}
    if rng.random() < 0.02: # beside many other atoms that stay alive
        c["crowd"] = rng.choice([60, 130, 260, 520, 1030, 2100])
        del ops[10:]
    return c


def c09(c, ctx):
    slots, cmds, marks = {}, [], []
    crowd = ["crowd%d" % i for i in range(c.get("crowd", 0))]
    if crowd:
        cmds.append(["parse", 0, "crowd", q("(*, %s)." % ", ".join(crowd))])
    labels = set()
    reused = set()
    ever = {}
    for o in c["ops"]:
        if o[0] == "atom":
            slots[o[1]] = ("atom", o[2])
            cmds.append(["atom", "s%d" % o[1], q(o[2])])
        elif o[0] == "parse":
            # two atoms or operations of one line, into two slots
            a = ("op" if o[5] & 1 else "atom", o[3])
            b = ("op" if o[5] & 2 else "atom", o[4])
            line = "<%s%s --> %s%s>." % ("^" if a[0] == "op" else "", a[1], "^" if b[0] == "op" else "", b[1])
            cmds += [["parse", 0, "t", q(line)], ["term", "t", "T"], ["drop", "t"], ["comp", "T", 0, "s%d" % o[1]], ["comp", "T", 1, "s%d" % o[2]], ["tdrop", "T"]]
            slots[o[1]] = a
            slots[o[2]] = b
        elif o[0] == "drop":
            slots.pop(o[1], None)
            cmds.append(["tdrop", "s%d" % o[1]])
        elif o[0] == "anon": # an atom or operation without a name is like no other
            slots[o[1]] = ("anonymous", len(marks), "^" if o[2] else "")
            cmds.append(["anonop", "s%d" % o[1], 0] if o[2] else ["anon", "s%d" % o[1]])
            labels.add("without name")
        elif o[0] == "copy":
            if o[1] not in slots:
                continue
            slots[o[2]] = slots[o[1]]
            cmds.append(["copyterm", "s%d" % o[1], "s%d" % o[2]])
        else:
            cmds.append(["noise", o[1]])
        for v in slots.values():
            if ever.get(v) == "gone":
                labels.add("name used again after release")
            ever[v] = "live"
        for v in ever:
            if v not in slots.values():
                ever[v] = "gone"
        live = sorted(slots)
        marks.append((len(cmds), live, dict(slots)))
        cmds += [["cmpall"] + ["s%d" % s for s in live]] + [["tprint", "s%d" % s] for s in live] + [["table"]]
    if not marks:
        raise Trivial()
    rs = ctx.run("term", cmds)
    for pos, live, sl in marks:
        m = rs[pos]
        k = len(live)
        for i in range(k):
            for j in range(k):
                same = sl[live[i]] == sl[live[j]]
                need((m["eq"][i * k + j] == "1") == same, "%r and %r are%s equal", sl[live[i]], sl[live[j]], "" if not same else " not")
                if same:
                    need(m["h"][i] == m["h"][j], "%r has two different hashes", sl[live[i]])
                else:
                    need(m["lt"][i * k + j] == "1" or m["lt"][j * k + i] == "1", "%r and %r are not ordered", sl[live[i]], sl[live[j]])
            if sl[live[i]][0] == "anonymous":
                continue
            nm = ("^" if sl[live[i]][0] == "op" else "") + sl[live[i]][1]
            need(rs[pos + 1 + i] == nm, "the atom created with the name %r is printed %r", nm, rs[pos + 1 + i])
        names = sorted({("^" if v[0] == "op" else "") + v[1] for v in sl.values() if v[0] != "anonymous"} | set(crowd))
        tb = rs[pos + 1 + k]
        need(sorted(tb["names"]) == names and sorted(tb["inv"]) == names, "the name table holds %r (by name %r), live are %r", sorted(tb["names"]), sorted(tb["inv"]), names)
        kinds = {v[1] for v in sl.values() if v[0] == "op"} & {v[1] for v in sl.values() if v[0] == "atom"}
        if kinds:
            labels.add("plain and operation of the same name alive")
        if len([v for v in sl.values() if v[0] != "anonymous"]) + len(crowd) > len(names):
            labels.add("several references")
    if crowd:
        labels.add("among %d others" % len(crowd))
    return labels


def v09(c):
    try:
        if not isinstance(c.get("crowd", 0), int) or not 0 <= c.get("crowd", 0) <= 5000:
            return False
        for o in c["ops"]:
            ok = {"atom": lambda: len(o) == 3 and o[1] in range(8) and valid_free(o[2]), "parse": lambda: len(o) == 6 and o[1] in range(8) and o[2] in range(8) and lang.valid_name(o[3]) and lang.valid_name(o[4]) and o[5] in range(4),
                  "anon": lambda: len(o) == 3 and o[1] in range(8) and o[2] in (0, 1), "drop": lambda: len(o) == 2, "copy": lambda: len(o) == 3 and o[1] in range(8) and o[2] in range(8), "noise": lambda: len(o) == 2 and 0 < o[1] < 2000}[o[0]]()
            if not ok:
                return False
        return True
    except (IndexError, TypeError, KeyError):
        return False


def g09tables(rng, tier):
    """Several name tables, one of them the global one."""
    names = [gen.name(rng) for _ in range(rng.choice([1, 2, 3, 6]))]
    ops = []
    for _ in range(rng.choice([4, 10, 25, 50])):
        r = rng.random()
        s, t = rng.randrange(8), rng.choice([0, 1, 1, 2])
        if r < 0.45:
            ops.append(["atom", s, t, rng.choice(names)])
        elif r < 0.7:
            ops.append(["drop", s])
        elif r < 0.78:
            ops.append(["copy", s, rng.randrange(8)])
        elif r < 0.84:
            ops.append(["say", s, rng.randrange(8), rng.randrange(3)])
        elif r < 0.9:
            ops.append(["noise", rng.choice([16, 64, 80, 96, 112, 160])])
        elif r < 0.97:
            ops.append(["reset", rng.choice([1, 1, 2, 0])])
        else:
            ops.append(["end", rng.choice([1, 2])])
    return {"ops": ops}


def v09tables(c):
    try:
        return all({"atom": lambda: len(o) == 4 and o[1] in range(8) and o[2] in (0, 1, 2) and lang.valid_name(o[3]), "drop": lambda: len(o) == 2 and o[1] in range(8), "copy": lambda: len(o) == 3 and o[1] in range(8) and o[2] in range(8),
                    "say": lambda: len(o) == 4 and o[1] in range(8) and o[2] in range(8) and o[3] in (0, 1, 2), "noise": lambda: len(o) == 2 and 0 < o[1] < 2000, "reset": lambda: len(o) == 2 and o[1] in (0, 1, 2), "end": lambda: len(o) == 2 and o[1] in (1, 2)}[o[0]]() for o in c["ops"])
    except (IndexError, TypeError, KeyError):
        return False


def c09tables(c, ctx):
    slots, cmds, marks = {}, [], []
    era = [0, 0, 0]             # a reset makes the names of a table fresh
    labels = set()
    says = []
    for o in c["ops"]:
        if o[0] == "atom":
            slots[o[1]] = (o[2], era[o[2]], o[3])
            cmds.append(["atomin", "s%d" % o[1], o[2], q(o[3])])
        elif o[0] == "drop":
            slots.pop(o[1], None)
            cmds.append(["tdrop", "s%d" % o[1]])
        elif o[0] == "copy":
            if o[1] not in slots:
                continue
            slots[o[2]] = slots[o[1]]
            cmds.append(["copyterm", "s%d" % o[1], "s%d" % o[2]])
        elif o[0] == "say": # a statement of two atoms of one table, printed by that table
            a, b = slots.get(o[1]), slots.get(o[2])
            if a is None or b is None or a[:2] != b[:2] or a[1] != era[a[0]]:
                continue
            says.append((len(cmds) + 1, "<%s --> %s>" % (a[2], b[2]), a[0]))
            cmds += [["stm", "S", "-->", "s%d" % o[1], "s%d" % o[2]], ["printin", a[0], "S"], ["tdrop", "S"]]
            labels.add("statement printed by table")
        elif o[0] == "noise":
            cmds.append(["noise", o[1]])
        elif o[0] == "reset":
            if any(v[0] == o[1] and v[1] == era[o[1]] for v in slots.values()):
                labels.add("reset with live atoms")
            era[o[1]] += 1
            cmds.append(["resetin", o[1]])
        else: # a table ends when it has no live atoms
            if any(v[0] == o[1] for v in slots.values()):
                continue
            era[o[1]] += 1
            cmds.append(["endin", o[1]])
            labels.add("table ended")
        live = sorted(slots)
        marks.append((len(cmds), live, dict(slots), list(era)))
        cmds.append(["cmpall"] + ["s%d" % s for s in live])
        cmds += [["printin", slots[s][0], "s%d" % s] for s in live] + [["reprin", "-", "s%d" % s] for s in live] + [["tablein", t] for t in range(3)]
    if not marks:
        raise Trivial()
    rs = ctx.run("term", cmds)
    for pos, want, t in says:
        need(rs[pos] == want, "table %d prints %r for %r", t, rs[pos], want)
    for pos, live, sl, now in marks:
        m, k = rs[pos], len(live)
        for i in range(k):
            a = sl[live[i]]
            for j in range(k):
                b = sl[live[j]]
                need((m["eq"][i * k + j] == "1") == (a == b), "atoms %r and %r (table, number of resets, name) are%s equal", a, b, "" if a != b else " not")
                if a != b and a[2] == b[2]:
                    labels.add("one name in two tables or times")
            if a[1] == now[a[0]]:
                need(rs[pos + 1 + i] == a[2], "table %d prints %r for its atom %r", a[0], rs[pos + 1 + i], a[2])
                need(rs[pos + 1 + k + i] == "<Term: %s>" % a[2], "the atom %r of table %d describes itself as %r", a[2], a[0], rs[pos + 1 + k + i])
        for t in range(3):
            names = sorted({v[2] for v in sl.values() if v[0] == t and v[1] == now[t]})
            tb = rs[pos + 1 + 2 * k + t]
            need(sorted(tb["names"]) == names and sorted(tb["inv"]) == names and tb["objects"] == len(names), "table %d holds %r (by name %r, %d objects), live are %r", t, sorted(tb["names"]), sorted(tb["inv"]), tb["objects"], names)
    labels.add("%d tables used" % len({v[0] for _, _, sl, _ in marks for v in sl.values()}))
    return labels


class C09(Check):
    id = "C09"

    rule = "random histories of creating atoms by name, parsing lines that mention names and operation names, making atoms and operations without name, copying and dropping, with unrelated allocations in between; after every step all live atoms are compared pairwise; the same with three name tables that are reset and ended; non-trivial: every distinct history"

    def subs(self):
        return [Sub("names", g09, c09, v09, 15000), Sub("tables", g09tables, c09tables, v09tables, 5000)]


# ------------------------------------------------------------------ C10
CONS10 = ["&&", "||", "&|", "|", "&", "{", "["]


def base_terms(rng, cfg, k, avoid):
    out = []
    for _ in range(k):
        for _ in range(10):
            t = cfg.term(rng.choice([1, 1, 1, 2, 3, 4]))
            if not contains_top(t, avoid):
                break
        else:
            t = cfg.leaf()
        out.append(t)
    return out


def contains_top(t, c):
    return t[0] == "cmp" and t[1] == c


def arrange(rng, c, ts, dup, perm):
    """Another arrangement of the same components: permuted, repeated and nested with the same connector."""
    ts = list(ts)
    if perm:
        if dup:
            ts += [rng.choice(ts) for _ in range(rng.choice([0, 0, 1, 2]))]
        rng.shuffle(ts)

    def nest(xs, depth):
        if len(xs) < 2 and c not in ("{", "["):
            return xs
        out = []
        i = 0
        while i < len(xs):
            r = rng.random()
            if r < 0.35 and depth < 4:
                k = rng.randint(1 if c in ("{", "[") else 2, max(2, len(xs) - i))
                part = xs[i:i + k]
                if (len(part) >= 2 or c in ("{", "[")) and not (len(part) == len(xs) and depth and rng.random() < 0.5):
                    out.append(["cmp", c, nest(part, depth + 1)])
                else:
                    out += part
                i += k
            else:
                out.append(xs[i])
                i += 1
        return out
    r = nest(ts, 0)
    if len(r) < 2 and c not in ("{", "["):
        r = ts
    if len(r) < 2 and c not in ("{", "["):
        r = ts + ts
    return ["cmp", c, r]


def g10(rng, tier):
    cfg = gen.Cfg(rng, calls=rng.random() < 0.5)
    c = rng.choice(CONS10 + ["&/", "&/"])
    k = rng.choice([2, 2, 3, 4, 6, 10] if rng.random() < 0.97 else [40, 120])
    ts = base_terms(rng, cfg, k, c)
    perm = c != "&/"
    # the numbers of several variables depend on the order of writing
    one = rng.random() < 0.5
    if perm or one:
        ts = [onevar(t) if one else novar(t) for t in ts]
    if k < 20 and rng.random() < 0.25:
        # several components of one other connector, or the same one again and again
        c2 = rng.choice([x for x in lang.MULTI + lang.SETS + ["*"] if x != c])
        more = [["cmp", c2, [onevar(cfg.leaf()) if one else novar(cfg.leaf()) for _ in range(rng.choice([2, 2, 3]))]] for _ in range(rng.choice([2, 3, 4, 5, 8]))]
        if c in "|&" and c2 in "{[":
            more = more[:1]
        ts = ts[:rng.randint(0, len(ts))] + more
    if not perm:
        ts = [x for t in ts for x in [t] * rng.choice([1, 1, 1, 1, 2, 3])]
    arr = [["cmp", c, ts] if len(ts) > 1 or c in "{[" else ["cmp", c, ts + ts]] + [arrange(rng, c, ts, True, perm) for _ in range(3)]
    extra = None
    if c == "&/":
        t2 = list(ts)
        rng.shuffle(t2)
        extra = ["cmp", c, t2]
    return {"c": c, "arr": arr, "other": extra, "via": rng.choice(["parse", "cmp", "cmpin"]), "st": gen.style(rng, 30), "noise": noise(rng)}


def novar(t):
    if t[0] == "var":
        return ["atom", t[2]]
    if t[0] == "stm":
        return ["stm", t[1], novar(t[2]), novar(t[3])]
    if t[0] in ("cmp", "call"):
        return [t[0], t[1], [novar(x) for x in t[2]]]
    return t


def onevar(t):
    """All variables of one kind become the same one, whose number does not depend on the order of writing."""
    if t[0] == "var":
        return ["var", t[1], "x"]
    if t[0] == "stm":
        return ["stm", t[1], onevar(t[2]), onevar(t[3])]
    if t[0] in ("cmp", "call"):
        return [t[0], t[1], [onevar(x) for x in t[2]]]
    return t


def build_terms(ts, via, st, out, prefix):
    """Commands that put the terms into slots prefix0, prefix1, ...  ts: abstract terms"""
    for i, t in enumerate(ts):
        if via == "parse":
            # inside a statement, so that bare variables and one-component forms are possible
            l = term_line(["stm", "-->", t, ["atom", "zz"]])
            l["st"] = st
            out += [["parse", 0, "pp", q(lang.line_text(l))], ["term", "pp", "PP"], ["drop", "pp"], ["comp", "PP", 0, "%s%d" % (prefix, i)], ["tdrop", "PP"]]
        else:
            b = Builder(via, "stm" if via == "cmp" else "stmin")
            b.n = 1000 * (i + 1)
            n = lang.number_vars(t, [{}, {}, {}])
            for x in lang.subterms(n):
                if x[0] == "op" and x not in b.leaves:
                    s = "o%d_%d" % (i, len(b.leaves))
                    out += [["parse", 0, "pp", q("<^%s --> zz>." % x[1])], ["term", "pp", "PP"], ["drop", "pp"], ["comp", "PP", 0, s], ["tdrop", "PP"]]
                    b.leaves[x] = s
            n = expand(n)
            s = b.build(n, None)
            out += b.cmds
            out.append(["copyterm", s, "%s%d" % (prefix, i)])


def expand(n):
    """Abbreviated copulas spelled out."""
    if n[0] == "stm":
        c, s, p = n[1], expand(n[2]), expand(n[3])
        if c in ("{--", "{-]"):
            s = ("cmp", "{", (s,))
        if c in ("--]", "{-]"):
            p = ("cmp", "[", (p,))
        return ("stm", "-->" if c in ("{--", "--]", "{-]") else c, s, p)
    if n[0] == "cmp":
        return ("cmp", n[1], tuple(expand(x) for x in n[2]))
    return n


def c10(c, ctx, keep=False):
    arr = c["arr"]
    if not arr:
        raise Trivial()
    try:
        want = [lang.denote(t, keep=keep) for t in arr]
    except Unmodelled:
        raise Trivial()
    cmds = noise_cmds(c["noise"])
    ts = arr + ([c["other"]] if c["other"] else [])
    build_terms(ts, c["via"], c["st"], cmds, "x")
    n = len(cmds)
    names = ["x%d" % i for i in range(len(ts))]
    rs = ctx.run("term", cmds + [["cmpall"] + names] + [["tdump", x] for x in names])
    m, dumps = rs[n], rs[n + 1:]
    k = len(ts)
    for i, t in enumerate(arr):
        got = lang.from_dump(dumps[i])
        need(got == want[i], "%r (by %s) has the components\n  %r instead of\n  %r", text(t), c["via"], got, want[i])
        need(dumps[i]["k"] != "cmp" or dumps[i]["n"] == len(dumps[i]["t"]), "%r: wrong component count", text(t))
        for j in range(len(arr)):
            if want[i] == want[j]:
                need(m["eq"][i * k + j] == "1" and m["h"][i] == m["h"][j], "%r and %r are not equal", text(arr[i]), text(arr[j]))
    labels = {c["c"], c["via"]}
    if any(x[0] == "cmp" and x[1] == c["c"] for t in arr for x in t[2]):
        labels.add("nested")
    if c["other"]:
        w = lang.denote(c["other"])
        need((m["eq"][len(arr)] == "1") == (w == want[0]), "the sequences %r and %r are%s equal", text(arr[0]), text(c["other"]), "" if w != want[0] else " not")
        need(lang.from_dump(dumps[-1]) == w, "%r has the components %r", text(c["other"]), lang.from_dump(dumps[-1]))
    return labels


def text(t):
    return lang.conventional(_toks(t))


def _toks(t):
    out = []
    lang.tokens_term(t, lang.Style([]), out)
    return out


def leafop(t):
    return any(x[0] == "call" and not x[2] for x in lang.subterms(t))


def lists_as_products(t):
    """The connector of lists has no notation that can be parsed; it can be used with the constructors only."""
    if t[0] == "stm":
        return ["stm", t[1], lists_as_products(t[2]), lists_as_products(t[3])]
    if t[0] == "cmp":
        return ["cmp", "*" if t[1] == "#" else t[1], [lists_as_products(x) for x in t[2]]]
    return t


def v10(c):
    fix = (lambda t: t) if c["via"] == "parse" else lists_as_products
    return c["via"] in ("parse", "cmp", "cmpin") and isinstance(c["arr"], list) and all(lang.valid_term(fix(t)) and t[0] == "cmp" for t in c["arr"]) and (c["other"] is None or lang.valid_term(c["other"])) and isinstance(c["st"], list) and (c["via"] == "parse" or not any(leafop(t) for t in c["arr"] + ([c["other"]] if c["other"] else []))) and all(0 < x < 2000 for x in c["noise"])


def g10a(rng, tier):
    c = g10(rng, tier)
    return c if v10(c) else None


def g10b(rng, tier):
    """Connectors that keep their components exactly, with nested compounds of the same and other connectors."""
    cfg = gen.Cfg(rng)
    arr = []
    var = rng.choice([novar, onevar, lambda t: t])
    for _ in range(4):
        c = rng.choice(["*", "*", "-", "~", "/", "\\", "--", "&/", "&&", "{", "&|", "#"])
        k = {"-": 2, "~": 2, "--": 1}.get(c) or rng.choice([1, 2, 3, 5] if c in "*/\\{#" else [2, 3, 5])

        def sub():
            if rng.random() < 0.6:
                c2 = c if rng.random() < 0.5 else rng.choice(["*", "-", "~", "/", "\\", "--", "&/", "&&", "||", "&|", "{", "[", "#"])
                k2 = {"-": 2, "~": 2, "--": 1}.get(c2) or rng.choice([2, 3])
                return ["cmp", c2, [var(cfg.term(rng.choice([1, 1, 2, 3]))) for _ in range(k2)]]
            return var(cfg.term(1))
        arr.append(["cmp", c, [sub() for _ in range(k)]])
    lists = any(x[0] == "cmp" and x[1] == "#" for t in arr for x in lang.subterms(t))
    c = {"c": "kept", "arr": arr, "other": None, "via": rng.choice(["cmp", "cmpin"] if lists else ["parse", "cmp", "cmpin"]), "st": gen.style(rng, 30), "noise": noise(rng)}
    return c if v10(c) else None


class C10(Check):
    id = "C10"
    rule = "several arrangements (permuted, repeated, nested with the same connector) of one set or sequence of components, built by the parser and by the constructors, compared with each other and with the reference normal form; non-trivial: every distinct case"

    def subs(self):
        return [Sub("arrangements", g10a, c10, v10, 9000), Sub("kept", g10b, c10, v10, 4500)]

    def show(self, case):
        return case["via"] + " " + repr([text(t) for t in case["arr"]])


# ------------------------------------------------------------------ C11
def g11(rng, tier):
    cfg = gen.Cfg(rng, variables=rng.random() < 0.5)
    uni = [["atom", "e%d" % i] for i in range(rng.choice([1, 2, 3, 4, 6, 10] if rng.random() < 0.96 else [60]))]
    if rng.random() < 0.3:
        uni += [onevar(cfg.term(rng.choice([2, 3]))) for _ in range(2)]
    if rng.random() < 0.3:
        uni += [["var", k, "x"] for k in rng.sample(range(3), rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.1:
        uni += [onevar(cfg.leaf()) for _ in range(2)]
    c = rng.choice("&|")
    common = rng.sample(uni, min(len(uni), rng.choice([1, 1, 2, 3])))
    ts = []
    for _ in range(rng.choice([2, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.75:
            b = rng.choice(["{", "["]) if rng.random() < 0.5 else ("{" if c == "&" else "[")
            els = common + rng.sample(uni, rng.randint(0, len(uni) - 1)) if rng.random() < 0.8 else rng.sample(uni, rng.randint(1, len(uni)))
            els = list(els)
            rng.shuffle(els)
            ts.append(["cmp", b, els])
        else:
            ts.append(onevar(cfg.term(rng.choice([1, 2, 3]))))
    if rng.random() < 0.25 and len(ts) > 2:
        k = rng.randint(2, len(ts) - 1)
        ts = [["cmp", c, ts[:k]]] + ts[k:]
        if rng.random() < 0.5:
            rng.shuffle(ts)
    return {"c": c, "arr": [["cmp", c, ts], ["cmp", c, ts[::-1]], ["cmp", c, rng.sample(ts, len(ts))]], "other": None, "via": rng.choice(["parse", "cmp", "cmpin"]), "st": gen.style(rng, 30), "noise": noise(rng)}


def g11a(rng, tier):
    c = g11(rng, tier)
    try:
        [lang.denote(t) for t in c["arr"]]
    except Unmodelled:
        return None
    return c if v10(c) else None


def c11(c, ctx):
    labels = c10(c, ctx)
    for t in c["arr"]:
        for b in "{[":
            n = sum(1 for x in t[2] if x[0] == "cmp" and x[1] == b)
            if n > 1:
                labels.add("%d sets %s under %s" % (n, b, t[1]))
        d = lang.denote(t)
        labels.add("becomes a set" if d[1] in lang.SETS else "set beside other components")
    return labels


def g11b(rng, tier):
    """Families of sets of which at least one has no element common to all."""
    c = g11(rng, tier)
    if rng.random() < 0.7:
        # each set loses its share of the elements, so that small and large families are disjoint or nearly so
        for t in c["arr"][:1]:
            sets = [x for x in lang.subterms(t) if x[0] == "cmp" and x[1] in lang.SETS]
            for x in sets:
                if len(x[2]) > 1:
                    x[2][:] = [e for e in x[2] if rng.random() < 0.5] or x[2][:1]
    try:
        [lang.denote(t) for t in c["arr"]]
    except Unmodelled:
        return c if v10(c) else None
    return None


def c11b(c, ctx):
    labels = c10(c, ctx, True)
    labels.add("nothing in common")
    return labels


class C11(Check):
    id = "C11"
    rule = "intersections of random overlapping sets in random order and number, with and without other components, compared with set algebra on the elements; non-trivial: distinct cases of either kind, with an element common to all sets (algebra) or none (disjoint)"

    def subs(self):
        return [Sub("algebra", g11a, c11, v10, 15000), Sub("disjoint", g11b, c11b, v10, 5000)]

    def show(self, case):
        return case["via"] + " " + repr([text(t) for t in case["arr"]])


# ------------------------------------------------------------------ C12, C13
def tweak(rng, t, cfg):
    """A near relative of a term."""
    k = t[0]
    r = rng.random()
    if k == "stm":
        if r < 0.25:
            return ["stm", t[1], t[3], t[2]]
        if r < 0.5:
            return ["stm", rng.choice(lang.CORE_COPULAS), t[2], t[3]]
        if r < 0.75:
            return ["stm", t[1], tweak(rng, t[2], cfg), t[3]]
        return ["stm", t[1], t[2], tweak(rng, t[3], cfg)]
    if k == "call":
        return ["call", t[1] if r < 0.5 else rng.choice(cfg.opnames), t[2][::-1]]
    if k == "cmp":
        n = len(t[2])
        if r < 0.2 and n > 1:
            x = list(t[2])
            rng.shuffle(x)
            return ["cmp", t[1], x]
        if r < 0.4:
            fam = [lang.MULTI + ["*"], lang.SINGLE, lang.SETS, lang.IMAGES]
            for f in fam:
                if t[1] in f and not (n == 1 and t[1] == "*"):
                    return ["cmp", rng.choice(f), t[2]]
        if r < 0.55 and n > 1 and t[1] not in lang.SINGLE:
            x = list(t[2])
            x.insert(rng.randrange(n + 1), rng.choice(x))
            return ["cmp", t[1], x]
        if r < 0.65 and n > 2:
            x = list(t[2])
            del x[rng.randrange(n)]
            return ["cmp", t[1], x]
        if n:
            i = rng.randrange(n)
            return ["cmp", t[1], t[2][:i] + [tweak(rng, t[2][i], cfg)] + t[2][i + 1:]]
        return t
    if k == "int":
        return ["int", t[1] + rng.choice([-1, 1])] if abs(t[1]) < 2**30 else ["int", 0]
    if k == "var":
        return ["var", rng.randrange(3), t[2]] if r < 0.5 else ["var", t[1], rng.choice(cfg.vnames)]
    return cfg.leaf() if r < 0.7 else ["op" if k == "atom" else "atom", t[1]]


def many_variables(rng, cfg):
    """A term that numbers several variables and then uses them: near relatives of it have equal hashes."""
    n = rng.choice([2, 3, 5, 9, 12, 18, 34])
    cfg.vnames = ["v%d" % i for i in range(n)]
    k = rng.randrange(3)
    var = lambda: ["var", k if rng.random() < 0.9 else rng.randrange(3), rng.choice(cfg.vnames)]
    first = ["cmp", "*", [["var", k, v] for v in cfg.vnames]]
    r = rng.random()
    if r < 0.4:
        use = ["cmp", rng.choice(["*", "&&", "&/", "{", "&"]), [var() for _ in range(rng.choice([2, 3, 6]))]]
    elif r < 0.8:
        use = ["stm", rng.choice(lang.CORE_COPULAS), var(), var()]
        if rng.random() < 0.5:
            use = ["stm", rng.choice(lang.CORE_COPULAS), use, ["stm", rng.choice(lang.CORE_COPULAS), var(), var()]]
    else:
        use = var()
    return ["stm", "-->", first, use] if rng.random() < 0.5 else ["cmp", "*", first[2] + [use]]


def g12vars(rng, tier):
    """Terms over more variables than a byte (and, in two cases of five, little more than none) can number, that
    differ in the numbers of a few of them."""
    cfg = gen.Cfg(rng)
    n = rng.choice([257, 258, 300, 513, 20])
    names = ["v%d" % i for i in range(n)]
    k = rng.randrange(3)
    first = [["var", k, v] for v in names]
    i = rng.randrange(n)
    near = [j % n for j in (i + 256, i - 256, i + 255, i + 257, i + 128, i + 1, i + 512, rng.randrange(n))]
    con = rng.choice(["*", "&&", "&/", "{", "&"])
    cop = rng.choice(lang.CORE_COPULAS)
    deep = rng.random() < 0.5
    wrap = rng.choice(["*", "-->"])
    vs = [i] + rng.sample(near, rng.choice([1, 2, 3]))
    if rng.random() < 0.6:
        vs[1] = (i + 256) % n
    fixed = rng.randrange(n)
    mode = rng.choice("vsc")
    items = []
    for j in vs:
        v = ["var", k, names[j]]
        use = v if mode == "v" else ["stm", cop, v, ["var", k, names[fixed]]] if mode == "s" else ["cmp", con, [["var", k, names[fixed]], v, ["atom", "a"]]]
        if deep:
            use = ["cmp", "*", [["atom", "b"], use]]
        t = ["stm", "-->", ["cmp", "*", first], use] if wrap == "-->" else ["cmp", "*", first + [use]]
        items.append([rng.choice(["parse", "parse", "clone"]), t, []])
    if rng.random() < 0.3:
        items.append(items[0])
    c = {"items": items, "noise": [3]}
    return c if v12(c) else None


def g12(rng, tier):
    cfg = gen.Cfg(rng)
    cfg.pi = rng.choice([0, 0.1, 0.3])
    ts = []
    base = [many_variables(rng, cfg)] if rng.random() < 0.1 else [cfg.term(gen.sizes(rng) if rng.random() < 0.5 else rng.choice([2, 3, 4])) for _ in range(rng.choice([1, 2, 4]))]
    if rng.random() < 0.03:
        base.append(gen.wide(rng, cfg, rng.choice([20, 60])))
    for _ in range(rng.choice([3, 8, 14, 24])):
        t = rng.choice(base + ts[-3:])
        r = rng.random()
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            t = tweak(rng, t, cfg)
        if lang.size(t) < 80 and lang.valid_term(t):
            ts.append(t)
    items = []
    for t in ts:
        try:
            lang.denote(t)
        except Unmodelled:
            continue
        via = rng.choice(["parse", "parse", "cmp", "cmpin", "clone", "deep"])
        if via in ("cmp", "cmpin") and leafop(t):
            via = "parse"
        items.append([via, t, gen.style(rng, 10)])
    return {"items": items, "noise": noise(rng)} if len(items) > 1 else None


def v12(c):
    try:
        for via, t, st in c["items"]:
            if via not in ("parse", "cmp", "cmpin", "clone", "deep") or not lang.valid_term(t) or not isinstance(st, list):
                return False
            if via in ("cmp", "cmpin") and leafop(t):
                return False
            lang.denote(t)
        return len(c["items"]) > 0 and all(0 < x < 2000 for x in c["noise"])
    except (Unmodelled, ValueError, TypeError):
        return False


def build_items(c, cmds):
    names, want = [], []
    for i, (via, t, st) in enumerate(c["items"]):
        pre = "x%d_" % i
        one = []
        build_terms([t], "parse" if via in ("clone", "deep") else via, st, one, pre)
        # rename the builder's slots so that items do not share them
        cmds += [[w if j == 0 or not isinstance(w, str) or not (w.startswith("k1") or w.startswith("o0_")) else "i%d%s" % (i, w) for j, w in enumerate(x)] for x in one]
        s = pre + "0"
        if via in ("clone", "deep"):
            cmds.append([via, s, s + "c"])
            cmds.append(["tdrop", s])
            s += "c"
        names.append(s)
        want.append(lang.denote(t))
    return names, want


def matrix(c, ctx, more=()):
    cmds = noise_cmds(c["noise"])
    names, want = build_items(c, cmds)
    n = len(cmds)
    rs = ctx.run("term", cmds + [["cmpall"] + names] + [["tdump", x] for x in names] + list(more))
    k = len(names)
    got = [lang.from_dump(d) for d in rs[n + 1:n + 1 + k]]
    return names, want, got, rs[n], rs[n + 1 + k:]


def c12(c, ctx):
    names, want, got, m, _ = matrix(c, ctx)
    k = len(names)
    labels = set()
    tx = lambda i: "%s (%s)" % (text(c["items"][i][1]), c["items"][i][0])
    for i in range(k):
        for j in range(k):
            e = m["eq"][i * k + j] == "1"
            same = want[i] == want[j]
            need(e == same, "%s and %s are%s equal", tx(i), tx(j), "" if e else " not")
            if same:
                need(m["h"][i] == m["h"][j], "%s and %s are equal but their hashes differ", tx(i), tx(j))
                if i != j:
                    labels.add("equal pair")
            else:
                labels.add("different pair")
    for via, t, st in c["items"]:
        labels.add(via)
    return labels


def c13(c, ctx):
    names, want, got, m, _ = matrix(c, ctx)
    k = len(names)
    lt = lambda i, j: m["lt"][i * k + j] == "1"
    tx = lambda i: "%s (%s)" % (text(c["items"][i][1]), c["items"][i][0])
    labels = set()
    for i in range(k):
        need(not lt(i, i), "%s is less than itself", tx(i))
        for j in range(k):
            need(not (lt(i, j) and lt(j, i)), "%s and %s are each less than the other", tx(i), tx(j))
            need((not lt(i, j) and not lt(j, i)) == (want[i] == want[j]), "%s and %s are unordered but different, or equal and ordered", tx(i), tx(j))
    # transitivity: a strict weak order is the order of the numbers of smaller elements
    below = [sum(lt(j, i) for j in range(k)) for i in range(k)]
    for i in range(k):
        for j in range(k):
            if lt(i, j) != (below[i] < below[j]):
                for h in range(k):
                    need(not (lt(i, j) and lt(j, h)) or lt(i, h), "%s < %s < %s but not the first < the last", tx(i), tx(j), tx(h))
                    need(not (lt(h, i) and lt(i, j)) or lt(h, j), "%s < %s < %s but not the first < the last", tx(h), tx(i), tx(j))
                raise Violation("the order of %s and %s is not part of a strict weak order" % (tx(i), tx(j)))
    labels.add("terms>=8" if k >= 8 else "terms<8")
    return labels


CONNECTOR_NAMES = lang.MULTI + lang.SINGLE + lang.SETS + lang.IMAGES + ["*", "--"]


# terms with equal hashes: the hash of an interval, and so of terms of intervals, depends on small numbers only
def g_collide(rng, tier):
    forms = []

    def node(depth, parent=None):
        r = rng.random()
        if depth == 0 or (parent and r < 0.35):
            return ["_"]
        how = rng.choice(["", "i"])
        if r < 0.55:
            return ["s%s:%s" % (how, rng.choice(lang.CORE_COPULAS))] + node(depth - 1, "s") + node(depth - 1, "s")
        con = rng.choice([x for x in CONNECTOR_NAMES if x != parent and not (parent in ("&", "|") and x in "{[")])
        n = 1 if con == "--" else 2 if con in "-~" else rng.choice([1, 2, 3]) if con in "{[" else rng.choice([2, 2, 2, 3])
        out = ["c%s:%s:%d" % (how, con, n)]
        for _ in range(n):
            out += node(depth - 1, con)
        return out
    for _ in range(rng.choice([1, 1, 2, 3])):
        forms.append(" ".join(node(rng.choice([0, 1, 1, 1, 2]))))
    if rng.random() < 0.3:
        forms.append("_")
    lo = rng.choice([0, 1, -200, -40, rng.randrange(-2**31, 2**31 - 3000)])
    return {"lo": lo, "hi": lo + rng.choice([3, 20, 64, 150, 400, 900]), "vars": rng.choice([0, 0, 1, 2, 4]), "seed": rng.randrange(10**6), "count": rng.choice([100, 400, 900, 1500]), "forms": forms}


def v_collide(c):
    try:
        for f in c["forms"]:
            ws = f.split(" ")

            def eat(i, parent):
                w = ws[i]
                i += 1
                if w == "_":
                    return i
                k, rest = w.split(":", 1)
                if k in ("s", "si"):
                    if rest not in lang.CORE_COPULAS:
                        raise ValueError
                    return eat(eat(i, "s"), "s")
                con, n = rest.rsplit(":", 1)
                if k not in ("c", "ci") or con not in CONNECTOR_NAMES or con == parent or parent in ("&", "|") and con in "{[" or not 0 < int(n) < 5 or (int(n) != 1 if con == "--" else int(n) != 2 if con in "-~" else int(n) < 2 and con not in "{["):
                    raise ValueError
                for _ in range(int(n)):
                    i = eat(i, con)
                return i
            if eat(0, None) != len(ws):
                return False
        return bool(c["forms"]) and -2**31 <= c["lo"] < c["hi"] <= 2**31 - 1 and c["hi"] - c["lo"] <= 1000 and 0 <= c["vars"] <= 10 and 0 <= c["count"] <= 3000 and c["seed"] >= 0
    except (ValueError, IndexError, AttributeError, TypeError):
        return False


def c_collide(c, ctx):
    r = ctx.run("term", [["collide", c["lo"], c["hi"], c["vars"], c["seed"], c["count"]] + [q(f) for f in c["forms"]]])[0]
    need(not r["bad"], "%s", "; ".join(r["bad"]))
    need(r["held"] == r["distinct"], "%d terms, %d of them different, make an unordered collection of %d", r["terms"], r["distinct"], r["held"])
    if not r["terms"]:
        raise Trivial()
    return {"different terms with equal hashes" if r["collisions"] else "different hashes"} | ({"variables"} if c["vars"] else set())


def g13sets(rng, tier):
    c = g12(rng, tier)
    if c is None:
        return None
    n = len(c["items"])
    colls = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        com = 1 if rng.random() < 0.85 else 0
        colls.append([com, rng.choice(["push", "vector", "list", "copy", "braces"] + (["set"] if com else [])), [rng.randrange(n) for _ in range(rng.choice([0, 1, 2, 5, 9, 20]))]])
    c["colls"] = colls
    c["ops"] = [[rng.choice(["and", "or", "minus"]), [rng.randrange(len(colls)) for _ in range(rng.choice([1, 2, 2, 3]))]] for _ in range(4)]
    return c


def c13sets(c, ctx):
    more = []
    for i, (com, how, els) in enumerate(c["colls"]):
        more.append(["coll", "c%d" % i, com, how] + [None if False else els])
    cmds = noise_cmds(c["noise"])
    names, want = build_items(c, cmds)
    n = len(cmds)
    for i, (com, how, els) in enumerate(c["colls"]):
        cmds.append(["coll", "c%d" % i, com, how] + [names[e] for e in els])
    model_colls = []
    labels = set()
    ops = []
    for i, (op, cs) in enumerate(c["ops"]):
        cs = [x for x in cs if c["colls"][x][0]]
        if not cs:
            continue
        ops.append((op, cs))
        cmds.append(["setop", "r%d" % i, op] + ["c%d" % x for x in cs])
    cmds += [["collout", "c%d" % i] for i in range(len(c["colls"]))]
    rs = ctx.run("term", cmds)[n:]
    byname = dict(zip(names, want))

    def content(r):
        out = []
        for ns in r["t"]:
            vs = {byname[x] for x in ns if x in byname}
            need(len(vs) == 1, "an element of a collection equals %d different terms", len(vs))
            out.append(vs.pop())
        need(not r["walks"], "walking a collection of %d elements: %s", len(out), r["walks"])
        need(r["n"] == len(out), "a collection of %d elements says it has %d", len(out), r["n"])
        return out
    for i, (com, how, els) in enumerate(c["colls"]):
        for r in (rs[i], rs[len(c["colls"]) + len(ops) + i]):
            got = content(r)
            vals = [want[e] for e in els]
            if com:
                need(sorted(map(lang.keyof, got)) == sorted(set(map(lang.keyof, vals))), "an unordered collection filled (by %s) with %s holds %s", how, vals, got)
            else:
                need(got == vals, "an ordered collection filled (by %s) with %s holds %s", how, vals, got)
        model_colls.append(set(want[e] for e in els))
        labels.add(how)
    for (op, cs), r in zip(ops, rs[len(c["colls"]):]):
        v = set(model_colls[cs[0]])
        for x in cs[1:]:
            v = v & model_colls[x] if op == "and" else v | model_colls[x] if op == "or" else v - model_colls[x]
        got = content(r)
        need(sorted(map(lang.keyof, got)) == sorted(map(lang.keyof, v)), "%s of %s gives %s", op, [sorted(map(lang.keyof, model_colls[x])) for x in cs], got)
        labels.add(op + " of %d" % len(cs))
    if not c["colls"]:
        raise Trivial()
    return labels


def v13sets(c):
    if not v12(c):
        return False
    n = len(c["items"])
    try:
        return all(com in (0, 1) and how in ("push", "vector", "list", "copy", "braces", "set") and (com or how != "set") and all(e in range(n) for e in els) for com, how, els in c["colls"]) and all(op in ("and", "or", "minus") and cs and all(x in range(len(c["colls"])) for x in cs) for op, cs in c["ops"])
    except (ValueError, TypeError):
        return False


def show_items(case):
    r = repr([(v, text(t)) for v, t, s in case["items"]])
    if "colls" in case:
        r += " collections %r operations %r" % (case["colls"], case["ops"])
    return r


class C12(Check):
    id = "C12"
    rule = "families of closely related terms (operands swapped, repeated or dropped, copulas, connectors, variable kinds and names changed), built by the parser, the constructors and by cloning, compared pairwise with equality of reference normal forms, and many terms over variables and intervals, among them those whose hashes collide, compared in bulk; non-trivial: every distinct family of at least two terms"

    def subs(self):
        return [Sub("pairs", g12, c12, v12, 5500), Sub("many variables", g12vars, c12, v12, 250), Sub("collisions", g_collide, c_collide, v_collide, 1200)]

    def show(self, case):
        return show_items(case) if "items" in case else repr(case)


class C13(Check):
    id = "C13"
    rule = "the same families of related terms: order axioms over all pairs and triples, random collections, every way of walking them, and set operations against mathematical sets, and order and collections over many terms with equal hashes; non-trivial: every distinct case"

    def subs(self):
        return [Sub("order", g12, c13, v12, 3000), Sub("many variables", g12vars, c13, v12, 250), Sub("collections", g13sets, c13sets, v13sets, 3500), Sub("collisions", g_collide, c_collide, v_collide, 800)]

    def show(self, case):
        return show_items(case) if "items" in case else repr(case)


# ------------------------------------------------------------------ C14
def g14(rng, tier):
    cfg = gen.Cfg(rng)
    cfg.pv = rng.choice([0, 0.3, 0.6])
    t = gen.term(rng, cfg, 0.05)
    via = rng.choice(["parse", "parse", "cmp", "cmpin"])
    if via != "parse" and leafop(t):
        via = "parse"
    return {"t": t, "via": via, "how": rng.choice(["clone", "clone", "deep"]), "sub": rng.randrange(4), "sets": [[rng.randrange(2), rng.randrange(3), rng.randrange(40), rng.choice([0, 1, 2, 7, 50, 1000])] for _ in range(rng.choice([0, 1, 3, 6]))], "noise": noise(rng), "st": gen.style(rng, 20)}


def c14(c, ctx):
    cmds = noise_cmds(c["noise"])
    build_terms([c["t"]], c["via"], c["st"], cmds, "x")
    obs = lambda s: [["tdumpx", s], ["tprint", s]]
    n = len(cmds)
    base = cmds + obs("x0") + [[c["how"], "x0", "y"]] + obs("x0") + obs("y") + [["cmpall", "x0", "y"]]
    rs = ctx.run("term", base)[n:]
    d0, p0, _, d1, p1, dy, py, m = rs
    tx = text(c["t"])
    need(d0 == d1 and p0 == p1, "copying changes the original of %r", tx)
    need(m["eq"] == "1111" and m["lt"] == "0000" and m["h"][0] == m["h"][1], "a copy (%s) of %r is not equal to it", c["how"], tx)
    need(dy == d0 and py == p0, "a copy (%s) of %r differs: %s instead of %s", c["how"], tx, diff(dy, d0), p0)
    labels = {c["how"], c["via"]}
    # renumbering the variables of one leaves the other alone
    occ = {k: d0["ix"][k][0] for k in range(3)}
    seq = []
    for which, kind, o, v in c["sets"]:
        if not occ[kind]:
            continue
        o %= len(occ[kind])
        s = ("x0", "y")[which]
        seq.append((s, kind, o, v))
        labels.add("renumbered")
    if seq:
        extra = []
        for s, k, o, v in seq:
            extra += [["setvar", s, k, o, v], ["tdumpx", "x0"], ["tdumpx", "y"]]
        rs = ctx.run("term", base + extra)
        # the order inside unordered compounds depends on addresses: take the numbers of this very run
        occ = {k: rs[n]["ix"][k][0] for k in range(3)}
        rs = rs[len(base):]
        cur = {"x0": {k: list(v) for k, v in occ.items()}, "y": {k: list(v) for k, v in occ.items()}}
        for i, (s, k, o, v) in enumerate(seq):
            cur[s][k][o] = v
            for name, d in (("x0", rs[3 * i + 1]), ("y", rs[3 * i + 2])):
                got = {kk: d["ix"][kk][0] for kk in range(3)}
                need(got == cur[name], "after renumbering variable %d of kind %s in the %s of %r, the %s has the numbers %s instead of %s", o, lang.VARS[k], "original" if s == "x0" else "copy", tx, "original" if name == "x0" else "copy", got, cur[name])
                # the numbers at the leaves follow, in component order
                lv = {0: [], 1: [], 2: []}
                for kk, num in var_dumps(d, []):
                    lv[kk].append(num)
                need(lv == cur[name], "after renumbering variable %d of kind %s in the %s of %r, the variables inside the %s are %s instead of %s", o, lang.VARS[k], "original" if s == "x0" else "copy", tx, "original" if name == "x0" else "copy", lv, cur[name])
    labels |= shape(c["t"])
    return labels


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: diff(a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
    return (a, b)


def v14(c):
    try:
        lang.denote(c["t"])
        return lang.valid_term(c["t"]) and c["via"] in ("parse", "cmp", "cmpin") and (c["via"] == "parse" or not leafop(c["t"])) and c["how"] in ("clone", "deep") and isinstance(c["st"], list) and all(len(s) == 4 and s[0] in (0, 1) and s[1] in (0, 1, 2) and s[2] >= 0 and s[3] >= 0 for s in c["sets"]) and all(0 < x < 2000 for x in c["noise"])
    except (Unmodelled, TypeError):
        return False


def g14parts(rng, tier):
    cfg = gen.Cfg(rng)
    cfg.pv = rng.choice([0.3, 0.6])
    cfg.pi = 0
    for _ in range(10):
        con = rng.choice(lang.CORE_COPULAS) if rng.random() < 0.4 else rng.choice(["*", "*", "&&", "||", "&/", "&|", "&", "|", "{", "[", "-", "~", "/", "--"])
        n = 2 if con in lang.CORE_COPULAS or con in "-~" else 1 if con == "--" else rng.choice([1, 2, 3]) if con in "{[" else rng.choice([2, 2, 3, 5])
        ts = [cfg.term(rng.choice([1, 2, 3, 3, 5])) for _ in range(n)]
        c = {"con": con, "ts": ts, "st": gen.style(rng, 20), "deep": rng.randrange(2),
             "sets": [[rng.randrange(n + 1), rng.randrange(3), rng.randrange(40), rng.choice([0, 1, 2, 7, 50, 1000])] for _ in range(rng.choice([2, 4, 8]))]}
        if any(x[0] == "var" for t in ts for x in lang.subterms(t)) and v14parts(c):
            return c
    return None


def v14parts(c):
    try:
        n = len(c["ts"])
        if not n or c["deep"] not in (0, 1) or not isinstance(c["st"], list) or not all(lang.valid_term(t) for t in c["ts"]):
            return False
        for t in c["ts"]:
            lang.denote(t)
        t = ["stm", c["con"], c["ts"][0], c["ts"][1]] if c["con"] in lang.CORE_COPULAS else ["cmp", c["con"], c["ts"]]
        return (n == 2 if c["con"] in lang.CORE_COPULAS else lang.valid_term(t)) and all(len(s) == 4 and 0 <= s[0] <= n and s[1] in (0, 1, 2) and s[2] >= 0 and s[3] >= 0 for s in c["sets"])
    except (Unmodelled, TypeError, IndexError):
        return False


def c14parts(c, ctx):
    """A term built from copies of its components (what the constructors do unless told otherwise) and the components:
    renumbering a variable of one leaves the others as they were."""
    cmds = []
    build_terms(c["ts"], "parse", c["st"], cmds, "x")
    parts = ["x%d" % i for i in range(len(c["ts"]))]
    if c["con"] in lang.CORE_COPULAS:
        cmds.append(["stm", "y", q(c["con"])] + parts)
    else:
        cmds.append(["cmp", "y", c["con"]] + parts)
    names = parts + ["y"]
    if c["deep"]:
        cmds.append(["cmp", "y", "*", "y", "y"])
    look = [["tdumpx", x] for x in names]
    n = len(cmds)
    first = ctx.run("term", cmds + look)[n:]
    # how many occurrences each has; their order may differ from run to run
    count = [[len(d["ix"][k][0]) for k in range(3)] for d in first]
    seq = [(w, k, o % count[w][k], v) for w, k, o, v in c["sets"] if count[w][k]]
    if not seq:
        raise Trivial()
    extra = []
    for w, k, o, v in seq:
        extra += [["setvar", names[w], k, o, v]] + look
    rs = ctx.run("term", cmds + look + extra)[n:]
    m = len(names)
    cur, rs = rs[:m], rs[m:]
    labels = {c["con"]}
    for i, (w, k, o, v) in enumerate(seq):
        now = rs[i * (m + 1) + 1:(i + 1) * (m + 1)]
        for j in range(m):
            if j != w:
                need(now[j] == cur[j], "the components %s make a term with %s; renumbering variable %d of kind %s in %s changes %s: %s", [text(t) for t in c["ts"]], c["con"], o, lang.VARS[k],
                     "the term" if w == m - 1 else "component %d" % w, "the term" if j == m - 1 else "component %d" % j, diff(cur[j], now[j]))
        cur = now
        labels.add("in the term" if w == m - 1 else "in a component")
    return labels


class C14(Check):
    id = "C14"
    rule = "random terms, copied by the two ways of cloning, observed completely (structure, flags, complexity, hash, variable index, text), then variables of either renumbered one by one; terms built from copies of components, then variables of either renumbered; non-trivial: every distinct case"

    def subs(self):
        return [Sub("copies", g14, c14, v14, 8000), Sub("components", g14parts, c14parts, v14parts, 4000)]

    def show(self, case):
        if "ts" in case:
            return "%s of %s renumber %r" % (case["con"], [text(t) for t in case["ts"]], case["sets"])
        return "%s, by %s, %s, renumber %r" % (text(case["t"]), case["via"], case["how"], case["sets"])


# ------------------------------------------------------------------ C16, C17
def g16(rng, tier):
    items = []
    for _ in range(rng.choice([1, 2, 4])):
        cfg = gen.Cfg(rng)
        cfg.pv = rng.choice([0, 0.3, 0.6])
        cfg.po = rng.choice([0, 0.1, 0.3])
        t = gen.term(rng, cfg, 0.05)
        if rng.random() < 0.15:
            t = ["stm", rng.choice(["-->", "-->", "<->", "==>"]), ["cmp", rng.choice(["*", "*", "*", "&&", "&/", "{"]), [cfg.term(1), cfg.term(2)]], rng.choice([["op", "go"], ["op", "go"], ["atom", "go"], ["cmp", "--", [["op", "go"]]]])]
        try:
            lang.denote(t)
        except Unmodelled:
            continue
        via = rng.choice(["parse", "parse", "cmp", "cmpin", "clone", "deep"])
        if via in ("cmp", "cmpin") and leafop(t):
            via = "parse"
        items.append([via, t, gen.style(rng, 10)])
    return {"items": items, "noise": noise(rng)} if items else None


FLAGS = ["is_var", "is_ivar", "is_dvar", "is_qvar", "has_var", "has_ivar", "has_dvar", "has_qvar", "is_interval", "is_operation", "is_higher_order", "is_atom", "is_statement", "is_compound"]


def derived(n):
    """Expected flags of a normal form."""
    vs = {x[1] for x in lang.subterms(n) if x[0] == "var"}
    f = dict(is_var=n[0] == "var", is_ivar=n[0] == "var" and n[1] == 0, is_dvar=n[0] == "var" and n[1] == 1, is_qvar=n[0] == "var" and n[1] == 2,
             has_var=bool(vs), has_ivar=0 in vs, has_dvar=1 in vs, has_qvar=2 in vs, is_interval=n[0] == "int",
             is_atom=n[0] not in ("stm", "cmp"), is_statement=n[0] == "stm", is_compound=n[0] == "cmp")
    f["is_operation"] = n[0] == "op" or (n[0] == "stm" and n[1] == "-->" and n[2][0] == "cmp" and n[2][1] == "*" and n[3][0] == "op")
    f["is_higher_order"] = n[0] == "stm" and n[1] in lang.HIGHER
    return f


def walk16(d, tx):
    n = lang.from_dump(d)
    want = derived(n)
    got = {k: d["f"][i] == "1" for i, k in enumerate(FLAGS)}
    bad = {k: got[k] for k in FLAGS if got[k] != want[k]}
    need(not bad, "%s: the part %r has wrong flags %s", tx, n, bad)
    need(d["cx"] == lang.complexity(n), "%s: the part %r has complexity %d instead of %d", tx, n, d["cx"], lang.complexity(n))
    if d["k"] == "stm":
        need(d["com"] == (d["c"] in lang.SYM_COPULAS), "%s: the statement %r is marked commutative: %s", tx, n, d["com"])
        walk16(d["s"], tx)
        walk16(d["p"], tx)
    elif d["k"] == "cmp":
        need(d["com"] == (d["c"] in lang.COMMUTATIVE), "%s: the compound %r is marked commutative: %s", tx, n, d["com"])
        for x in d["t"]:
            walk16(x, tx)


def dumps16(c, ctx):
    cmds = noise_cmds(c["noise"])
    names, want = build_items(c, cmds)
    n = len(cmds)
    rs = ctx.run("term", cmds + [["tdumpx", x] for x in names])[n:]
    for (via, t, st), w, d in zip(c["items"], want, rs):
        tx = "%s (%s)" % (text(t), via)
        need(lang.from_dump(d) == w, "%s is\n  %r instead of\n  %r", tx, lang.from_dump(d), w)
        yield tx, via, t, d


def c16(c, ctx):
    labels = set()
    for tx, via, t, d in dumps16(c, ctx):
        walk16(d, tx)
        labels |= shape(t)
        labels.add(via)
    if not labels:
        raise Trivial()
    return labels


def occurrences(d, kind, path=()):
    if d["k"] == "var":
        return [(path, d["i"])] if d["v"] == kind else []
    if d["k"] == "stm":
        return occurrences(d["s"], kind, path + (0,)) + occurrences(d["p"], kind, path + (1,))
    if d["k"] == "cmp":
        out = []
        for i, x in enumerate(d["t"]):
            out += occurrences(x, kind, path + (i,))
        return out
    return []


def walk17(d, tx):
    for k in range(3):
        idx, pos, norm = d["ix"][k]
        occ = occurrences(d, k)
        what = "%s: the index of '%s' variables of the part %r" % (tx, lang.VARS[k], lang.from_dump(d))
        need(idx == [i for _, i in occ], "%s lists the numbers %s instead of %s", what, idx, [i for _, i in occ])
        if d["k"] != "var":
            need([tuple(p) for p in pos] == [p for p, _ in occ], "%s lists the positions %s instead of %s", what, pos, [p for p, _ in occ])
        rank = {v: i for i, v in enumerate(sorted(set(idx)))}
        if d["k"] != "var" and occ:
            need(norm == [rank[i] for i in idx], "%s normalises %s to %s", what, idx, norm)
    for x in ([d["s"], d["p"]] if d["k"] == "stm" else d["t"] if d["k"] == "cmp" else []):
        walk17(x, tx)


def c17(c, ctx):
    labels = set()
    nv = 0
    for tx, via, t, d in dumps16(c, ctx):
        walk17(d, tx)
        n = sum(len(d["ix"][k][0]) for k in range(3))
        nv += n
        labels.add(via)
        labels.add("occurrences 0" if n == 0 else "occurrences 1-4" if n < 5 else "occurrences 5-19" if n < 20 else "occurrences >=20")
    if not nv:
        raise Trivial()
    return labels


BIG16 = ["*", "*", "/", "\\", "-", "~", "--", "{", "[", "&&", "||", "&|", "-->", "<->", "==>", "<=>", "=/>", "</>"]


def g16big(rng, tier):
    """Terms of great complexity: every step uses earlier terms, some of them several times."""
    steps, cx = [], [1, 1, 1]
    var = rng.choice([None, None, 0, 1, 2])
    for _ in range(rng.choice([8, 16, 25, 40])):
        c = rng.choice(BIG16)
        n = len(cx)
        k = 2 if c in lang.COPULAS or c in "-~" else 1 if c == "--" else rng.choice([2, 2, 3, 5, 17])
        near = lambda: n - 1 - min(int(rng.expovariate(0.7)), n - 1)
        xs = [near() for _ in range(k)]
        if c in lang.COMMUTATIVE or c in lang.COPULAS: # distinct ones
            xs = list(dict.fromkeys(xs))
            xs += [i for i in range(n) if i not in xs][:k - len(xs)]
            k = len(xs)
            if c in lang.COMMUTATIVE and any(i >= 3 and steps[i - 3][0] == c for i in xs) or k < 2:
                continue
        total = sum(cx[i] for i in xs) + (c in lang.COPULAS)
        if total >= 2**31:
            continue
        steps.append([c, xs])
        cx.append(total)
    return {"steps": steps, "var": var, "via": rng.choice(["cmp", "cmpin"])} if steps else None


def v16big(c):
    try:
        n = 3
        cx = [1, 1, 1]
        for con, xs in c["steps"]:
            if con not in BIG16 or not all(isinstance(i, int) and 0 <= i < n for i in xs):
                return False
            if len(xs) != 2 if con in lang.COPULAS or con in "-~" else len(xs) != 1 if con == "--" else len(xs) < 2:
                return False
            if (con in lang.COMMUTATIVE or con in lang.COPULAS) and len(set(xs)) < len(xs):
                return False
            if con in lang.COMMUTATIVE and any(i >= 3 and c["steps"][i - 3][0] == con for i in xs):
                return False
            cx.append(sum(cx[i] for i in xs) + (con in lang.COPULAS))
            if cx[-1] >= 2**31:
                return False
            n += 1
        return n > 3 and c["var"] in (None, 0, 1, 2) and c["via"] in ("cmp", "cmpin")
    except (TypeError, ValueError, IndexError):
        return False


def c16big(c, ctx):
    cmds = [["atom", "b0", "a"], ["atom", "b1", "b"], ["atom", "b2", "c"]]
    # equal terms made by different steps count once in an unordered compound
    ids, known, sz, want = [0, 1, 2], {}, {0: 1, 1: 1, 2: 1}, []
    for con, xs in c["steps"]:
        kids = [ids[i] for i in xs]
        com = con in lang.COMMUTATIVE or con in lang.SYM_COPULAS
        if con in lang.COMMUTATIVE and len(set(kids)) < len(kids):
            raise Trivial()
        key = (con, tuple(sorted(kids) if com else kids))
        if key not in known:
            known[key] = len(known) + 3
            sz[known[key]] = sum(sz[k] for k in kids) + (con in lang.COPULAS)
        n = len(ids)
        ids.append(known[key])
        st = "stm" if con in lang.COPULAS else c["via"]
        if c["via"] == "cmpin" and st == "stm":
            st = "stmin"
        cmds.append([st, "b%d" % n, q(con)] + ["b%d" % i for i in xs])
        cmds.append(["attrs", "b%d" % n])
        want.append((len(cmds) - 1, con, sz[ids[-1]], None))
    if c["var"] is not None:
        cmds += [["var", "v", c["var"], 0], [c["via"], "w", q("*"), "b%d" % (len(ids) - 1), "v"], ["attrs", "w"]]
        want.append((len(cmds) - 1, "*", sz[ids[-1]] + 1, c["var"]))
    rs = ctx.run("term", cmds)
    top = 0
    for i, con, cx, var in want:
        d = rs[i]
        need(d["cx"] == cx, "a term by %s of complexity %d has complexity %d", con, cx, d["cx"])
        got = {k: d["f"][j] == "1" for j, k in enumerate(FLAGS)}
        exp = dict.fromkeys(FLAGS, False)
        exp["is_statement"] = con in lang.COPULAS
        exp["is_compound"] = not exp["is_statement"]
        exp["is_higher_order"] = con in lang.HIGHER
        if var is not None:
            exp["has_var"] = exp[("has_ivar", "has_dvar", "has_qvar")[var]] = True
        need(got == exp, "a term by %s of complexity %d has the flags %s", con, cx, [k for k in FLAGS if got[k]])
        need(d["com"] == (con in lang.COMMUTATIVE or con in lang.SYM_COPULAS), "a term by %s is marked commutative: %s", con, d["com"])
        top = max(top, cx)
    return {"complexity below 2^%d" % (8 * ((top.bit_length() + 7) // 8)), c["via"]}


class C16(Check):
    id = "C16"
    rule = "random terms built by the parser, the constructors and by cloning; complexity and flags of every subterm compared with those computed from the dumped structure; non-trivial: every distinct case"

    def subs(self):
        return [Sub("attributes", g16, c16, v12, 9000), Sub("large", g16big, c16big, v16big, 2000)]

    def show(self, case):
        return repr(case) if "steps" in case else show_items(case)


class C17(Check):
    id = "C17"
    rule = "random terms with variables; the variable index of every subterm compared with the occurrences found by walking its components; non-trivial: distinct cases with at least one variable"

    def subs(self):
        return [Sub("index", g16, c17, v12, 9000)]

    def show(self, case):
        return show_items(case)


CHECKS = [C08(), C09(), C10(), C11(), C12(), C13(), C14(), C16(), C17()]
