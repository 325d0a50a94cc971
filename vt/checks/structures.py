"""Variable indexes, evidential bases, the name table, and the constant tables (C18, C21, C27, C30)."""
import functools
from .. import build
from ..client import q
from ..runner import Sub, Trivial
from .common import Check, need


@functools.lru_cache(None)
def util_exec():
    return {"util": build.executor("util", ["util_exec.cpp"])}


def ints(x):
    return isinstance(x, list) and all(isinstance(i, int) and not isinstance(i, bool) for i in x)


def pathword(p):
    return q("/".join(map(str, p)))


# ---------------------------------------------------------------------------------------------- C18

class Node:
    def __init__(self):
        self.sons, self.own = [], []      # own: [cell, position] of a leaf
        self.built, self.fresh = False, True


class Forest:
    """The model of a history: what every index must list, and for which that is due now."""

    def __init__(self):
        self.nodes, self.cells, self.handles = [], [], []

    def below(self, n):
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.nodes[x].sons
        return seen

    def above(self, n):
        return [m for m in range(len(self.nodes)) if m != n and n in self.below(m)]

    def lists(self, n):
        nd = self.nodes[n]
        if not nd.sons:
            return [self.cells[c] for c, _ in nd.own], [list(p) for _, p in nd.own]
        v, p = [], []
        for i, s in enumerate(nd.sons):
            a, b = self.lists(s)
            v += a
            p += [[i] + x for x in b]
        return v, p

    def size(self, n):
        nd = self.nodes[n]
        return len(nd.own) if not nd.sons else sum(self.size(s) for s in nd.sons)

    def stale_above(self, n):
        for m in self.above(n):
            self.nodes[m].fresh = False

    def leaf(self, n, choices):
        path = []
        for c in list(choices) + [0] * 50:
            s = self.nodes[n].sons
            if not s:
                break
            path.append(c % len(s))
            n = s[path[-1]]
        return n, path

    def build(self, n, again):
        nd = self.nodes[n]
        if nd.built and not again:
            return nd.fresh
        ok = all([self.build(s, again) for s in nd.sons])
        nd.built, nd.fresh = True, ok or not nd.sons
        return nd.fresh


def ranks(v):
    r = {x: i for i, x in enumerate(sorted(set(v)))}
    return [r[x] for x in v]


OPS18 = ("new", "connect", "add", "remove", "set", "build", "clone", "look", "norm")


def plan18(ops):
    """Decodes a list of integers tuples into commands with what each must answer."""
    f = Forest()
    cmds = []

    def emit(cmd, want=None):
        cmds.append((cmd, want))

    def name(n):
        return "n%d" % n

    def look(n):
        nd = f.nodes[n]
        if nd.fresh:
            emit(["iall", name(n)], ("all", f.lists(n), n))
        elif not nd.sons:
            emit(["ilists", name(n)], ("lists", f.lists(n), n))

    for op in ops:
        kind, a, b, c, path = OPS18[op[0] % len(OPS18)], op[1], op[2], op[3], op[4:]
        if kind == "new" or not f.nodes:
            if len(f.nodes) < 60:
                emit(["inew", name(len(f.nodes))])
                f.nodes.append(Node())
            continue
        n = a % len(f.nodes)
        nd = f.nodes[n]
        if kind == "connect":
            s = b % len(f.nodes)
            if n in f.below(s) or (not nd.sons and nd.own) or sum(f.size(m) for m in range(len(f.nodes))) + f.size(s) > 300:
                continue
            gen = c % 2
            emit(["iconnect", name(n), name(s), gen if gen or c % 4 else "d"])
            current = nd.fresh and f.nodes[s].fresh and (gen or f.size(s) == 0)
            f.stale_above(n)
            nd.sons.append(s)
            nd.built, nd.fresh = False, bool(current)
        elif kind == "add":
            l, p = f.leaf(n, path)
            if f.size(l) > 8:
                continue
            emit(["iadd", name(n), b, pathword(p), "h%d" % len(f.cells)], ("is", b))
            f.handles.append(len(f.cells))
            f.cells.append(b)
            if not p:
                f.nodes[l].own = []
                f.nodes[l].fresh = True
            else:
                f.nodes[l].fresh = False
            f.nodes[l].own.append((len(f.cells) - 1, []))
            f.stale_above(l)
        elif kind == "remove":
            l, p = f.leaf(n, path)
            emit(["iremove", name(n), pathword(p)])
            f.nodes[l].own = []
            f.nodes[l].fresh = not p
            f.stale_above(l)
        elif kind == "set":
            if not f.handles:
                continue
            h = f.handles[b % len(f.handles)]
            holders = [m for m, x in enumerate(f.nodes) if any(k == h for k, _ in x.own)]
            if not holders:
                continue
            emit(["iset", "h%d" % h, c])
            f.cells[h] = c
            for m in holders:
                f.nodes[m].fresh = False
                f.stale_above(m)
        elif kind == "build":
            emit(["ibuild", name(n), b % 3])
            f.build(n, b % 3 > 0)
            if c % 2:
                look(n)
            if c % 4 > 1 and b % 3:
                for m in sorted(f.below(n)):
                    look(m)
        elif kind == "clone":
            if not nd.fresh or len(f.nodes) >= 60:
                continue
            emit(["iclone", name(len(f.nodes)), name(n)])
            v, p = f.lists(n)
            x = Node()
            for i, pos in zip(v, p):
                f.cells.append(i)
                x.own.append((len(f.cells) - 1, pos))
            f.nodes.append(x)
        elif kind == "look":
            look(n)
        elif kind == "norm":
            if nd.fresh:
                emit(["inorm", name(n)], ("is", ranks(f.lists(n)[0])))
    for n in range(len(f.nodes)):
        f_fresh = f.nodes[n].fresh
        look(n)
        if not f_fresh:
            emit(["ibuild", name(n), 1])
            f.build(n, True)
            look(n)
    alive = [n for n in range(len(f.nodes)) if f.nodes[n].fresh]
    for a, b in zip(alive, alive[1:]):
        if ranks(f.lists(a)[0]) == ranks(f.lists(b)[0]):
            emit(["ieq", name(a), name(b)], ("is", True))
    return f, cmds


def valid18(c):
    return isinstance(c, dict) and isinstance(c.get("ops"), list) and all(ints(o) and len(o) >= 4 and all(x >= 0 for x in (o[0], o[1], *o[4:])) and all(-2**31 <= x < 2**31 for x in o) for o in c["ops"])


def number18(rng):
    return rng.choice([0, 1, 2, 3, 4, 5]) if rng.random() < 0.7 else rng.choice([-1, -7, 10, 99, 1000, 2**31 - 1, -2**31, 65536, rng.randrange(-10**6, 10**6)])


def g18(rng, tier):
    ops = [[0, 0, 0, 0] for _ in range(rng.randrange(2, 7))]
    w = [1, 4, 6, 2, 2, 4, 1, 2, 1]
    if rng.random() < 0.5:   # grow a tree first
        k = len(ops)
        for i in range(1, k):
            ops.append([1, rng.randrange(i), i, rng.randrange(2)])
    for _ in range(rng.choice([4, 10, 20, 40])):
        kind = rng.choices(range(9), w)[0]
        o = [kind, rng.randrange(16), rng.randrange(16), rng.randrange(8)] + [rng.randrange(4) for _ in range(rng.randrange(4))]
        if kind == 2:
            o[2] = number18(rng)
        if kind == 4:
            o[3] = number18(rng)
        ops.append(o)
    return {"ops": ops}


def g18wide(rng, tier):
    """A tree with many sons that are trees themselves, edited far from the root."""
    m = rng.choice([2, 7, 8, 9, 10, 15, 16, 17, 18])
    ops = [[0, 0, 0, 0] for _ in range(1 + m)]
    leaves = 0
    for i in range(1, m + 1):
        for _ in range(rng.choice([0, 1, 1, 2])):
            if leaves < 24:
                ops.append([0, 0, 0, 0])
                leaf = 1 + m + leaves
                leaves += 1
                ops += [[2, leaf, number18(rng), 0], [1, i, leaf, rng.randrange(2)]]
    order = list(range(1, m + 1))
    if rng.random() < 0.3:
        rng.shuffle(order)
    ops += [[1, 0, i, rng.randrange(2)] for i in order] + [[5, 0, rng.randrange(3), 1]]
    for _ in range(rng.choice([2, 5, 12])):
        kind = rng.choice([2, 2, 3, 4, 4, 5, 5, 6, 8])
        n = rng.choice([0, 0, 0, rng.randrange(1 + m + leaves)])
        path = [rng.choice([m - 1, m - 1, rng.randrange(m), 8, 16]), rng.randrange(2)]
        ops.append({2: [2, n, number18(rng)] + [0] + path, 3: [3, n, 0, 0] + path, 4: [4, 0, rng.randrange(100), number18(rng)], 5: [5, n, rng.randrange(3), rng.choice([1, 3])], 6: [6, n, 0, 0], 8: [8, n, 0, 0]}[kind])
    ops.append([5, 0, rng.choice([1, 2]), 3])
    return {"ops": ops}


def judge18(cmds, rs):
    hashes = {}
    looked = 0
    for (cmd, want), r in zip(cmds, rs):
        if want is None:
            continue
        if want[0] == "is":
            need(r == want[1], "%s answers %r instead of %r\nhistory: %s", cmd, r, want[1], [x for x, _ in cmds])
            continue
        v, p = want[1]
        what = "index %s in the history\n  %s\n" % (cmd[1], "\n  ".join(" ".join(map(str, x)) for x, _ in cmds))
        need(r[0] == v, "%s lists the numbers %s instead of %s", what, r[0], v)
        need(r[1] == p, "%s lists the positions %s instead of %s", what, r[1], p)
        if want[0] == "all":
            looked += bool(v)
            need(r[2] == ranks(v), "%s normalises %s to %s", what, v, r[2])
            h = hashes.setdefault(tuple(r[2]), r[3])
            need(h == r[3], "%s has the hash %s, an equal numbering %s has %s", what, r[3], r[2], h)
    return looked


def c18(c, ctx):
    f, cmds = plan18(c["ops"])
    rs = ctx.run("util", [x for x, _ in cmds])
    looked = judge18(cmds, rs)
    if not looked:
        raise Trivial()
    s = max(f.size(n) for n in range(len(f.nodes)))
    depth = max(len(p) for n in range(len(f.nodes)) for p in f.lists(n)[1] + [[]])
    kinds = {x[0][0] for x in cmds}
    return {"numbers " + ("<=3" if s < 4 else "4-12" if s < 13 else ">12"), "depth %d" % min(depth, 5)} | kinds


def g18pair(rng, tier):
    """Two different trees over the same numbering, up to an order-preserving renaming."""
    n = rng.randrange(1, 9) if rng.random() < 0.9 else rng.choice([12, 16, 17, 33, 64, 100, 129, 257, 300])
    a = [rng.randrange(-3, 6) if n < 9 else rng.choice([i, rng.randrange(n)]) for i in range(n)]
    up = sorted(rng.sample(range(-1000, 1000), len(set(a)))) if rng.random() < 0.8 else [0] * 0
    if not up:
        up = [x + 7 for x in range(len(set(a)))]
    m = dict(zip(sorted(set(a)), up))
    shapes = [[rng.randrange(1, 4) if n < 9 else rng.choice([1, 2, 3, 3, 20, 130]) for _ in range(n)] for _ in range(2)]
    return {"a": a, "b": [m[x] for x in a], "shapes": shapes, "levels": [rng.randrange(1, 4) if rng.random() < 0.9 or n > 64 else rng.choice([6, 10, 17, 33]) for _ in range(2)], "again": rng.randrange(3), "pos": rng.randrange(2)}


def valid18pair(c):
    try:
        return (ints(c["a"]) and ints(c["b"]) and c["a"] and ranks(c["a"]) == ranks(c["b"]) and ints(c["levels"]) and all(1 <= l <= 40 for l in c["levels"]) and len(c["levels"]) == 2
                and all(ints(s) and len(s) >= len(c["a"]) and all(1 <= x for x in s) for s in c["shapes"]) and len(c["shapes"]) == 2 and c["again"] in (0, 1, 2) and c["pos"] in (0, 1))
    except (KeyError, TypeError):
        return False


def c18pair(c, ctx):
    cmds = []
    tree, tops = {}, []

    def positions(t):
        return [[]] if tree[t] is None else [[i] + p for i, s in enumerate(tree[t]) for p in positions(s)]
    for name, vals, shape, levels in (("x", c["a"], c["shapes"][0], c["levels"][0]), ("y", c["b"], c["shapes"][1], c["levels"][1])):
        k = 0
        level = []
        for v in vals:
            l = "%s%d" % (name, k)
            k += 1
            cmds += [["inew", l], ["iadd", l, v, q(""), l]]
            level.append(l)
            tree[l] = None
        for d in range(levels):
            nxt, i = [], 0
            last = d == levels - 1
            while i < len(level):
                w = len(level) if last else shape[(i + d) % len(shape)]
                l = "%s%d" % (name, k)
                k += 1
                cmds.append(["inew", l])
                cmds += [["iconnect", l, s, c["pos"]] for s in level[i:i + w]]
                tree[l] = level[i:i + w]
                nxt.append(l)
                i += w
            level = nxt
        cmds.append(["ibuild", level[0], c["again"]])
        tops.append(level[0])
        if name == "x":
            x = level[0]
    y = level[0]
    n = len(cmds)
    rs = ctx.run("util", cmds + [["iall", x], ["iall", y], ["ieq", x, y]])[n:]
    for r, t in zip(rs, tops):
        need(r[1] == positions(t), "the tree lists the positions %s instead of %s", r[1], positions(t))
    need(rs[0][0] == c["a"] and rs[1][0] == c["b"], "the trees list %s and %s instead of %s and %s", rs[0][0], rs[1][0], c["a"], c["b"])
    need(rs[0][2] == rs[1][2] == ranks(c["a"]), "%s and %s are normalised to %s and %s", c["a"], c["b"], rs[0][2], rs[1][2])
    need(rs[0][3] == rs[1][3], "%s and %s have the same numbering %s but the hashes %s and %s", c["a"], c["b"], rs[0][2], rs[0][3], rs[1][3])
    need(rs[2] is True, "%s and %s have the same numbering %s but are not equal", c["a"], c["b"], rs[0][2])
    return {"length %s" % (len(c["a"]) if len(c["a"]) < 9 else ">8"), "depth %s" % (max(c["levels"]) if max(c["levels"]) < 4 else ">3")}


class C18(Check):
    id = "C18"
    rule = "histories of creating, connecting, adding, removing, renumbering, building, rebuilding, cloning over up to 60 indexes against a model; pairs of different trees with equal numberings; non-trivial: distinct histories in which at least one index with numbers was compared in full"

    def executors(self):
        return util_exec()

    def subs(self):
        return [Sub("history", g18, c18, valid18, 26000), Sub("wide", g18wide, c18, valid18, 3000), Sub("equal numberings", g18pair, c18pair, valid18pair, 8000)]


# ---------------------------------------------------------------------------------------------- C21

def ident(rng, pool):
    r = rng.random()
    if pool and r < 0.35:
        return rng.choice(pool)
    if pool and r < 0.5:   # same low 32 bits
        return (rng.choice(pool) & 0xffffffff) | (rng.randrange(2**32) << 32)
    if r < 0.8:
        return rng.randrange(60)
    return rng.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, rng.randrange(2**64), rng.randrange(2**33)])


OPS21 = ("new", "extend", "merge", "into", "add", "over", "hash", "dump", "copy")


def g21(rng, tier):
    pool = []
    ops = []
    n = rng.randrange(2, 5)
    big = rng.random() < 0.06
    limit = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 30, 100, 20000]) if rng.random() < 0.8 else rng.randrange(0, 40)
    for i in range(n + rng.choice([2, 5, 10, 20])):
        kind = 0 if i < n else rng.choices(range(9), [1, 4, 3, 1, 4, 3, 3, 1, 2])[0]
        o = [kind, rng.randrange(8), rng.randrange(8), rng.randrange(8)]
        if kind == 0:
            m = rng.choice([0, 1, 1, 2, 3, 5, 8, limit // 2 if limit < 200 else 9, limit if limit < 200 else 4])
            if big:
                m = rng.choice([100, 1000])
            for _ in range(m):
                x = ident(rng, pool)
                pool.append(x)
                o.append(x)
        if kind == 4:
            x = ident(rng, pool)
            pool.append(x)
            o.append(x)
        ops.append(o)
    if rng.random() < 0.25:   # bases whose ranges just touch, interlock or lie apart
        ops += apart(rng, sum(1 for o in ops if OPS21[o[0]] in ("new", "merge", "into", "copy")))
    return {"limit": limit, "ops": ops}


def apart(rng, at, most=12):
    """Two bases in neighbouring ranges that share no, one or two identifiers, and the tests whether they overlap."""
    lo = rng.choice([0, rng.randrange(1000), 2**31 - 20, 2**32 - 20, 2**64 - 6 * most, rng.randrange(2**63)])
    m, n = rng.randint(1, most), rng.randint(1, most)
    ids, x = [], lo
    for _ in range(m + n):
        ids.append(x)
        x += rng.choice([1, 1, 2, 3])
    shared = rng.choice([0, 1, 1, 1, 2])
    a, b = ids[:m], ids[max(0, m - shared):]
    if rng.random() < 0.3:   # interlocked instead, sharing at any place
        rng.shuffle(ids)
        a, b = ids[:m], ids[max(0, m - shared):]
    for y in (a, b):
        rng.choice([y.sort, lambda: rng.shuffle(y), y.reverse])()
    ops = [[0, 0, 0, rng.randrange(2)] + a, [0, 0, 0, rng.randrange(2)] + b]
    return ops + [[5, at, at + 1, 0], [5, at + 1, at, 0]]


def valid21(c):
    return isinstance(c, dict) and isinstance(c.get("limit"), int) and 0 <= c["limit"] <= 100000 and isinstance(c.get("ops"), list) and all(ints(o) and len(o) >= 4 and all(0 <= x < 2**64 for x in o) for o in c["ops"])


def merged(what, got, a, b, limit):
    """Judges the evidence `got` of merging a and b."""
    s = set(got["set"])
    need(len(got["set"]) == len(s) and got["size"] == len(s), "%s: the size %s of %s", what, got["size"], got["set"])
    if len(a) + len(b) <= limit:
        need(s == a | b, "%s gives %s instead of the union %s", what, sorted(s), sorted(a | b))
        return "fits"
    need(s <= a | b, "%s gives %s which neither had", what, sorted(s - (a | b)))
    need(len(s) <= limit, "%s gives %d identifiers, the maximum is %d", what, len(s), limit)
    if not a & b:
        need(len(s) == limit, "%s gives %d identifiers of %d different ones, the maximum is %d", what, len(s), len(a | b), limit)
    for x in (a, b):
        need(len(s & x) >= min(len(x), limit // 2), "%s keeps %d of the %d identifiers of one operand, the maximum is %d", what, len(s & x), len(x), limit)
    return "cut"


def c21(c, ctx):
    limit = c["limit"]
    cmds, plan = [["emax", limit]], [None]
    bases = 0
    shared = {}      # base -> the bases that were made as copies of one another since the last change
    for o in c["ops"]:
        kind = OPS21[o[0] % len(OPS21)]
        a, b = (o[1] % bases, o[2] % bases) if bases else (0, 0)
        if kind == "new" or not bases:
            cmds.append(["enew", "b%d" % bases, ("set", "shared", "set", "shared", "set", "shared", "input", "set")[o[3] % 8] if len(o) == 4 else ("set", "shared")[o[3] % 2]] + o[4:])
            plan.append(("new", bases, o[4:], cmds[-1][2]))
            bases += 1
        elif kind == "extend":
            cmds.append(["eextend", "b%d" % a, "b%d" % b])
            plan.append(("extend", a, b))
            shared[a] = ()
        elif kind in ("merge", "into"):
            cmds.append([("emerge" if kind == "merge" else "einto"), "b%d" % bases, "b%d" % a, "b%d" % b])
            plan.append(("merge", bases, a, b))
            bases += 1
        elif kind == "copy":
            cmds.append(["ecopy", "b%d" % bases, ("copy", "assign", "evidence")[o[3] % 3], "b%d" % a])
            plan.append(("copy", bases, a))
            shared[a] = shared[bases] = shared.get(a) or ("g%d" % bases,)
            bases += 1
        elif kind == "add":
            if shared.get(a) and sum(v == shared[a] for v in shared.values()) > 1:
                continue     # adding is specified for one base only; whether copies see it is left open
            x = o[4] if len(o) > 4 else o[3]
            cmds.append(["eadd", "b%d" % a, x])
            plan.append(("add", a, x))
        elif kind == "over":
            cmds.append(["eover", "b%d" % a, "b%d" % b])
            plan.append(("over", a, b))
        elif kind == "hash":
            cmds.append(["ehash", "b%d" % a])
            plan.append(("hash", a))
        else:
            cmds.append(["edump", "b%d" % a])
            plan.append(("dump", a))
    for i in range(bases):
        cmds += [["edump", "b%d" % i], ["ehash", "b%d" % i]]
        plan += [("dump", i), ("hash", i)]
    rs = ctx.run("util", cmds)
    model, hashes, labels = {}, {}, set()

    def same(what, got, want):
        need(got["set"] == sorted(want) and got["size"] == len(want), "%s: %.1000s instead of %.1000s", what, got, sorted(want))

    inputs = set()
    for i, (p, r) in enumerate(zip(plan, rs)):
        if p is None:
            continue
        what = "maximum %d, step %d of %s" % (limit, i, " ; ".join(" ".join(map(str, x)) for x in cmds)[:1500])
        if p[0] == "new":
            if p[3] == "input":
                need(len(r["set"]) == 1 and r["size"] == 1 and r["set"][0] not in inputs, "%s: an input's base is %s after %s", what, r, inputs)
                model[p[1]] = set(r["set"])
                inputs |= model[p[1]]
            else:
                model[p[1]] = set(p[2])
                same(what, r, model[p[1]])
        elif p[0] in ("extend", "merge"):
            x, y = (p[1], p[2]) if p[0] == "extend" else (p[2], p[3])
            labels.add(p[0] + " " + merged(what, r, model[x], model[y], limit))
            if x == y:
                labels.add("with itself")
            model[p[1]] = set(r["set"])
        elif p[0] == "copy":
            model[p[1]] = set(model[p[2]])
            same(what, r, model[p[1]])
            labels.add("copied")
        elif p[0] == "add":
            model[p[1]] = model[p[1]] | {p[2]}
            same(what, r, model[p[1]])
        elif p[0] == "over":
            w = bool(model[p[1]] & model[p[2]])
            need(r == w, "%s: overlap of %s and %s is %s", what, sorted(model[p[1]]), sorted(model[p[2]]), r)
            labels.add("overlap %s" % w)
        elif p[0] == "dump":
            same(what, r, model[p[1]])
        elif p[0] == "hash":
            h = hashes.setdefault(frozenset(model[p[1]]), r)
            need(h == r, "%s: the evidence %s has the hashes %s and %s", what, sorted(model[p[1]]), h, r)
    if not labels:
        raise Trivial()
    return labels


def g21long(rng, tier):
    """Few bases of many identifiers, around the maximum."""
    limit = rng.choice([20000, 20000, 5000, 1000, 255, 256, 300, 40000])
    base = rng.choice([0, 2**31 - 5000, 2**32 - 5000, rng.randrange(2**60)])
    ops = []
    for i in range(2):
        m = rng.choice([limit // 2, limit // 2 + 1, limit // 2 - 1, limit, limit + 1, limit - 1, rng.randrange(1, limit + 2)])
        step = rng.choice([1, 2, 3])
        at = base + rng.choice([0, 0, i * m, i * m * step, 1])
        ops.append([0, 0, 0, 0] + [at + j * step for j in range(min(m, 21000))])
    if rng.random() < 0.3:
        ops = apart(rng, 0, rng.choice([100, 1000, 5000]))
    for _ in range(rng.choice([1, 2, 3])):
        ops.append([rng.choice([1, 2, 3, 5, 6]), rng.randrange(3), rng.randrange(3), 0])
    return {"limit": limit, "ops": ops}


class C21(Check):
    id = "C21"
    rule = "histories of creating, extending, merging, adding to, comparing and hashing evidential bases with 64-bit identifiers under maximum lengths from 0 to the default, against sets; non-trivial: distinct histories with at least one merge or overlap test"

    def executors(self):
        return util_exec()

    def subs(self):
        return [Sub("history", g21, c21, valid21, 32000), Sub("long", g21long, c21, valid21, 150)]


# ---------------------------------------------------------------------------------------------- C27

OPS27 = ("put", "put", "put", "erase", "remove", "removename", "get", "byname", "check", "checkname", "count", "object", "sizes", "reset", "end")


def key27(rng, pool):
    r = rng.random()
    if pool and r < 0.4:
        return (rng.choice(pool) & 0xffffffff) | (rng.choice([0, 1, 2**31, 2**32 - 1, rng.randrange(2**32)]) << 32)
    if r < 0.6:
        return rng.randrange(6)
    return rng.choice([0, 1, 2**31, 2**32, 2**63, 2**64 - 1, rng.randrange(2**64), rng.randrange(2**32)])


def name27(rng, pool):
    r = rng.random()
    if pool and r < 0.3:
        s = rng.choice(pool)
        return s + rng.choice("ab_0 ") if rng.random() < 0.5 else s[:-1]
    if r < 0.34:
        return rng.choice(["a", "ab", "x%", "a b"]) * rng.choice([20, 40, 100, 150, 300, 520, 1030, 2500, 5000])
    if r < 0.7:
        return "".join(rng.choice("ab") for _ in range(rng.randrange(1, 4)))
    return "".join(chr(rng.choice([32, 37, 123, 125, 95, 97, 200, 255, rng.randrange(1, 256)])) for _ in range(rng.randrange(0, 30)))


def g27(rng, tier):
    keys, names = [], []
    for _ in range(rng.randrange(1, 9)):
        keys.append(key27(rng, keys))
        names.append(name27(rng, names))
    w = [6, 3, 3, 8, 2, 2, 4, 4, 4, 4, 5, 3, 1, 0.3, 0.3]
    ops = [[rng.choices(range(15), w)[0], rng.randrange(8), rng.randrange(8)] for _ in range(rng.choice([3, 8, 20, 50]))]
    r = rng.random()
    if r < 0.02: # one key registered again and again, then released
        m = rng.choice([127, 128, 129, 255, 256, 257, 300, 1000] if rng.random() < 0.99 else [32767, 32768, 33000, 65536, 66000])
        k = rng.randrange(8)
        ops = ops[:8] + [[0, k, k]] * m + [[10, k, k]] + [[3, k, k]] * rng.choice([m - 1, m, m - 2, m // 2]) + [[10, k, k], [8, k, k]] + ops[8:16]
    elif r < 0.04: # many keys
        m = rng.choice([60, 130, 300, 700])
        keys += [key27(rng, keys) for _ in range(m)]
        names += [name27(rng, names) for _ in range(m)]
        ops = ops[:8] + [[0, i, i] for i in range(m)] + [[rng.choices(range(13), w[:13])[0], rng.randrange(m), rng.randrange(m)] for _ in range(40)]
    return {"keys": keys, "names": names, "ops": ops}


def valid27(c):
    return isinstance(c, dict) and ints(c.get("keys")) and c["keys"] and all(0 <= k < 2**64 for k in c["keys"]) and isinstance(c.get("names"), list) and c["names"] and all(isinstance(n, str) and all(ord(x) < 256 for x in n) for n in c["names"]) and isinstance(c.get("ops"), list) and all(ints(o) and len(o) == 3 and all(x >= 0 for x in o) for o in c["ops"])


def c27(c, ctx):
    keys, names = c["keys"], c["names"]
    cmds, wants = [], []
    live, byname, objects = {}, {}, []          # key -> [name, count, object]; name -> key; released
    freed = {}
    labels = set()

    def emit(cmd, want):
        cmds.append(cmd)
        wants.append(want)

    def drop(k):
        n, _, o = live.pop(k)
        del byname[n]
        freed[o] = 1

    for o in c["ops"]:
        kind = OPS27[o[0] % len(OPS27)]
        k, n = keys[o[1] % len(keys)], names[o[2] % len(names)]
        if kind == "put":
            if k in live:
                n = live[k][0]
                live[k][1] += 1
                labels.add("registered again")
            else:
                if n in byname:
                    continue
                live[k] = [n, 1, "o%d" % len(objects)]
                objects.append(k)
                freed["o%d" % (len(objects) - 1)] = 0
                byname[n] = k
                labels.add("registered")
            emit(["nput", k, q(n), live[k][2]], None)
        elif kind == "erase":
            emit(["nerase", k], k in live)
            if k in live:
                live[k][1] -= 1
                labels.add("released")
                if live[k][1] == 0:
                    drop(k)
                    labels.add("released for good")
        elif kind == "remove":
            emit(["nremove", k], k in live)
            if k in live:
                drop(k)
                labels.add("removed")
        elif kind == "removename":
            emit(["nremovename", q(n)], n in byname)
            if n in byname:
                drop(byname[n])
                labels.add("removed by name")
        elif kind == "get":
            if k in live:
                emit(["nget", k], live[k][0])
        elif kind == "byname":
            if n in byname:
                emit(["nbyname", q(n)], byname[n])
        elif kind == "check":
            emit(["ncheck", k], k in live)
        elif kind == "checkname":
            emit(["ncheckname", q(n)], n in byname)
        elif kind == "count":
            emit(["ncount", k], live[k][1] if k in live else 0)
        elif kind == "object":
            if k in live:
                emit(["nobject", k, live[k][2]], True)
        elif kind == "sizes":
            emit(["nfreed"], dict(freed))
        elif kind in ("reset", "end"):
            emit(["n" + kind], None)
            for k in list(live):
                drop(k)
            labels.add(kind)
    for k in keys:
        emit(["ncheck", k], k in live)
        emit(["ncount", k], live[k][1] if k in live else 0)
        if k in live:
            emit(["nget", k], live[k][0])
            emit(["nobject", k, live[k][2]], True)
    for n in names:
        emit(["ncheckname", q(n)], n in byname)
        if n in byname:
            emit(["nbyname", q(n)], byname[n])
    emit(["nfreed"], dict(freed))
    emit(["nreset"], None)
    emit(["nfreed"], {o: 1 for o in freed})
    for k in keys:
        emit(["ncheck", k], False)
    rs = ctx.run("util", cmds)
    for i, (cmd, w, r) in enumerate(zip(cmds, wants, rs)):
        need(r == w, "after %s\n%s answers %r instead of %r", cmds[:i], cmd, r, w)
    if not labels:
        raise Trivial()
    return labels


class C27(Check):
    id = "C27"
    rule = "histories of registering (fresh pairs, or a live pair again), releasing, removing, looking up and resetting over keys that share low halves and names that share prefixes, against a pair of maps; every registered object must be released exactly once; non-trivial: distinct histories with at least one registration"

    def executors(self):
        return util_exec()

    def subs(self):
        return [Sub("history", g27, c27, valid27, 32000)]


# ---------------------------------------------------------------------------------------------- C30

CONNECTORS = ["&&", "||", "*", "&|", "&/", "|", "&", "-", "~", "--", "[", "{", "\\", "/", "#"]
COPULAS = ["-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"]
COMMUTATIVE30 = {"&&", "||", "&|", "|", "&", "[", "{", "<->", "<=>", "<|>"}
TEMPORAL30 = {"&|", "&/", "=/>", "=|>", "=\\>", "</>", "<|>"}
HIGHER30 = {"==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"}
REVERSE30 = {"=/>": "=\\>", "=\\>": "=/>", "=|>": "=|>", "<|>": "<|>"}
SYMMETRIC30 = {"-->": "<->", "<->": "<->", "==>": "<=>", "<=>": "<=>", "=/>": "</>", "</>": "</>", "=|>": "<|>", "<|>": "<|>"}


def accepts(c, n):
    if n < 1:
        return False
    if c == "--":
        return n == 1
    if c in ("-", "~"):
        return n == 2
    if c in ("[", "{", "#"):
        return True
    return n > 1


def g30t(rng, tier):
    if rng.random() < 0.6:
        return {"connector": rng.randrange(15), "counts": [rng.choice([0, 1, 2, 3, 4, 5, rng.randrange(1000), rng.randrange(2**32), 255, 256, 257, 65536, 2**31, 2**32 - 1]) for _ in range(20)]}
    return {"copula": rng.randrange(12)}


def v30t(c):
    try:
        return 0 <= c["copula"] < 12 if "copula" in c else 0 <= c["connector"] < 15 and ints(c["counts"]) and all(0 <= x < 2**32 for x in c["counts"])
    except (KeyError, TypeError):
        return False


def c30t(c, ctx):
    if "connector" in c:
        k = CONNECTORS[c["connector"]]
        r = ctx.run("util", [["connector", c["connector"]] + c["counts"], ["constants"]])
        need(r[1] == list(range(15)) + list(range(12)), "the named constants are %s", r[1])
        r = r[0]
        need(r["repr"] == k, "connector %d is written %r instead of %r", c["connector"], r["repr"], k)
        need(r["com"] == (k in COMMUTATIVE30), "connector %s: commutative %s", k, r["com"])
        need(r["tmp"] == (k in TEMPORAL30), "connector %s: temporal %s", k, r["tmp"])
        for n, v in zip(c["counts"], r["valid"]):
            need(v == accepts(k, n), "connector %s accepts %d components: %s", k, n, v)
        return {k}
    i = c["copula"]
    k = COPULAS[i]
    rs = ctx.run("util", [["copula", j] for j in range(12)])
    r = rs[i]
    need(r["repr"] == k, "copula %d is written %r instead of %r", i, r["repr"], k)
    need(r["com"] == (k in COMMUTATIVE30), "copula %s: commutative %s", k, r["com"])
    need(r["tmp"] == (k in TEMPORAL30), "copula %s: temporal %s", k, r["tmp"])
    need(r["high"] == (k in HIGHER30), "copula %s: higher order %s", k, r["high"])
    name = lambda x: COPULAS[x] if x >= 0 else None
    s, v = name(r["sym"]), name(r["rev"])
    if s is not None:
        need(s in ("<->", "<=>", "</>", "<|>") and (s in TEMPORAL30) == (k in TEMPORAL30) and (s in HIGHER30) == (k in HIGHER30) and s == SYMMETRIC30.get(k, s), "copula %s is symmetrised to %s", k, s)
        need(name(rs[r["sym"]]["sym"]) == s, "copula %s is symmetrised to %s and that to %s", k, s, name(rs[r["sym"]]["sym"]))
    need(s is not None or k not in SYMMETRIC30, "copula %s is not symmetrised, %s expected", k, SYMMETRIC30.get(k))
    if v is not None:
        need(name(rs[r["rev"]]["rev"]) == k, "copula %s is reversed to %s and that to %s", k, v, name(rs[r["rev"]]["rev"]))
        need((v in TEMPORAL30) == (k in TEMPORAL30) and (v in HIGHER30) == (k in HIGHER30), "copula %s is reversed to %s", k, v)
    need(k not in REVERSE30 or v == REVERSE30[k], "copula %s is reversed to %s instead of %s", k, v, REVERSE30.get(k))
    return {k}


OPS30 = ("new", "add", "inc", "chain", "dump", "eq")


def length(rng):
    return rng.choice([0, 1, 2, 3, 4, 5]) if rng.random() < 0.5 else rng.choice([rng.randrange(-100, 100), rng.randrange(-10**8, 10**8), 10**8, -1, 255, 256, 65536])


def g30i(rng, tier):
    ops = [[0, 0, 0, 0, length(rng)] for _ in range(rng.randrange(2, 5))]
    for _ in range(rng.choice([3, 8, 16])):
        ops.append([rng.randrange(6), rng.randrange(12), rng.randrange(12), rng.randrange(12), length(rng)])
    return {"ops": ops}


def v30i(c):
    return isinstance(c, dict) and isinstance(c.get("ops"), list) and all(ints(o) and len(o) == 5 and all(x >= 0 for x in o[:4]) and abs(o[4]) <= 10**9 for o in c["ops"])


def c30i(c, ctx):
    vals, cmds, plan = [], [], []
    labels = set()

    def look(i):
        cmds.append(["tdump", "t%d" % i])
        plan.append(("dump", vals[i]))

    for o in c["ops"]:
        kind = OPS30[o[0] % 6]
        if kind == "new" or not vals:
            cmds.append(["tnew", "t%d" % len(vals), o[4]])
            plan.append(None)
            vals.append(o[4])
            continue
        a, b, d = (x % len(vals) for x in o[1:4])
        if kind == "add":
            if abs(vals[a] + vals[b]) > 2**31 - 1 or len(vals) > 40:
                continue
            cmds.append(["tadd", "t%d" % len(vals), "t%d" % a, "t%d" % b])
            plan.append(None)
            vals.append(vals[a] + vals[b])
            look(len(vals) - 1)
            labels.add("+")
        elif kind == "inc":
            if abs(vals[a] + vals[b]) > 2**31 - 1:
                continue
            cmds.append(["tinc", "t%d" % a, "t%d" % b])
            plan.append(("is", True))
            vals[a] += vals[b]
            labels.add("+=")
        elif kind == "chain":
            if a == d or abs(vals[a] + vals[b]) > 2**31 - 1 or abs(vals[a] + (vals[b])) + abs(vals[d]) > 2**31 - 1:
                continue
            cmds.append(["tchain", "t%d" % a, "t%d" % b, "t%d" % d])
            plan.append(None)
            vals[a] = vals[a] + vals[b] + vals[d]
            labels.add("+= +=")
        elif kind == "dump":
            look(a)
        else:
            cmds.append(["teq", "t%d" % a, "t%d" % b])
            plan.append(("eq", vals[a], vals[b]))
            labels.add("equal" if vals[a] == vals[b] else "different")
    for i in range(len(vals)):
        look(i)
    rs = ctx.run("util", cmds)
    hashes = {}
    for i, (p, r) in enumerate(zip(plan, rs)):
        if p is None:
            continue
        what = "step %d of %s" % (i, " ; ".join(" ".join(map(str, x)) for x in cmds))
        if p[0] == "dump":
            need(r[0] == p[1] and r[1] == p[1] and r[4] is True, "%s: the interval is %s instead of %s", what, r, p[1])
            need(r[3] == "+%d" % p[1], "%s: the interval %s prints %r", what, p[1], r[3])
            h = hashes.setdefault(p[1], r[2])
            need(h == r[2], "%s: intervals of %s have the hashes %s and %s", what, p[1], h, r[2])
        elif p[0] == "eq":
            need(r == (p[1] == p[2]), "%s: intervals of %s and %s are equal: %s", what, p[1], p[2], r)
        else:
            need(r == p[1], "%s: += returns another object", what)
    if not labels:
        raise Trivial()
    return labels


class C30(Check):
    id = "C30"
    rule = "connectors with random component counts up to 2^32-1, copulas with their images under symmetrize and reverse, against a table written from the Narsese grammar; histories of interval additions against integers; non-trivial: distinct cases (interval histories with at least one addition or comparison)"

    def executors(self):
        return util_exec()

    def subs(self):
        return [Sub("tables", g30t, c30t, v30t, 6000), Sub("intervals", g30i, c30i, v30i, 24000)]


CHECKS = [C18(), C21(), C27(), C30()]
