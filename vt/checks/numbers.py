"""Truth values, evidence, truth functions, projection and Boolean functions (C22-C25).

The oracle is exact: inputs are the float32 values the program receives, results are computed with
fractions; the tolerances are those of a few float32 operations, whatever their order."""
import functools, math, struct
from fractions import Fraction as F
from .. import build
from ..runner import Sub, Trivial
from .common import Check, need


@functools.lru_cache(None)
def num_exec():
    return {"num": build.executor("num", ["num_exec.cpp"])}


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


BELOW1 = f32(1 - 2.0**-24)
EPS = 2.0**-24


def isnum(x, lo, hi):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and lo <= x <= hi and math.isfinite(x)


def unit(rng):
    """A number in [0,1] as float32."""
    r = rng.random()
    if r < 0.12:
        return 0.0
    if r < 0.24:
        return 1.0
    if r < 0.34:
        return f32(rng.choice([0.5, 0.9, 0.1, 0.25, 0.75, 0.01, 0.99, 0.999]))
    if r < 0.42:
        return f32(10 ** -rng.uniform(0, 8))
    if r < 0.5:
        return min(1.0, f32(1 - 10 ** -rng.uniform(0, 8)))
    if r < 0.55:
        return rng.choice([f32(0.5 + EPS * 2), f32(0.5 - EPS), BELOW1, f32(2.0**-24), f32(1e-3)])
    return f32(rng.random())


def conf(rng):
    c = unit(rng)
    return BELOW1 if c >= 1 else c


def konst(rng):
    r = rng.random()
    return 1.0 if r < 0.5 else f32(rng.choice([0.5, 2.0, 10.0, 0.1, 3.0, 100.0])) if r < 0.75 else f32(10 ** rng.uniform(-2, 3))


def close(got, want, rel, ab):
    if isinstance(got, str):
        return False
    return abs(F(got) - want) <= F(rel) * abs(want) + F(ab)


R = 1e-6           # several float32 roundings
FLT = 1.2e-38      # below the smallest normal float
NEGLIGIBLE = 2e-8  # total evidence below this counts as none when the frequency is derived


def w_of(f, c, k):
    f, c, k = F(f), F(c), F(k)
    w = k * c / (1 - c)
    return w, f * w, (1 - f) * w


def in_truth(what, t, top=1.0):
    need(not any(isinstance(x, str) for x in t), "%s is not a number: %s", what, t)
    need(0 <= t[0] <= 1.000001, "%s has the frequency %r", what, t[0])
    need(0 <= t[1] <= top, "%s has the confidence %r", what, t[1])


def truth_of(what, t, w_p, w, k, ft=R):
    """t is the truth value of w_p positive of w total evidence."""
    in_truth(what, t)
    need(close(t[1], w / (w + F(k)), R, FLT), "%s has the confidence %r instead of %r", what, t[1], float(w / (w + F(k))))
    if w > NEGLIGIBLE:
        need(close(t[0], w_p / w, ft, 1e-30 + (0 if w_p == 0 else 1e-38 / float(w))), "%s has the frequency %r instead of %r", what, t[0], float(w_p / w))
    if w == 0:
        need(t[1] == 0, "%s without evidence has the confidence %r", what, t[1])


def batch(gen):
    return lambda rng, tier: {"items": [gen(rng) for _ in range(12)]}


def each(valid):
    def v(c):
        try:
            return isinstance(c, dict) and isinstance(c["items"], list) and len(c["items"]) > 0 and all(valid(x) for x in c["items"])
        except (KeyError, TypeError, IndexError):
            return False
    return v


def hexes(xs):
    return [repr(float(x)) for x in xs]


def is_truth(t):
    return isinstance(t, list) and len(t) == 3 and isnum(t[0], 0, 1) and isnum(t[1], 0, BELOW1) and isnum(t[2], 1e-3, 1e4) and all(f32(x) == x for x in t)


# ---------------------------------------------------------------------------------------------- C22

def g22(rng):
    return [unit(rng), conf(rng), konst(rng)]


def one22(t, r, labels):
    f, c, k = t
    what = "the truth value (f=%r, c=%r, k=%r)" % tuple(t)
    w, wp, wm = w_of(*t) # the negative evidence may be the difference of the others, as good as their rounding
    names = ["Truth::w", "Truth::w_p", "Truth::w_m"]
    for i, (got, want) in enumerate(zip(r[0:3], (w, wp, wm))):
        need(close(got, want, R, R * w * (want is wm) + FLT) and got >= 0, "%s: %s is %r instead of %r", what, names[i], got, float(want))
    e = F(c) * (F(f) - F(1, 2)) + F(1, 2)
    need(close(r[3], e, R, 0) and 0 <= r[3] <= 1, "%s: the expectation is %r instead of %r", what, r[3], float(e))
    for n, got, want in zip(("fc_to_w", "fc_to_w_plus", "fc_to_w_minus", "w_from_truth (+)", "w_from_truth (-)", "w_from_truth (+)", "w_from_truth (-)"), r[4:11], (w, wp, wm, wp, wm, wp, wm)):
        need(close(got, want, R, R * w * (want is wm) + FLT) and got >= 0, "%s: %s is %r instead of %r", what, n, got, float(want))
    need(r[11:14] == t, "%s: reading its evidence changed it to %s", what, r[11:14])
    for n, b in (("truth_from_w", r[14:17]), ("set_w on another truth value", r[17:20]), ("set_w on itself", r[20:23])):
        x = "%s: the value restored by %s" % (what, n)
        in_truth(x, b)
        need(b[2] == k, "%s has the evidence constant %r", x, b[2])
        need(close(b[1], F(c), R, FLT), "%s has the confidence %r", x, b[1])
        if w > NEGLIGIBLE:
            need(close(b[0], F(f), R, 1e-30 if f == 0 else FLT / float(w)), "%s has the frequency %r", x, b[0])
        if c == 0:
            need(b[1] == 0, "%s has the confidence %r", x, b[1])
    labels.add("c=0" if c == 0 else "c small" if c < 1e-3 else "c near 1" if c > 0.999 else "c middle")
    labels.add("f=0" if f == 0 else "f=1" if f == 1 else "f between")
    labels.add("k=1" if k == 1 else "k other")


def c22(c, ctx):
    labels = set()
    rs = ctx.run("num", [["evidence"] + hexes(t) for t in c["items"]])
    exp = []
    for t, r in zip(c["items"], rs):
        one22(t, r, labels)
        exp.append((t, r[3]))
    # expectation grows with frequency
    cmds = []
    for t, _ in exp:
        lo = [f32(t[0] / 2), t[1], t[2]]
        hi = [f32((t[0] + 1) / 2), t[1], t[2]]
        cmds += [["evidence"] + hexes(lo), ["evidence"] + hexes(hi)]
    rs2 = ctx.run("num", cmds)
    for i, (t, e) in enumerate(exp):
        need(rs2[2 * i][3] <= e <= rs2[2 * i + 1][3], "at c=%r the expectations of the frequencies %r, %r, %r are %r, %r, %r", t[1], f32(t[0] / 2), t[0], f32((t[0] + 1) / 2), rs2[2 * i][3], e, rs2[2 * i + 1][3])
    return labels


def g22w(rng):
    r = rng.random()
    w = 0.0 if r < 0.12 else f32(10 ** rng.uniform(-7, 6)) if r < 0.8 else f32(rng.choice([1, 2, 3, 10, 0.5, 100, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 1e6]))
    share = unit(rng)
    return [min(w, f32(w * share)), w, konst(rng)]


def v22w(t):
    return isinstance(t, list) and len(t) == 3 and isnum(t[1], 0, 1e7) and isnum(t[0], 0, t[1]) and isnum(t[2], 1e-3, 1e4) and all(f32(x) == x for x in t)


def c22w(c, ctx):
    labels = set()
    rs = ctx.run("num", [["amounts"] + hexes(t) for t in c["items"]])
    for t, r in zip(c["items"], rs):
        wp, w, k = t
        what = "%r positive of %r total evidence with constant %r" % tuple(t)
        if w > NEGLIGIBLE:
            need(close(r[0], F(wp) / F(w), R, FLT), "%s: w_to_f gives %r", what, r[0])
        need(not isinstance(r[0], str) and 0 <= r[0] <= 1.000001, "%s: w_to_f gives %r", what, r[0])
        need(close(r[1], F(w) / (F(w) + F(k)), R, FLT), "%s: w_to_c gives %r", what, r[1])
        need(r[4] == k and r[7] == 1 and r[10] == k, "%s: the constants of the results are %s", what, [r[4], r[7], r[10]])
        truth_of("%s: truth_from_w" % what, r[2:5], F(wp), F(w), k)
        truth_of("%s: truth_from_w without constant" % what, r[5:8], F(wp), F(w), 1)
        truth_of("%s: set_w" % what, r[8:11], F(wp), F(w), k)
        # back to evidence: as good as the float confidence allows
        if w > NEGLIGIBLE and r[9] < 1:
            c1 = F(r[9])
            for n, got, want in zip(("w", "w_p", "w_m"), r[11:14], (F(w), F(wp), F(w) - F(wp))):
                slack = R + 4 * EPS * float((F(w) + F(k)) / F(k))
                need(close(got, want, slack, slack * w + FLT), "%s: after set_w, %s is %r instead of %r", what, n, got, float(want))
        if w == 0:
            need(r[2] == r[5] == r[8] == 0.5, "%s: the frequencies without evidence are %s", what, [r[2], r[5], r[8]])
        labels.add("none" if w == 0 else "little" if w < 1e-3 else "much" if w > 1e3 else "some")
    return labels


class C22(Check):
    id = "C22"
    rule = "batches of twelve truth values or evidence amounts, weighted to the ends of the ranges; every conversion compared with exact fractions; non-trivial: every distinct batch"

    def executors(self):
        return num_exec()

    def subs(self):
        return [Sub("conversions", batch(g22), c22, each(is_truth), 6000), Sub("amounts", batch(g22w), c22w, each(v22w), 6000)]


# ---------------------------------------------------------------------------------------------- C23

def g23(rng):
    k = konst(rng)
    t = [[unit(rng), conf(rng), k] for _ in range(3)]
    if rng.random() < 0.15:
        t[1] = list(t[0])
    if rng.random() < 0.2:
        t[2][2] = t[1][2] = konst(rng)
    return t


def v23(x):
    return isinstance(x, list) and len(x) == 3 and all(is_truth(t) for t in x)


def revised(what, got, a, b):
    w1, p1, _ = w_of(*a)
    w2, p2, _ = w_of(*b)
    # the program derives evidence from float confidences; every factor is a rounded float32 operation
    truth_of(what, got, p1 + p2, w1 + w2, a[2])
    need(got[2] == a[2], "%s has the evidence constant %r", what, got[2])
    if a[2] == b[2]:
        need(got[1] >= max(a[1], b[1]) * (1 - R), "%s is less confident (%r) than its premises", what, got[1])


def c23r(c, ctx):
    labels = set()
    cmds = []
    for a, b, d in c["items"]:
        cmds += [["revision"] + hexes(a + b), ["revision"] + hexes(b + a), ["revisionself"] + hexes(a)]
        w1, p1, m1 = (float(x) for x in w_of(*a))
        w2, p2, m2 = (float(x) for x in w_of(*b))
        cmds.append(["sums"] + hexes([p1, p2, m1, m2]))
    rs = ctx.run("num", cmds)
    second = []
    for i, (a, b, d) in enumerate(c["items"]):
        ab, ba, aa, sums = rs[4 * i:4 * i + 4]
        for x, y, r in ((a, b, ab), (b, a, ba)):
            what = "the revision of %s by %s" % (x, y)
            revised(what, r[0:3], x, y)
            need(r[3:6] == y and r[9:12] == y, "%s changes the second truth value to %s, %s", what, r[3:6], r[9:12])
            need(r[6:9] == r[0:3], "%s is %s for pointers and %s for references", what, r[0:3], r[6:9])
        if a[2] == b[2]:
            need(close(ab[0], F(ba[0]), 2 * R, 1e-30) and close(ab[1], F(ba[1]), 2 * R, FLT), "revision is not commutative: %s and %s give %s and %s", a, b, ab[0:3], ba[0:3])
        revised("the revision of %s by itself" % a, aa, a, a)
        w1, p1, m1 = w_of(*a)
        w2, p2, m2 = w_of(*b)
        need(close(sums[0], p1 + p2, R, FLT) and close(sums[1], m1 + m2, R, FLT), "the evidence of %s and %s adds up to %s", a, b, sums)
        labels.add("equal" if a == b else "no evidence" if w1 + w2 == 0 else "one without evidence" if w1 * w2 == 0 else "both with evidence")
        if a[2] == b[2] == d[2] and max(a[1], b[1], d[1]) <= 0.999 and max(ab[1], 0) < 1:
            second.append((a, b, d, ab[0:3]))
    cmds = []
    for a, b, d, ab in second:
        cmds += [["revision"] + hexes(ab + d), ["revision"] + hexes(b + d)]
    r2 = ctx.run("num", cmds) if cmds else []
    cmds = []
    for i, (a, b, d, ab) in enumerate(second):
        cmds.append(["revision"] + hexes(a + r2[2 * i + 1][0:3]))
    r3 = ctx.run("num", cmds) if cmds else []
    for i, (a, b, d, ab) in enumerate(second):
        l, r = r2[2 * i][0:3], r3[i][0:3]
        w = sum(w_of(*x)[0] for x in (a, b, d))
        need(abs(l[1] - r[1]) <= 4 * R, "revision is not associative: %s, %s, %s give %s and %s", a, b, d, l, r)
        if w > 1e-4:   # intermediate frequencies of negligible evidence are not kept
            need(abs(l[0] - r[0]) <= 1e-3, "revision is not associative: %s, %s, %s give %s and %s", a, b, d, l, r)
            labels.add("associative")
    return labels


def c23i(c, ctx):
    labels = set()
    cmds = []
    for a, b, d in c["items"]:
        b = b[:2] + [a[2]]
        cmds += [["infer"] + hexes(a + b) + ["0"], ["infer"] + hexes(b + a) + ["0"], ["infer"] + hexes(a + a) + ["1"]]
    n = len(cmds)
    other = [(a, b) for a, b, d in c["items"] if a[2] != b[2]]     # evidence constants differ
    for a, b in other:
        cmds += [["infer"] + hexes(a + b) + ["0"], ["infer"] + hexes(b + a) + ["0"]]
    rs = ctx.run("num", cmds)
    for i, (a, b) in enumerate(other):
        m1, m2 = rs[n + 2 * i][18:21], rs[n + 2 * i + 1][18:21]
        need(m1[2] == m2[2] and close(m1[1], F(m2[1]), 2 * R, FLT) and (close(m1[0], F(m2[0]), 2 * R, 1e-30) or (a[1] * b[1] * max(a[0], b[0]) <= NEGLIGIBLE)), "comparison is not symmetric: %s and %s give %s and %s", a, b, m1, m2)
        labels.add("constants differ")
    for i, (a, b, d) in enumerate(c["items"]):
        b = b[:2] + [a[2]]
        for x, y, r in ((a, b, rs[3 * i]), (b, a, rs[3 * i + 1]), (a, a, rs[3 * i + 2])):
            f1, c1, f2, c2 = F(x[0]), F(x[1]), F(y[0]), F(y[1])
            k = x[2]
            w = "of %s and %s" % (x, y)
            ded, ind, com = r[0:3], r[9:12], r[18:21]
            for n, at in (("deduction", 3), ("induction", 12), ("comparison", 21)):
                need(r[at:at + 3] == x and r[at + 3:at + 6] == y, "the %s %s changes its arguments to %s, %s", n, w, r[at:at + 3], r[at + 3:at + 6])
            need(r[27] is True, "a truth function %s returns one of its arguments", w)
            in_truth("the deduction " + w, ded, BELOW1)
            need(close(ded[0], f1 * f2, R, FLT) and close(ded[1], f1 * f2 * c1 * c2, R, FLT) and ded[2] == k, "the deduction %s is %s instead of f=%r c=%r k=%r", w, ded, float(f1 * f2), float(f1 * f2 * c1 * c2), k)
            for n, t, wp, ww in (("induction", ind, f1 * f2 * c1 * c2, f2 * c1 * c2), ("comparison", com, f1 * f2 * c1 * c2, (1 - (1 - f1) * (1 - f2)) * c1 * c2)):
                what = "the %s %s" % (n, w)
                in_truth(what, t, BELOW1)
                if k == 1:
                    need(t[2] == 1, "%s has the evidence constant %r", what, t[2])
                truth_of(what, t, wp, ww, t[2])
        m1, m2 = rs[3 * i][18:21], rs[3 * i + 1][18:21]
        need(close(m1[1], F(m2[1]), 2 * R, FLT) and (close(m1[0], F(m2[0]), 2 * R, 1e-30) or (a[1] * b[1] * max(a[0], b[0]) <= NEGLIGIBLE)), "comparison is not symmetric: %s and %s give %s and %s", a, b, m1, m2)
        labels.add("no evidence" if a[1] * b[1] * b[0] == 0 else "f 0 or 1" if a[0] in (0, 1) or b[0] in (0, 1) else "inner")
    return labels


class C23(Check):
    id = "C23"
    rule = "batches of twelve triples of truth values weighted to the ends of the ranges, also the same object twice; results compared with exact fractions; revision also for commutativity and associativity; non-trivial: every distinct batch"

    def executors(self):
        return num_exec()

    def subs(self):
        return [Sub("revision", batch(g23), c23r, each(v23), 6000), Sub("inference", batch(g23), c23i, each(v23), 6000)]


# ---------------------------------------------------------------------------------------------- C24

def moment(rng, near):
    r = rng.random()
    if near and r < 0.5:
        return rng.choice(near) + rng.choice([0, 1, -1, 5, -5, 10, rng.randrange(-50, 50), rng.randrange(-5000, 5000)])
    if r < 0.75:
        return rng.randrange(-200, 200)
    if r < 0.9:
        return rng.randrange(-10**6, 10**6)
    return rng.choice([0, 2**31, -2**31, 2**32 + 3, 2**40, -2**40, 2**51, rng.randrange(-2**51, 2**51)])


def g24(rng):
    near = []
    for _ in range(3):
        near.append(moment(rng, near))
    rng.shuffle(near)
    d = rng.choice([None, None, 0, 1, 5, 10, 100, 1000, 10**6, 2**33, rng.randrange(1, 10**4)])
    return {"t": [unit(rng), conf(rng) if rng.random() < 0.9 else 1.0, konst(rng)], "s": near[0], "c": near[1], "g": near[2], "d": d, "more": [rng.randrange(1, 100), rng.randrange(1, 10**6)]}


def v24(x):
    return (isinstance(x, dict) and isinstance(x["t"], list) and len(x["t"]) == 3 and isnum(x["t"][0], 0, 1) and isnum(x["t"][1], 0, 1) and isnum(x["t"][2], 1e-3, 1e4) and all(f32(v) == v for v in x["t"])
            and all(moment_ok(x[n]) for n in "scg") and (x["d"] is None or (isinstance(x["d"], int) and 0 <= x["d"] <= 2**34)) and all(isinstance(m, int) and 1 <= m <= 10**6 for m in x["more"]))


def moment_ok(v):
    return isinstance(v, int) and not isinstance(v, bool) and abs(v) <= 2**52   # distances are exact in doubles


def project_cmd(t, s, c, g, d):
    return ["project"] + hexes(t) + [s, c, g] + ([] if d is None else [d])


def c24(c, ctx):
    labels = set()
    cmds, plan = [], []
    for x in c["items"]:
        cmds += [project_cmd(x["t"], x["s"], x["c"], x["g"], x["d"]), project_cmd(x["t"], x["s"], x["c"], x["s"], x["d"])]
        # a chain of targets that moves away from the source, on the side away from the current time
        away = 1 if x["c"] <= x["s"] else -1
        g = x["s"]
        for m in x["more"]:
            g += away * m
            cmds.append(project_cmd(x["t"], x["s"], x["c"], g, x["d"]))
    rs = ctx.run("num", cmds)
    i = 0
    for x in c["items"]:
        t, s, now, g, d = x["t"], x["s"], x["c"], x["g"], x["d"]
        decay = 1000 if d is None else d
        what = "projecting %s from %d to %d at %d with decay %s" % (t, s, g, now, d)
        r = rs[i]
        i += 1
        need(r[3:6] == t and r[6] is True, "%s changes its argument to %s", what, r[3:6])
        need(r[0] == t[0] and r[2] == t[2], "%s gives f=%r, k=%r", what, r[0], r[2])
        total = abs(s - now) + abs(g - now) + decay
        c1 = F(t[1])
        want = c1 * (1 - F(abs(s - g), total)) if total else c1
        need(close(r[1], want, R, float(c1) * 1e-12 + FLT), "%s gives the confidence %r instead of %r", what, r[1], float(want))
        need(0 <= r[1] <= t[1], "%s gives the confidence %r", what, r[1])
        r = rs[i]
        i += 1
        need(r[0:3] == t, "%s: projecting to its own time gives %s", what, r[0:3])
        last = t[1]
        gg = s
        for m in x["more"]:
            r = rs[i]
            i += 1
            gg += m if now <= s else -m
            need(r[1] <= last * (1 + R), "projecting %s from %d at %d with decay %s: moving the target on to %d raises the confidence from %r to %r", t, s, now, d, gg, last, r[1])
            last = r[1]
        labels.add("own time" if s == g else "towards" if abs(g - now) < abs(s - now) else "away")
        labels.add("across now" if (s - now) * (g - now) < 0 else "one side")
        labels.add("default decay" if d is None else "no decay" if d == 0 else "decay")
        if max(abs(s), abs(g), abs(now)) > 2**31:
            labels.add("beyond 32 bits")
    return labels


class C24(Check):
    id = "C24"
    rule = "batches of twelve projections over times up to 2^52 clustered around each other, decay 0 to 2^33 or the default; compared with exact fractions, plus the own-time and moving-away relations; non-trivial: every distinct batch"

    def executors(self):
        return num_exec()

    def subs(self):
        return [Sub("projection", batch(g24), c24, each(v24), 20000)]


# ---------------------------------------------------------------------------------------------- C25

def unit64(rng):
    r = rng.random()
    return rng.random() if r < 0.5 else unit(rng) if r < 0.9 else rng.choice([1e-300, 1e-16, 1 - 2.0**-53, 5e-324, 1e-8, 0.5, 1.0, 0.0])


def g25(rng):
    return [unit64(rng) for _ in range(rng.choice([2, 3, 4]))]


def v25(x):
    return isinstance(x, list) and 2 <= len(x) <= 4 and all(isnum(v, 0, 1) for v in x)


def v25l(x):
    return isinstance(x, list) and len(x) in LENGTHS and all(isnum(v, 0, 1) for v in x)


LENGTHS = list(range(33)) + [33, 48, 49, 64, 65, 100, 101, 128, 129, 200, 201, 256, 257, 300, 301]


def g25l(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 16, 32]) if rng.random() < 0.7 else rng.choice(LENGTHS)
    x = [unit64(rng) for _ in range(n)]
    if n and rng.random() < 0.5: # so that the result is not 1 at once
        x = [v / n for v in x]
    return x


def product(x):
    r = F(1)
    for v in x:
        r *= F(v)
    return r


def c25(c, ctx):
    labels = set()
    cmds = []
    for x in c["items"]:
        comp = [1 - v for v in x]
        h, y = hexes(x), hexes(reversed(x))
        cmds += [["and"] + h, ["or"] + h, ["orlist"] + h, ["and"] + y, ["or"] + y, ["and"] + hexes(comp), ["or"] + hexes(comp)]
        cmds += [["and"] + hexes(x[:2]), ["or"] + hexes(x[:2])]
    rs = [r[0] for r in ctx.run("num", cmds)]
    nested = []
    for i, x in enumerate(c["items"]):
        r = rs[9 * i:9 * i + 9]
        need(not any(isinstance(v, str) for v in r), "And/Or of %s are %s", x, r)
        p = product(x)
        o = 1 - product([1 - F(v) for v in x])
        need(close(r[0], p, 1e-14, 1e-320), "And%s is %r instead of %r", tuple(x), r[0], float(p))
        need(close(r[1], o, 1e-14, 1e-15), "Or%s is %r instead of %r", tuple(x), r[1], float(o))
        need(close(r[2], o, 1e-14, 1e-15), "Or({%s}) is %r instead of %r", x, r[2], float(o))
        need(all(0 <= v <= 1 for v in r), "And/Or of %s are %s", x, r)
        need(close(r[3], F(r[0]), 1e-14, 1e-320) and close(r[4], F(r[1]), 1e-14, 1e-15), "And/Or of %s depend on the order: %s", x, r[:5])
        need(abs(r[5] - (1 - r[1])) <= 1e-14 and abs(r[6] - (1 - r[0])) <= 1e-14, "And and Or of %s are not dual: %s", x, r)
        labels.add("%d arguments" % len(x))
        if any(v in (0, 1) for v in x):
            labels.add("with 0 or 1")
        nested += [["and"] + hexes([r[7]] + (x[2:] or [1.0])), ["or"] + hexes([r[8]] + (x[2:] or [0.0]))]
    ns = [r[0] for r in ctx.run("num", nested)]
    for i, x in enumerate(c["items"]):
        need(close(ns[2 * i], F(rs[9 * i]), 1e-13, 1e-320) and abs(ns[2 * i + 1] - rs[9 * i + 1]) <= 1e-14, "And/Or of %s are not associative: %r and %r instead of %r and %r", x, ns[2 * i], ns[2 * i + 1], rs[9 * i], rs[9 * i + 1])
    return labels


def c25l(c, ctx):
    labels = set()
    cmds = []
    for x in c["items"]:
        cmds += [["orlist"] + hexes(x), ["orlist"] + hexes(sorted(x)), ["orlist"] + hexes(x + [0.0] if len(x) + 1 in LENGTHS else x[:-1] + [0.0])]
    rs = [r[0] for r in ctx.run("num", cmds)]
    for i, x in enumerate(c["items"]):
        a, b, z = rs[3 * i:3 * i + 3]
        need(not any(isinstance(v, str) for v in (a, b, z)), "Or({%s}) is %s", x, a)
        o = 1 - product([1 - F(v) for v in x])
        need(close(a, o, 1e-13, 1e-14) and 0 <= a <= 1, "Or({%s}) is %r instead of %r", x, a, float(o))
        need(abs(a - b) <= 1e-13, "Or({%s}) depends on the order: %r and %r", x, a, b)
        if len(x) + 1 in LENGTHS:
            need(abs(a - z) <= 1e-14, "Or({%s}) with another 0 is %r instead of %r", x, z, a)
        labels.add("list of %s" % (len(x) if len(x) < 5 else ">=5" if len(x) < 33 else ">=33"))
    return labels


class C25(Check):
    id = "C25"
    rule = "batches of twelve argument lists in [0,1] (2-4 arguments, lists of 0-301) with 0, 1, denormals and neighbours of 1; compared with exact fractions, and for order, duality, neutral elements and nesting; non-trivial: every distinct batch"

    def executors(self):
        return num_exec()

    def subs(self):
        return [Sub("functions", batch(g25), c25, each(v25), 6000),
                Sub("lists", batch(g25l), c25l, each(v25l), 4000)]


CHECKS = [C22(), C23(), C24(), C25()]
