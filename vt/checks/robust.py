"""C07: hostile input.  Recipes of large and malformed lines, byte mutations, and a libFuzzer campaign."""
import re
import functools, glob, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
from .. import build, gen, lang, shrink as shrinker
from ..client import Violation, q
from ..runner import Sub, Trivial, replay_dir
from .common import Check, need, term_exec
from .language import mutate_chars, mutate_tokens

DEPTH = 2500     # nesting; needs about 20 MB of stack with sanitisers, the executor has 512
LENGTH = 60000


@functools.lru_cache(None)
def robust_exec():
    return {"term": term_exec()["term"], "fuzz": build.executor("parse-fuzz", ["parse_fuzz.cpp"], mode="fuzz")}


# a recipe is a list of [text, repetitions]; {} in the text is replaced by the number of the repetition

def cook(recipe):
    return "".join("".join(t.replace("{#}", str(i)) for i in range(n)) if "{#}" in t else t * n for t, n in recipe)


def nesting(s):
    d = m = 0
    for c in s:
        if c in "(<{[":
            d += 1
            m = max(m, d)
        elif c in ")>}]" and d:
            d -= 1
    return m


def valid_recipe(r):
    if not (isinstance(r, list) and all(isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], int) and 0 <= x[1] <= LENGTH and len(x[0]) < 4000 for x in r)):
        return False
    if sum(len(t) * n for t, n in r) > 2 * LENGTH:
        return False
    s = cook(r)
    return len(s) <= 2 * LENGTH and nesting(s) <= DEPTH and nesting(s) * (s.count("$") + s.count("#") + s.count("?")) <= 300000 and all(ord(c) < 256 for c in s)


def count(rng):
    """How often something is repeated: round numbers of the parser's buffers and their neighbours, or anything."""
    r = rng.random()
    if r < 0.25:
        return max(1, 128 * rng.choice([1, 1, 2, 3, 4, 8]) + rng.randrange(-3, 4))
    if r < 0.45:
        return max(1, 64 * rng.choice([1, 1, 2, 3, 5]) + rng.randrange(-3, 4))
    if r < 0.6:
        return rng.randrange(1, 40)
    if r < 0.9:
        return rng.randrange(1, 700)
    return rng.randrange(700, 2400)


def nest(rng):
    """A term nested n deep, as recipe; also well-formed."""
    n = count(rng)
    form = rng.randrange(9)
    leaf = rng.choice(["a", "$x", "#y", "?z", "^go", "+5", '"q q"', "{a}"])
    if form == 0:
        return [["(--, ", n], [leaf, 1], [")", n]]
    if form == 1:
        return [["{", n], [leaf, 1], ["}", n]]
    if form == 2:
        return [["<a --> ", n], [leaf, 1], [">", n]]
    if form == 3:
        n = min(n, rng.choice([20, 63, 65, 128, 130, 200]))   # every level keeps the positions of all variables below
        return [["<", n], [leaf, 1], [" ==> $b>", n]]
    if form == 4:
        return [["(*, a, ", n], [leaf, 1], [")", n]]
    if form == 5:
        n = min(n, rng.choice([20, 65, 129, 260, 400]))   # every level sorts the flattened components again
        return [["(", n], [leaf, 1], [" & b{#})", n]]
    if form == 6:
        return [["[{", n // 2 + 1], [leaf, 1], ["}]", n // 2 + 1]]
    if form == 7:
        return [["(^go, ", n], [leaf, 1], [")", n]]
    n = min(n, 770)   # the time of printing grows with the square of the depth
    return [["(&/, b, +1, ", n], [leaf, 1], [")", n]]


def broad(rng):
    n = count(rng) * rng.choice([1, 1, 1, 2])
    leaf = rng.choice(["a{#}", "a", "$v{#}", "#x", "+{#}", "{a{#}}".replace("a{#}", "a"), "<a --> b{#}>", '"{#} x"', "^o{#}"])
    sep = rng.choice([", ", ",", " , "])
    form = rng.randrange(6)
    c = rng.choice(["&&", "||", "*", "&|", "&/", "|", "&", "\\", "/"])
    if form < 2:
        return [["(" + c + sep, 1], [leaf + sep, n], ["z", 1], [")", 1]]
    if form == 2:
        return [["{", 1], [leaf + sep, n], ["z}", 1]]
    if form == 3:
        return [["[", 1], [leaf + sep, n], ["z]", 1]]
    if form == 4:
        return [["(^op" + sep, 1], [leaf + sep, n], ["z)", 1]]
    c = rng.choice(["&&", "||", "*", "&|", "&/", "|", "&"])
    return [["(", 1], [leaf + " " + c + " ", n], ["z)", 1]]


def long(rng):
    n = count(rng) * rng.choice([1, 1, 1, 1, 10])
    form = rng.randrange(6)
    if form == 0:
        return [[rng.choice(["a", "Z", "\xe9", "b0", "_", "a{#}"]), n]]
    if form == 1:
        return [['"', 1], [rng.choice(["a", " ", "{}", "%s", "\xe9", "<", "a\\\\", 'a\\"']), n], ['"', 1]]
    if form == 2:
        return [["<a --> " + rng.choice(["$", "#", "?"]), 1], ["v", n], [">", 1]]
    if form == 3:
        return [["^", 1], ["o", n]]
    if form == 4:
        return [["(*, a, +", 1], [rng.choice("0019"), rng.randrange(1, 9)], ["1)", 1]]
    return [["(*, ", 1], ["b", n], [", ", 1], ["b", n], [")", 1]]


ENDS = [".", "?", "!", "@", ". :|:", "! :/: %1.0;0.9%", ". :!5: %0.5%", "? :\\:"]


def g_valid_large(rng, tier):
    t = rng.choice([nest, nest, broad, long])(rng)
    pad = rng.choice([0, 0, 1, 2]) and [[" ", count(rng)]]
    return {"recipes": [(pad or []) + t + [[rng.choice(ENDS), 1]]], "again": rng.randrange(2)}


def c_large(c, ctx):
    """Used by C01: large lines of the grammar are accepted, printed and accepted again."""
    text = [cook(r) for r in c["recipes"]]
    cmds = [["survive", "p"] + [q(t) for t in text]]
    if c["again"]:
        cmds.append(["survive", "p"] + [q(t) for t in text])
    for rs in ctx.run("term", cmds):
        for r, t in zip(rs, text):
            need(r == "task task", "a line of %d characters, nested %d deep, %.60r...%.30r ends in: %s", len(t), nesting(t), t, t[-30:], r)
    return {"nesting " + bucket(nesting(text[0])), "length " + bucket(len(text[0]))}


def v_large(c):
    # sizes may shrink, the texts themselves must stay those of the generator: only well-formed lines are in the domain
    return v_stress(c) and c.get("again") in (0, 1) and all(wellformed(r) for r in c["recipes"])


def wellformed(r):
    """The recipe with its repetitions cut down is a grammatical line for certain (as the recipe is uniform, so is the large one)."""
    from .. import grammar
    ns = [n for _, n in r]
    small = [[t, min(n, 3)] for t, n in r]
    bare = re.sub(r'"(?:[^"\\](?:\\[\\"])?)*"', "q", cook(r))
    if '"' in bare or "\\q" in bare or re.search(r"(?<![A-Za-z_\xe9+!;%.0-9])[0-9]", bare):
        return False   # an odd quotation, or a number where a name should be
    return all(n >= 1 for n in ns) and cook(small).strip()[:1] not in ("$", "#", "?") and balanced(r) and grammar.may_be_line(cook(small))


def balanced(r):
    s = cook(r)
    return all(s.count(a) == s.count(b) for a, b in ("()", "<>", "{}", "[]")) or '"' in s


def bucket(n):
    for b in (1, 10, 64, 128, 256, 512, 1024, 4096, 16384):
        if n <= b:
            return "<=%d" % b
    return ">16384"


def damage(rng, recipe):
    r = [list(x) for x in recipe]
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(r))
        k = rng.random()
        if k < 0.25:
            del r[i]
        elif k < 0.5:
            r[i][1] = max(0, r[i][1] + rng.choice([1, -1, 5, -r[i][1], r[i][1]]))
        elif k < 0.75:
            r.insert(i, [rng.choice(["(", ")", "<", ">", "{", "}", "[", "]", ",", "-->", "&&", '"', "%", "$", ".", "\x00", "\n", "\xff", ":!", "+", "-", " "]), rng.choice([1, 1, 1, 2, 50, 128, 129])])
        else:
            r[i][0] = mutate_chars(rng, r[i][0] or "a")
        if not r:
            r = [["a", 1]]
    return r


def g_stress(rng, tier):
    rs = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        for attempt in range(5):
            t = rng.choice([nest, broad, long])(rng) + [[rng.choice(ENDS), 1]]
            k = rng.random()
            if k < 0.6:
                t = damage(rng, t)
            elif k < 0.7:
                t = [[rng.choice(["(", "<", "{", "[", "(&&, a", "(a && ", "<a -->", "(--,", '"', "%", "$0.5", ":!", "a ", ".", " ", "\t", "\x00", "\xff", "9", "+9", "-", "^", "$"]), min(count(rng) * 3, DEPTH - 10)]]
            if valid_recipe(t):
                rs.append(t)
                break
    return {"recipes": rs} if rs else None


def v_stress(c):
    return isinstance(c, dict) and isinstance(c.get("recipes"), list) and bool(c["recipes"]) and all(valid_recipe(r) for r in c["recipes"])


OUTCOMES = ("task task", "task", "null", "exception", "task exception")


def c_stress(c, ctx):
    text = [cook(r) for r in c["recipes"]]
    rs = ctx.run("term", [["survive", "p"] + [q(t) for t in text], ["survive", "p", q("<robin --> bird>.")]])
    for r, t in zip(rs[0], text):
        need(r in OUTCOMES, "a line of %d characters %.60r ends in: %s", len(t), t, r)
    need(rs[1] == ["task task"], "after hostile lines a plain one ends in %s", rs[1])
    return {"nesting " + bucket(max(map(nesting, text))), "length " + bucket(max(map(len, text)))} | set(rs[0])


def junk(rng):
    r = rng.random()
    if r < 0.15:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(0, 60))).decode("latin-1")
    if r < 0.3:
        return "".join(rng.choice(lang.OPS + ["a", "b", " ", "0.5", "9", '"', "\x00", "\x80", "\n"]) for _ in range(rng.randrange(0, 40)))
    l = gen.line(rng)
    st = lang.Style(l["st"])
    toks = lang.tokens_line(l, st)
    s = mutate_tokens(rng, toks) if rng.random() < 0.4 else mutate_chars(rng, lang.join(toks, st))
    if rng.random() < 0.3:
        s = list(s)
        for _ in range(rng.choice([1, 1, 3])):
            if s:
                s[rng.randrange(len(s))] = chr(rng.randrange(256))
        s = "".join(s)
    return s[:4000]


def g_bytes(rng, tier):
    return {"texts": [junk(rng) for _ in range(rng.choice([2, 5, 10]))], "reset": rng.randrange(2)}


def v_bytes(c):
    return isinstance(c, dict) and isinstance(c.get("texts"), list) and all(isinstance(s, str) and all(ord(x) < 256 for x in s) and nesting(s) < DEPTH for s in c["texts"]) and bool(c["texts"])


def c_bytes(c, ctx):
    cmds = [["survive", "p"] + [q(t) for t in c["texts"]]]
    if c["reset"]:
        cmds += [["dropparser", "p"]]
    cmds += [["survive", "p", q("<robin --> bird>.")]]
    rs = ctx.run("term", cmds)
    need(rs[-1] == ["task task"], "after %r a plain line ends in %s", c["texts"], rs[-1])
    return set(rs[0])


# -------------------------------------------------------------------------------- coverage-guided

DICT = ["-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>", "&&", "||", "&|", "&/", "|", "&", "-", "~", "--", "*", "/", "\\", "(", ")", "<", ">", "{", "}", "[", "]", ",", ".", "?", "!", "@", "%", ";", "$", "#", "^", "+", ":|:", ":/:", ":\\:", ":!", ":", "\"", "0.5", "1.0", "0.9", "99", "(--, a)", "(&/, a, +1)", "<a --> b>", "{a, b}", "(^go, a)", "$x", "#y", "?z"]


def fuzz_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=86:allocator_may_return_null=0:max_allocation_size_mb=2048:quarantine_size_mb=16:malloc_context_size=2:detect_stack_use_after_return=0:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=86"
    e["ASAN_SYMBOLIZER_PATH"] = ""
    e.pop("FZ_STACK", None)
    return e


def run_input(path, data):
    """Message if the fuzz target dies on data."""
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "input")
        with open(f, "wb") as fh:
            fh.write(data)
        try:
            r = subprocess.run([path, f], env=fuzz_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, cwd=d)
        except subprocess.TimeoutExpired:
            return "the program does not finish within 60 s"
        if r.returncode == 0:
            return None
        err = r.stderr.decode("latin-1")
        lines = [l.strip() for l in err.splitlines() if "ERROR:" in l or "runtime error:" in l or "terminate called" in l or "what():" in l]
        return "the program died: exit status %d %s" % (r.returncode, " | ".join(lines)[:600])


def text_of(rng):
    ls = gen.lines(rng, rng.choice([1, 1, 2, 4]))
    return "\n".join(lang.line_text(l) for l in ls).encode("latin-1", "replace")


def g_input(rng, tier):
    return {"text": "\n".join(junk(rng) for _ in range(rng.choice([1, 3]))) if rng.random() < 0.5 else text_of(rng).decode("latin-1")}


def v_input(c):
    return isinstance(c, dict) and isinstance(c.get("text"), str) and all(ord(x) < 256 for x in c["text"]) and len(c["text"]) < 20000


def c_input(c, ctx):
    m = run_input(ctx.paths["fuzz"], c["text"].encode("latin-1"))
    need(not m, "%r: %s", c["text"], m)
    return ["input"]


class C07(Check):
    id = "C07"
    rule = "large and deeply nested lines built from recipes (sizes weighted to the parser's 128-element steps) and damaged, byte- and token-mutated lines, run under address and undefined-behaviour sanitizers with a CPU limit; a libFuzzer campaign from a fresh corpus of generated lines; non-trivial: every distinct case; for the campaign, inputs libFuzzer kept because they reached new code"
    assumptions = ["memory errors and undefined behaviour are those AddressSanitizer and UndefinedBehaviorSanitizer (clang 18, without vptr checks) detect", "nesting is limited to %d levels with a stack of 512 MB" % DEPTH]

    def executors(self):
        return robust_exec()

    def subs(self):
        return [Sub("stress", g_stress, c_stress, v_stress, 1600), Sub("bytes", g_bytes, c_bytes, v_bytes, 8000), Sub("input", g_input, c_input, v_input, 24, 24)]

    def show(self, case):
        return json.dumps(case)

    def extra(self, tier, seed, paths, deadline):
        runs = int((9000 if tier == "quick" else 400000) * float(os.environ.get("VT_SCALE", "1")))
        procs = 8
        root = os.path.join(build.BUILD, "fuzz-%d" % os.getpid())
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        try:
            with open(os.path.join(root, "dict"), "w") as f:
                for w in DICT:
                    f.write('"%s"\n' % w.replace("\\", "\\\\").replace('"', '\\"'))
            left = max(30, min(200 if tier == "quick" else 2400, deadline - time.time()))
            ps = []
            for i in range(procs):
                d = os.path.join(root, "w%d" % i)
                os.makedirs(os.path.join(d, "corpus"))
                rng = random.Random("%s/fuzz/%d" % (seed, i))
                for k in range(60):
                    with open(os.path.join(d, "corpus", "s%02d" % k), "wb") as f:
                        f.write(text_of(rng)[:1500])
                log = open(os.path.join(d, "log"), "wb")
                ps.append((d, subprocess.Popen([paths["fuzz"], "corpus", "-seed=%d" % (int(hashlib.sha256(("%s/%d" % (seed, i)).encode()).hexdigest()[:7], 16) + 1), "-runs=%d" % runs, "-max_len=%d" % (700 if i % 2 else 160), "-dict=" + os.path.join(root, "dict"), "-timeout=25", "-rss_limit_mb=3000", "-max_total_time=%d" % left, "-print_final_stats=1", "-artifact_prefix=" + d + "/crash-", "-use_value_profile=%d" % (i % 4 == 3)], env=fuzz_env(), cwd=d, stdout=subprocess.DEVNULL, stderr=log)))
            executed = kept = 0
            cov = 0
            found = []
            for d, p in ps:
                try:
                    p.wait(left + 120)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                log = open(os.path.join(d, "log"), "rb").read().decode("latin-1")
                for l in log.splitlines():
                    if l.startswith("stat::number_of_executed_units:"):
                        executed += int(l.split()[-1])
                    if l.startswith("stat::new_units_added:"):
                        kept += int(l.split()[-1])
                    if " cov: " in l:
                        try:
                            cov = max(cov, int(l.split(" cov: ")[1].split()[0]))
                        except ValueError:
                            pass
                for a in sorted(glob.glob(d + "/crash-*")):
                    found.append(open(a, "rb").read())
            out = {"coverage": {"fuzzing": {"executed": executed, "kept": kept, "coverage_edges": cov, "processes": procs, "runs_each": runs}}, "evaluations": executed, "distinct_nontrivial": kept}
            for data in sorted(found, key=len):
                msgs = [run_input(paths["fuzz"], data) for _ in range(3)]
                if not all(msgs):
                    out["coverage"].setdefault("not_reproduced", []).append(data.decode("latin-1"))
                    continue
                fails = lambda c: run_input(paths["fuzz"], c["text"].encode("latin-1"))
                small = shrinker.shrink({"text": data.decode("latin-1")}, fails, v_input, seconds=40)
                msg = fails(small) or msgs[0]
                js = json.dumps(dict(property=self.id, sub="input", case=small, message=msg, seed=seed), indent=1)
                path = os.path.join(replay_dir(), "%s-%s.json" % (self.id, hashlib.sha256(js.encode()).hexdigest()[:12]))
                with open(path, "w") as f:
                    f.write(js)
                out["violation"] = {"message": "C07/fuzzing: %r: %s" % (small["text"], msg), "path": path}
                break
            return out
        finally:
            shutil.rmtree(root, ignore_errors=True)


CHECKS = [C07()]
