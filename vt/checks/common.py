import functools
from .. import build, gen, lang
from ..client import Violation, Crash, q
from ..runner import Sub, Trivial
from ..lang import Unmodelled


@functools.lru_cache(None)
def term_exec():
    return {"term": build.executor("term", ["term_exec.cpp", "term_exec2.cpp"])}


class Check:
    assumptions = []
    rule = ""

    def executors(self):
        return term_exec()

    def show(self, case):
        import json
        if isinstance(case, dict) and "lines" in case:
            try:
                return json.dumps([lang.line_text(l) for l in case["lines"]])
            except Exception:
                pass
        return json.dumps(case)


def need(ok, msg, *a):
    if not ok:
        raise Violation(msg % a if a else msg)


def is_task(r):
    return isinstance(r, dict) and "term" in r


def describe(r):
    if r is None:
        return "no task"
    if isinstance(r, dict) and "exc" in r:
        return "an exception (%s)" % r["exc"][:200]
    return "a task"


def must_parse(r, text):
    need(is_task(r), "the grammatical line %r gives %s", text, describe(r))


def model(l, degenerate=False):
    """Normal form of the sentence's term; Trivial when it is outside the modelled domain."""
    try:
        return lang.denote(l["t"], degenerate)
    except Unmodelled:
        raise Trivial()


def modelled(l, degenerate=False):
    try:
        lang.denote(l["t"], degenerate)
        return True
    except Unmodelled:
        return False


def valid_lines(c):
    return isinstance(c.get("lines"), list) and all(lang.valid_line(l) for l in c["lines"])


def shape(t):
    """Labels for the distribution report."""
    s = set()
    for x in lang.subterms(t):
        s.add(x[1] if x[0] in ("stm", "cmp") else x[0])
    n = lang.size(t)
    s.add("size<=3" if n <= 3 else "size<=12" if n <= 12 else "size<=40" if n <= 40 else "size>40")
    d = lang.depth(t)
    if d > 20:
        s.add("depth>20")
    return s


def noise(rng):
    """Allocations that move later objects to other addresses (atoms hash by address)."""
    return [rng.choice([16, 24, 32, 48, 64, 96, 128, 200, 400, 1000]) for _ in range(rng.choice([0, 0, 1, 3, 10, 40]))]


def noise_cmds(ns):
    return [["noise", n] for n in ns]


def unordered(d):
    """A dump of a term without addresses, hashes and the arbitrary order inside commutative compounds."""
    return lang.from_dump(d)
