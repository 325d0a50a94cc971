"""Runs a check: generates cases from the seed, decides each against its oracle in parallel workers, shrinks
the first failure, confirms it, writes the replay file and the evidence file."""
import collections, hashlib, json, multiprocessing, os, queue, random, signal, sys, time, traceback
from . import build, client, shrink as shrinker
from .client import Violation, HarnessError

VERIF = build.VERIF
sys.setrecursionlimit(100000)


class Sub:
    """One executable statement of a property: a generator of cases and a decision for each.

    gen(rng, tier) -> case (plain data) or None to discard
    check(case, ctx) -> None/() if trivial, or an iterable of labels; raises Violation
    valid(case) -> the case is in the domain (used while shrinking)"""

    def __init__(self, name, gen, check, valid=lambda c: True, quick=2000, thorough=None, rule=""):
        self.name, self.gen, self.check, self.valid = name, gen, check, valid
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.rule = rule


class Trivial(Exception):
    """The case says nothing about the property."""


class Ctx:
    """The executors of one worker.  All cases of one executor process see the same addresses, which the order of
    components depends on; so the process is replaced now and then."""
    LIFE = 250

    def __init__(self, paths, cpu=30):
        self.paths = paths
        self.ex = {}
        self.cpu = cpu
        self.hold = False
        self.extra = collections.Counter()

    def run(self, name, cmds):
        e = self.ex.get(name)
        if e is None:
            e = self.ex[name] = client.Executor(self.paths[name], cpu=self.cpu)
        if e.cases >= self.LIFE and not self.hold:
            e.close()
            e.cases = 0
        for attempt in (0, 1, 2):
            try:
                return e.run(cmds)
            except HarnessError as x:
                if "ended unexpectedly" not in str(x):
                    raise
                e.close()
                if attempt == 2:
                    raise Violation("the program cannot be run at all: " + str(x))
            except BrokenPipeError:
                e.close()
                if attempt == 2:
                    raise Violation("the program cannot be run at all (broken pipe)")

    def close(self):
        for e in self.ex.values():
            e.close()


SLOW = float(os.environ.get("VT_SLOW", "0"))   # report cases slower than so many seconds


def rng_for(seed, sub, k):
    return random.Random("%s/%s/%d" % (seed, sub, k))


def _check(sub, case, ctx):
    try:
        return sub.check(case, ctx)
    except (TypeError, KeyError, IndexError, ValueError, AttributeError, ArithmeticError) as e:
        # the oracle could not make sense of what it observed (an infinite number where a truth value was
        # expected, a missing component): on a tree where the property holds this does not happen
        raise Violation("the observations are outside anything the property allows (%s: %s, %s)" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3].strip()))


def _decide(sub, case, ctx):
    """Message if the case violates, None otherwise."""
    try:
        _check(sub, case, ctx)
    except Violation as v:
        return str(v) or "violated"
    except Trivial:
        return None
    return None


def _again(sub, case, ctx):
    """The case fails in the same process too: nothing but the case and the layout of memory decides."""
    ctx.hold = True
    try:
        return _decide(sub, case, ctx) and _decide(sub, case, ctx)
    finally:
        ctx.hold = False


def _hunt(sub, case, paths, seconds=60, tries=40, want=1):
    """Looks for processes (layouts of memory) in which the case fails; returns their contexts and the message."""
    t0, found, msg = time.time(), [], None
    for i in range(tries):
        ctx = Ctx(paths)
        ctx.hold = True
        m = _decide(sub, case, ctx)
        if m and _decide(sub, case, ctx):
            msg = msg or m
            found.append(ctx)
            if len(found) >= want:
                break
        else:
            ctx.close()
        if time.time() - t0 > seconds:
            break
    return found, msg


def _worker(wid, nw, chk, subs, seed, tier, paths, counts, deadline, q, stop):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        ctx = Ctx(paths)
        stats = {}
        for s in subs:
            st = stats[s.name] = dict(evaluations=0, discarded=0, trivial=0, keys=set(), labels=collections.Counter(), samples=[], planned=counts[s.name], cut=False)
        # interleave the sub-checks so that a time limit cuts all of them alike
        plan = []
        for s in subs:
            n = counts[s.name]
            plan.extend(((k + 0.5) / n, s, k) for k in range(wid, n, nw))
        plan.sort(key=lambda x: (x[0], x[1].name))
        for _, s, k in plan:
            if stop.is_set():
                break
            st = stats[s.name]
            if time.time() > deadline:
                st["cut"] = True
                continue
            rng = rng_for(seed, s.name, k)
            case = s.gen(rng, tier)
            if case is None:
                st["discarded"] += 1
                continue
            st["evaluations"] += 1
            t0 = time.time()
            try:
                labels = _check(s, case, ctx)
            except Trivial:
                labels = None
            except Violation as v:
                sure = bool(_again(s, case, ctx))
                q.put(("violation", s.name, k, case, str(v), sure))
                if sure:
                    stop.set()
                    break
                labels = None
            if SLOW and time.time() - t0 > SLOW:
                print("slow: %s/%s %d: %.1f s" % (chk.id, s.name, k, time.time() - t0), flush=True)
            if labels is None:
                st["trivial"] += 1
            else:
                js = json.dumps(case)
                st["keys"].add(hashlib.blake2b(js.encode(), digest_size=8).digest())
                for l in labels:
                    st["labels"][l] += 1
                if len(st["samples"]) < 2 and len(js) < 1500:
                    st["samples"].append(case)
        ctx.close()
        for st in stats.values():
            st["labels"] = dict(st["labels"])
        q.put(("done", wid, stats, dict(ctx.extra)))
    except BaseException:
        q.put(("error", wid, traceback.format_exc()))
        stop.set()


def replay_dir():
    d = os.path.join(build.BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    return d


def known_findings(prop):
    """Entries 'known: property=<id> sub=<name> <description> :: <fragment of the message>' of the committed file."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                out.append(l.strip())
    return out


def run(chk, argv):
    """chk: object with id, subs(), executors() and optional assumptions, extra(tier, seed) hooks."""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    replay = None
    scale = float(os.environ.get("VT_SCALE", "1"))
    only = os.environ.get("VT_SUB")
    for i, a in enumerate(argv):
        if a == "--replay":
            replay = argv[i + 1]
        if a == "--tier":
            tier = argv[i + 1]
    t0 = time.time()
    paths = chk.executors()
    t_build = time.time() - t0
    subs = chk.subs()
    if only:
        subs = [s for s in subs if s.name == only]
    by = {s.name: s for s in subs}
    if replay:
        d = json.load(open(replay))
        ctx = Ctx(paths)
        msg = _decide(by[d["sub"]], d["case"], ctx)
        ctx.close()
        if not msg and d.get("layouts"):
            found, msg = _hunt(by[d["sub"]], d["case"], paths)
            for c in found:
                c.close()
        if msg:
            print(msg[:4000])
            print("VIOLATION property=%s replay=%s" % (chk.id, replay))
            return 1
        print("the property holds for this case")
        return 0
    nw = int(os.environ.get("VT_WORKERS", "0")) or min(8, max(2, os.cpu_count() or 4))
    counts = {s.name: max(1, int((s.quick if tier == "quick" else s.thorough) * scale)) for s in subs}
    limit = float(os.environ.get("VT_LIMIT", "0")) or (420 if tier == "quick" else 3000)
    deadline = t0 + limit
    mp = multiprocessing.get_context("fork")
    attempt = 0
    flaky = []
    skip = 0
    while True:
        q = mp.Queue()
        stop = mp.Event()
        procs = [mp.Process(target=_worker, args=(w, nw, chk, subs, seed, tier, paths, counts, deadline, q, stop)) for w in range(nw)]
        for p in procs:
            p.start()
        stats, extra, viols, errors = [], collections.Counter(), [], []
        left = nw
        while left:
            try:
                m = q.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in procs):
                    try:
                        m = q.get(timeout=1)
                    except queue.Empty:
                        break
                else:
                    continue
            if m[0] == "violation":
                viols.append(m[1:])
            elif m[0] == "error":
                errors.append(m[2])
                left -= 1
            else:
                stats.append(m[2])
                extra.update(m[3])
                left -= 1
        for p in procs:
            p.join(20)
            if p.is_alive():
                p.terminate()
        if errors:
            print(errors[0], file=sys.stderr)
            print("ERROR: the check itself failed", file=sys.stderr)
            return 2
        break
    status = 0
    lines = []
    if viols:
        viols.sort(key=lambda v: (not v[4], v[1], v[0]))
        ctx = Ctx(paths)
        ctx.hold = True
        for name, k, case, msg, sure in viols:
            s = by[name]
            again = [_decide(s, case, ctx) for _ in range(3)]
            pool, found = [ctx], None
            if not all(again):
                # the failure depends on the addresses of the terms, or on something that is not the case at all
                pool, found = _hunt(s, case, paths, tries=40, want=3)
            if not any(again) and not found and not (sure and "SIGKILL" not in msg):
                flaky.append(dict(sub=name, k=k, message=msg, case=case))
                continue

            def fails(c, s=s, pool=pool):
                for x in pool:
                    m = _decide(s, c, x)
                    if m:
                        return m
                return None

            small = shrinker.shrink(case, fails, s.valid, seconds=45) if pool else case
            final = fails(small) or fails(small)
            if not final:
                small, final = case, again[0] or again[1] or again[2] or found or msg
            for x in pool:
                if x is not ctx:
                    x.close()
            js = json.dumps(dict(property=chk.id, sub=name, case=small, message=final, seed=seed, index=k, layouts=not all(again)), indent=1)
            path = os.path.join(replay_dir(), "%s-%s.json" % (chk.id, hashlib.sha256(js.encode()).hexdigest()[:12]))
            with open(path, "w") as f:
                f.write(js)
            print("%s/%s: %.4000s" % (chk.id, name, final))
            show = getattr(chk, "show", None)
            if show:
                try:
                    print("  case: " + show(small)[:2000])
                except Exception:
                    print("  case: " + json.dumps(small)[:2000])
            else:
                print("  case: " + json.dumps(small)[:2000])
            lines.append("VIOLATION property=%s replay=%s" % (chk.id, path))
            status = 1
            break
        ctx.close()
    # merge
    cov = collections.OrderedDict()
    total, distinct, samples, per = 0, 0, [], {}
    for s in subs:
        ev = sum(st[s.name]["evaluations"] for st in stats if s.name in st)
        keys = set()
        labels = collections.Counter()
        sm = []
        for st in stats:
            keys |= st[s.name]["keys"]
            labels.update(st[s.name]["labels"])
            sm += st[s.name]["samples"]
        per[s.name] = dict(evaluations=ev, planned=counts[s.name], distinct_nontrivial=len(keys), discarded=sum(st[s.name]["discarded"] for st in stats), trivial=sum(st[s.name]["trivial"] for st in stats), cut_by_time=any(st[s.name]["cut"] for st in stats), classes=dict(sorted(labels.items())), rule=s.rule)
        total += ev
        distinct += len(keys)
        show = getattr(chk, "show", None)
        for c in sm[:2]:
            samples.append(dict(sub=s.name, case=c))
    cov["evaluations"] = total
    cov["distinct_nontrivial"] = distinct
    cov["rule"] = chk.rule
    cov["samples"] = samples
    cov["sub_checks"] = per
    if extra:
        cov["counters"] = dict(extra)
    if flaky:
        cov["not_reproduced"] = flaky
    hook = getattr(chk, "extra", None)
    if hook and status == 0:
        r = hook(tier, seed, paths, deadline)
        cov.update(r.get("coverage", {}))
        cov["evaluations"] += r.get("evaluations", 0)
        cov["distinct_nontrivial"] += r.get("distinct_nontrivial", 0)
        if r.get("violation"):
            status = 1
            print(r["violation"]["message"])
            lines.append("VIOLATION property=%s replay=%s" % (chk.id, r["violation"]["path"]))
    ev = collections.OrderedDict(property=chk.id, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=getattr(chk, "assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(lines))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, chk.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(chk.id):
        print("KNOWN-FINDING: " + k[len("known: "):])
    print("%s: %d cases, %d distinct and non-trivial, build %.1f s, total %.1f s" % (chk.id, total, distinct, t_build, time.time() - t0))
    if flaky:
        print("note: %d failure(s) did not reproduce and were not counted" % len(flaky))
    if total < 10 and status == 0:
        print("ERROR: too few cases were generated", file=sys.stderr)
        return 2
    for l in lines:
        print(l)
    return status
