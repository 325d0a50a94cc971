"""Runs inside the embedded Python (py_exec.cpp): carries out operations on the narsese module and reports
what Python sees."""
import gc, json, sys
import narsese
import vtcpp

sys.setrecursionlimit(100000)


def tidy(v):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, bytes):
        return v.decode("utf-8", "surrogateescape")
    if isinstance(v, float):
        return v if v - v == 0 else repr(v)
    if isinstance(v, (list, tuple)):
        return [tidy(x) for x in v]
    if isinstance(v, dict):
        return {a: tidy(b) for a, b in v.items()}
    return {"t": type(v).__name__, "r": repr(v)}


def run(data):
    ops = json.loads(data.decode("utf-8", "surrogateescape"))
    slots = {}
    out = []
    for op in ops:
        try:
            r = {"v": tidy(step(op, slots))}
        except BaseException as e:
            r = {"e": type(e).__name__, "b": [b.__name__ for b in type(e).__mro__], "m": str(e)[:300]}
            del e
        out.append(r)
    s = json.dumps(out)
    # release everything in the order asked for (insertion order otherwise)
    for k in list(slots):
        del slots[k]
    gc.collect()
    return s


def step(op, slots):
    k = op[0]
    if k == "parse":
        slots[op[1]] = narsese.parse(op[2])
        return True
    if k == "parsekw":
        slots[op[1]] = narsese.parse(line=op[2])
        return True
    if k == "parsebytes":
        slots[op[1]] = narsese.parse(op[2].encode("utf-8", "surrogateescape"))
        return True
    if k == "cpp":
        r = vtcpp.parse(op[1])
        return None if r is None else json.loads(r)
    if k == "get":  # attribute, or None when there is none
        v = getattr(slots[op[2]], op[3])
        if v is not None:
            slots[op[1]] = v
        return v is not None
    if k == "enum":
        v = getattr(slots[op[1]], op[2])
        return None if v is None else [type(v).__name__, v.name, int(v), v == getattr(narsese, type(v).__name__).__members__[v.name]]
    if k == "next":
        try:
            slots[op[1]] = next(slots[op[2]])
            return True
        except StopIteration:
            return False
    if k == "repr":
        return repr(slots[op[1]])
    if k == "type":
        return type(slots[op[1]]).__name__
    if k == "text":
        return vtcpp.text(slots[op[1]])
    if k == "dump":
        return json.loads(vtcpp.dump(slots[op[1]]))
    if k == "sentence":
        return json.loads(vtcpp.sentence(slots[op[1]]))
    if k == "equal":
        return vtcpp.equal(slots[op[1]], slots[op[2]])
    if k == "del":
        slots.pop(op[1], None)
        return None
    if k == "gc":
        gc.collect()
        return None
    if k == "word":
        slots[op[1]] = narsese.Term(op[2])
        return True
    if k == "unnamed":
        slots[op[1]] = narsese.Term()
        return True
    if k == "stm":
        slots[op[1]] = narsese.Statement(slots[op[2]], getattr(narsese.Copula, op[3]), slots[op[4]])
        return True
    if k == "cmp":
        slots[op[1]] = narsese.Compound(getattr(narsese.Connector, op[2]), *[slots[s] for s in op[3]])
        return True
    if k == "truth":
        slots[op[1]] = narsese.Truth(*[float(x) for x in op[2]], **{a: float(b) for a, b in op[3].items()})
        return True
    if k == "budget":
        slots[op[1]] = narsese.Budget(*[float(x) for x in op[2]], **{a: float(b) for a, b in op[3].items()})
        return True
    if k == "set":
        setattr(slots[op[1]], op[2], float(op[3]))
        return True
    if k == "num":
        return float(getattr(slots[op[1]], op[2]))
    if k == "quality":
        return float(narsese.Budget.quality_from_truth(slots[op[1]]))
    if k == "mksent":
        slots[op[1]] = narsese.Sentence(slots[op[2]], getattr(narsese.Punctuation, op[3]), None if op[4] is None else slots[op[4]], None)
        return True
    if k == "members":
        e = getattr(narsese, op[1])
        return [e.__doc__, [[n, int(v)] for n, v in e.__members__.items()]]
    raise ValueError(op)
