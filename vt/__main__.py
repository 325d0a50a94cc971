import importlib, pkgutil, sys, traceback
from . import build, runner


def registry():
    from . import checks
    reg = {}
    for m in pkgutil.iter_modules(checks.__path__):
        mod = importlib.import_module("vt.checks." + m.name)
        for c in getattr(mod, "CHECKS", []):
            reg[c.id] = c
    return reg


def main():
    reg = registry()
    if len(sys.argv) < 2 or sys.argv[1] == "list":
        print(" ".join(sorted(reg)))
        return 0
    if sys.argv[1] == "setup":
        seen = set()
        for c in reg.values():
            if c.executors not in seen:
                seen.add(c.executors)
                c.executors()
        return 0
    try:
        return runner.run(reg[sys.argv[1]], sys.argv[2:])
    except build.BuildError as e:
        print(e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
