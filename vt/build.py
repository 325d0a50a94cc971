"""Builds the executors from /repo's current working tree.

Objects are cached in /verif/build (ignored by git) under the hash of everything that went into
them, so a check that starts in an empty sandbox builds all it needs (about ten seconds) and repeated
runs on an unchanged tree build nothing."""
import concurrent.futures, glob, hashlib, os, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
COMMON = ["-std=gnu++20", "-DFMT_CONSTEVAL=", "-DNDEBUG", "-w", "-fno-omit-frame-pointer"]
SAN = ["-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
FUZZ = ["-g1", "-O1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]


class BuildError(Exception):
    pass


def includes(real_pybind):
    r = REPO
    inc = []
    if not real_pybind:
        inc.append("-I" + os.path.join(VERIF, "stub"))
    inc += ["-I" + r, "-I" + r + "/Narsese", "-I" + r + "/Narsese/Parser", "-I" + r + "/Interpreter", "-I" + r + "/utils"]
    inc.append("-I" + os.path.join(VERIF, "cpp"))
    if real_pybind:
        inc += python_includes()
    return inc


def python_includes():
    out = ["-I/usr/include/python3.12"]
    d = os.path.join(REPO, "pybind11", "include")
    if os.path.isdir(d):
        out.append("-I" + d)
    return out


def lib_sources():
    s = []
    for pat in ("Narsese/src/*.cpp", "utils/*.cpp", "Narsese/Parser/*.cpp", "Config.cpp", "Global.cpp", "Interpreter/src/*.cpp", "NAL/Functions/src/*.cpp"):
        s += sorted(glob.glob(os.path.join(REPO, pat)))
    return s


def header_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith((".", "_build", "build")) and d not in ("pybind11", "Tests", "examples"))
        for n in sorted(names):
            if n.endswith((".h", ".hpp", ".inl", ".par", ".hh", ".ipp", ".tpp", ".inc", ".def")):
                files.append(os.path.join(root, n))
    for root in (os.path.join(VERIF, "stub"), os.path.join(VERIF, "cpp")):
        for dp, dn, names in os.walk(root):
            for n in sorted(names):
                if n.endswith(".h"):
                    files.append(os.path.join(dp, n))
    for f in files:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def _compile(src, flags, key_extra):
    h = hashlib.sha256()
    h.update(repr((CXX, flags, src, key_extra)).encode())
    h.update(open(src, "rb").read())
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, h.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-6000:]))
    os.replace(tmp, obj)
    return obj


def _prune():
    d = os.path.join(BUILD, "obj")
    try:
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    except OSError:
        return
    for f in fs[:-600]:
        try:
            os.unlink(f)
        except OSError:
            pass


def executor(name, sources, mode="san", libs=True, defines=(), entry_flags=(), repo_sources=(), python=False):
    """Builds the executor `name` from cpp/<sources> and the repository; returns its path."""
    last = None
    for real in ((True,) if python else (False, True)):
        base = list(COMMON) + (SAN if mode == "san" else FUZZ if mode == "fuzz" else ["-O1"]) + list(defines)
        flags = base + includes(real)
        hh = header_hash()
        jobs = [os.path.join(VERIF, "cpp", s) for s in sources] + (lib_sources() if libs else []) + [os.path.join(REPO, s) for s in repo_sources]
        try:
            with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                # large translation units first
                jobs.sort(key=lambda s: -os.path.getsize(s))
                objs = list(ex.map(lambda s: _compile(s, flags, hh), jobs))
        except BuildError as e:
            if last is None:
                last = e
            continue
        key = hashlib.sha256(repr((sorted(objs), base, entry_flags)).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bin", name + "-" + key)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if not os.path.exists(out):
            link = [CXX] + (["-fsanitize=address,undefined"] if mode == "san" else ["-fsanitize=address,undefined,fuzzer"] if mode == "fuzz" else [])
            tmp = out + ".%d.tmp" % os.getpid()
            cmd = link + sorted(objs) + ["-o", tmp, "-lfmt"] + (["-lpython3.12"] if real else []) + list(entry_flags)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                last = BuildError("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-6000:]))
                continue
            os.replace(tmp, out)
            for old in sorted(glob.glob(os.path.join(BUILD, "bin", name + "-*")), key=os.path.getmtime)[:-6]:
                if not old.endswith(".tmp"):
                    os.unlink(old)
        _prune()
        return out
    raise last
