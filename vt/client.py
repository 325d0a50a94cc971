"""Talks to an executor: sends a case (a list of commands), gets one observation per command."""
import json, os, signal, struct, subprocess


class Violation(Exception):
    """The property does not hold for this case."""


class Crash(Violation):
    def __init__(self, status, err, results):
        self.status, self.err, self.results = status, err, results
        if os.WIFSIGNALED(status):
            s = os.WTERMSIG(status)
            how = "killed by signal %d (%s)" % (s, signal.Signals(s).name)
            if s in (signal.SIGXCPU, signal.SIGKILL):
                how = "did not finish within the CPU limit (%s)" % signal.Signals(s).name
        else:
            how = "exit status %d" % os.WEXITSTATUS(status)
        line = ""
        for l in err.splitlines():
            if "ERROR:" in l or "runtime error:" in l or "terminate called" in l or "what():" in l:
                line += " | " + l.strip()
        Violation.__init__(self, "the program died: %s%s" % (how, line[:600]))


class HarnessError(Exception):
    pass


def q(s):
    """A string argument (str of chars < 256, or bytes)."""
    if isinstance(s, str):
        s = s.encode("latin-1")
    return "=" + s.hex()


class Executor:
    def __init__(self, path, env=None, cpu=20):
        self.path = path
        self.env = dict(os.environ)
        self.env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_abort=1:quarantine_size_mb=64:malloc_context_size=6:symbolize=1:print_legend=0"
        self.env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=86"
        self.env["ASAN_SYMBOLIZER_PATH"] = ""
        self.env["ZY_CPU"] = str(cpu)
        self.env["ZY_STACK"] = "512"
        self.env.pop("ZY_NOASLR", None)
        if env:
            self.env.update(env)
        self.p = None
        self.cases = 0

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, bufsize=0)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def _read(self, n):
        b = bytearray()
        while len(b) < n:
            k = self.p.stdout.read(n - len(b))
            if not k:
                raise HarnessError("executor %s ended unexpectedly (%s)" % (self.path, self.p.poll()))
            b += k
        return bytes(b)

    def raw(self, payload):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.cases += 1
        data = struct.pack("<I", len(payload)) + payload
        mv = memoryview(data)
        while mv:
            n = self.p.stdin.write(mv)
            mv = mv[n:]
        st, no, ne = struct.unpack("<III", self._read(12))
        return st, self._read(no), self._read(ne).decode("latin-1")

    def run(self, cmds):
        """cmds: list of lists of words (use q() for strings).  Returns the list of results."""
        payload = "\n".join(" ".join(map(str, c)) for c in cmds).encode()
        st, out, err = self.raw(payload)
        res = []
        for l in out.split(b"\n"):
            if l:
                try:
                    res.append(json.loads(l.decode("latin-1")))
                except ValueError:
                    break
        if st != 0:
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (95, 96, 97, 98, 99):
                raise HarnessError("executor: " + err[-2000:])
            raise Crash(st, err, res)
        return res
