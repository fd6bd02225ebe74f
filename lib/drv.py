"""Client of the RPC driver (harness/rpc.cpp)."""
import os, resource, select, signal, subprocess, tempfile, time


class LibEx(Exception):
    """the library threw: a documented way to refuse"""
    def __init__(self, typ, what):
        Exception.__init__(self, "%s: %s" % (typ, what))
        self.typ, self.what = typ, what


class Died(Exception):
    """the process under observation ended: crash, abort, sanitizer report"""


class Hang(Died):
    pass


class GiveUp(BaseException):
    """calls keep not returning: the rest of this workload would only wait"""


hangs = 0


ASAN = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
UBSAN = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"


class Drv:
    def __init__(self, exe, env=None, log=None, timeout=120, cmd=None):
        self.exe, self.timeout, self.log = exe, timeout, log
        self.env = dict(os.environ)
        self.env.setdefault("ASAN_OPTIONS", ASAN)
        self.env.setdefault("UBSAN_OPTIONS", UBSAN)
        if log:
            self.env["EGDRV_LOG"] = log
        if env:
            self.env.update(env)
        self.cmd = cmd or [exe]
        self.p = None
        self.history = []
        self.start()

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=self.env, bufsize=1 << 16, preexec_fn=self.limit)
        self.buf = b""

    def limit(self):
        """a runaway allocation becomes bad_alloc instead of exhausting the machine (sanitizers reserve address space)"""
        if len(self.cmd) == 1 and not any(x in self.exe for x in ("asan", "tsan", "fuzz")):
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")

    def close(self):
        if self.p and self.p.poll() is None:
            try:
                self.p.stdin.write(b"quit\n")
                self.p.stdin.close()
                self.p.wait(20)
            except Exception:
                self.p.kill()
                self.p.wait()
        rc = self.p.returncode if self.p else None
        return rc

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()

    def restart(self):
        self.kill()
        self.start()

    def _dead(self, line):
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rc = self.p.wait()
        e = self.stderr()
        summ = [l for l in e.splitlines() if "SUMMARY" in l or "runtime error" in l or "terminate called" in l
                or "what():" in l or "Assertion" in l]
        sig = ""
        if rc is not None and rc < 0:
            try:
                sig = signal.Signals(-rc).name
            except ValueError:
                sig = str(rc)
        raise Died("process ended (%s) during %s; %s" % (sig or "exit %s" % rc, line[:160],
                                                         " / ".join(summ[:3]) or e[-300:].strip()))

    def raw(self, lines):
        """send many lines, return as many raw answers"""
        data = ("\n".join(lines) + "\n").encode()
        self.history = (self.history + lines)[-400:]
        out = self.got = []
        fdi, fdo = self.p.stdin.fileno(), self.p.stdout.fileno()
        pos = 0
        deadline = time.time() + self.timeout  # for the next answer
        while len(out) < len(lines):
            w = [fdi] if pos < len(data) else []
            rl, wl, _ = select.select([fdo], w, [], 5)
            if rl:
                chunk = os.read(fdo, 1 << 16)
                if not chunk:
                    self._dead(lines[len(out)])
                self.buf += chunk
                parts = self.buf.split(b"\n")
                self.buf = parts.pop()
                if parts: deadline = time.time() + self.timeout
                out += [x.decode() for x in parts]
            if wl:
                try:
                    pos += os.write(fdi, data[pos:pos + 4096])
                except BrokenPipeError:
                    # drain what was answered
                    pos = len(data)
            if time.time() > deadline:
                self.p.kill()
                global hangs
                hangs += 1
                if hangs > 1:
                    raise GiveUp("no answer within %ds to %s" % (self.timeout, lines[len(out)][:160]))
                raise Hang("no answer within %ds to %s" % (self.timeout, lines[len(out)][:160]))
        return out

    def each(self, lines):
        """like raw, but a line that ends the process is answered "died\t<why>" and the rest goes on"""
        out = []
        while len(out) < len(lines):
            self.got = []
            try:
                out += self.raw(lines[len(out):])
            except Died as e:
                out += self.got
                out.append("died\t" + str(e).replace("\t", " ").replace("\n", " "))
                self.restart()
        return out

    @staticmethod
    def parse(r):
        f = r.split("\t")
        if f[0] == "ok":
            return f[1:]
        if f[0] == "ex":
            raise LibEx(f[1], bytes.fromhex(f[2]).decode(errors="replace") if len(f) > 2 else "")
        if r.startswith("bad\tno object"):
            raise KeyError(r)        # an earlier call failed to make it
        raise RuntimeError("driver protocol: " + r)

    def call(self, cmd, *args):
        return self.parse(self.raw(["\t".join([cmd] + [a if isinstance(a, str) else fmt(a) for a in args])])[0])


def fmt(a):
    if isinstance(a, bool):
        return "1" if a else "0"
    if isinstance(a, bytes):
        return a.hex()
    if isinstance(a, int):
        return "%x" % a
    raise TypeError(type(a))


class D(int):
    """an integer argument sent in decimal (u64 arguments)"""


def line(cmd, *args):
    out = [cmd]
    for a in args:
        if isinstance(a, D):
            out.append(str(int(a)))
        elif isinstance(a, str):
            out.append(a)
        else:
            out.append(fmt(a))
    return "\t".join(out)
