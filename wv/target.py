"""A target process (C++ executor or Python module) driven over a pipe, observed from outside."""
import json
import os
import select
import shutil
import signal
import subprocess
import tempfile
import time

from . import build as B


class Refused(Exception):
    """The library raised: type name and message."""

    def __init__(self, typ, msg, op):
        super().__init__("%s: %s (%s)" % (typ, msg, op))
        self.typ, self.msg, self.op = typ, msg, op


class Crash(Exception):
    """The process died while executing a request."""

    def __init__(self, op, rc, log):
        super().__init__("process died (rc=%s) in %s\n%s" % (rc, op, log))
        self.op, self.rc, self.log = op, rc, log


class Hang(Exception):
    def __init__(self, op):
        super().__init__("no answer to %s" % (op,))
        self.op = op


class HarnessError(Exception):
    pass


class ArgChanged(Exception):
    pass


class NoOp(HarnessError):
    pass


def short(x, n=300):
    s = json.dumps(x, ensure_ascii=False)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


SCRATCH = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


class Target:
    def __init__(self, kind, paths, timeout=60, wrap=(), env=None, fill=165):
        self.fill = fill
        self.kind, self.paths, self.timeout, self.wrap, self.xenv = kind, paths, timeout, list(wrap), env or {}
        if kind == "vg":
            self.wrap = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=99", "--leak-check=no", "--track-origins=no", "--expensive-definedness-checks=yes"] + self.wrap
        self.is_py = kind.startswith("py")
        self.is_cxx = not self.is_py
        self.tmp = tempfile.mkdtemp(prefix="wv-", dir=SCRATCH)
        self.p = None
        self.trace = []
        self.nops = 0
        self.starts = 0
        self.caps = None

    # -- process
    def start(self):
        self.stop()
        self.starts += 1
        r, w = os.pipe()
        env = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
        env["WV_FD"] = str(w)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                               "max_malloc_fill_size=65536:malloc_fill_byte=%d:detect_odr_violation=0:"
                               "verify_asan_link_order=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=8" % self.fill)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONMALLOC"] = "malloc" if self.kind == "pyasan" else ""
        if not env["PYTHONMALLOC"]:
            del env["PYTHONMALLOC"]
        env["LC_ALL"] = "C.UTF-8"
        env.update(self.xenv)
        if self.is_py:
            pre = [self.paths["vtime"]]
            if self.kind == "pyasan":
                pre.insert(0, B.asan_runtime())
            cmd = ["env", "LD_PRELOAD=" + ":".join(pre), B.PY, os.path.join(B.VERIF, "wv", "pyworker.py"), self.paths[self.kind]]
        else:
            cmd = [self.paths[self.kind]]
        self.so = open(os.path.join(self.tmp, "stdout"), "wb")
        self.se = open(os.path.join(self.tmp, "stderr"), "wb")
        self.p = subprocess.Popen(self.wrap + cmd, stdin=subprocess.PIPE, stdout=self.so, stderr=self.se,
                                  pass_fds=[w], env=env, cwd=self.tmp, start_new_session=True)
        os.close(w)
        self.r = r
        self.buf = b""

    def stop(self):
        if self.p is None:
            return
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(0.2)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
        os.close(self.r)
        self.so.close()
        self.se.close()
        self.p = None

    def finish(self):
        """Orderly end of the process (destructors of everything left run); returns its exit code."""
        if self.p is None:
            return 0
        self.p.stdin.close()
        try:
            rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            rc = None
        log = self.log()
        if rc is None:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        os.close(self.r)
        self.so.close()
        self.se.close()
        self.p = None
        if rc != 0:
            raise Crash(["exit"], rc, log)
        return rc

    def close(self):
        self.stop()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def log(self):
        try:
            with open(os.path.join(self.tmp, "stderr"), "rb") as f:
                d = f.read().decode(errors="replace")
        except OSError:
            d = ""
        return d[:6000]

    # -- requests
    def raw(self, reqs):
        if self.p is None:
            self.start()
        self.nops += len(reqs)
        self.trace.extend(reqs)
        data = (json.dumps(reqs, ensure_ascii=False) + "\n").encode("utf-8")
        end = time.monotonic() + self.timeout
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                line, self.buf = self.buf[:i], self.buf[i + 1:]
                return json.loads(line.decode("utf-8", "surrogateescape"))
            left = end - time.monotonic()
            if left <= 0:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.stop()
                raise Hang(short(reqs))
            rd, _, _ = select.select([self.r], [], [], min(left, 5))
            if rd:
                d = os.read(self.r, 1 << 20)
                if not d:
                    rc = self.p.wait()
                    log = self.log()
                    self.stop()
                    raise Crash(short(reqs), rc, log)
                self.buf += d

    def batch(self, reqs):
        """List of replies: value, or a Refused instance."""
        out = []
        for q, r in zip(reqs, self.raw(reqs)):
            if r[0] == "ok":
                out.append(r[1] if len(r) > 1 else None)
            elif r[0] == "ex":
                out.append(Refused(r[1], r[2], short(q)))
            elif r[0] == "arg":
                raise ArgChanged("%s changed an argument" % short(q))
            elif r[0] == "noop":
                raise NoOp("operation %s not available on %s" % (q[0], self.kind))
            else:
                raise HarnessError("%s: %s" % (short(q), r))
        return out

    def do(self, *q):
        r = self.batch([list(q)])[0]
        if isinstance(r, Refused):
            raise r
        return r

    def attempt(self, *q):
        """Value, or the Refused instance."""
        return self.batch([list(q)])[0]

    def begin(self, rng):
        """Fresh handles, fresh trace, hostile RNG/clock state."""
        self.trace = []
        if self.p is None:
            self.start()
        self.batch([["reset"], ["fsize", None], ["nofile", None], ["chdir", self.tmp], ["clock", rng.randrange(1, 4 * 10 ** 9)],
                    ["crand", rng.randrange(1 << 31), rng.randrange(50)]])
