"""Client of harness/worker.c (see there for the protocol)."""
import os, re, select, subprocess, tempfile, time

ASAN = ("detect_leaks=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=8:"
        "hard_rss_limit_mb=3000:detect_stack_use_after_return=0:handle_abort=1")


class Violation(Exception):
    """The property failed on a case."""


class Crash(Violation):
    """The code under test crashed, hung or was stopped by AddressSanitizer."""
    def __init__(self, kind, where, text):
        self.kind, self.where, self.text = kind, where, text
        super().__init__("%s in %s" % (kind, where))


def classify(err, rc):
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    kind = m.group(1) if m else ("exit %s" % rc)
    if not m and "hard rss limit" in err:
        kind = "memory limit"
    fr = [f for f, p in re.findall(r"#\d+ 0x\w+ in (\S+) (\S+)", err) if "/repo/" in p or "/src/" in p]
    if not fr:
        fr = [f for f in re.findall(r"#\d+ 0x\w+ in (\S+)", err) if f.startswith("apex")]
    return Crash(kind, fr[0] if fr else "?", err[-3000:])


class Worker:
    def __init__(self, path, cwd=None, timeout=40, recycle=1500, env=None):
        self.path, self.cwd, self.timeout, self.recycle = path, cwd, timeout, recycle
        self.p = None
        self.calls = 0
        e = {k: v for k, v in os.environ.items() if not k.startswith(("APEX", "XDG"))}
        e.update(ASAN_OPTIONS=ASAN, HOME="/nonexistent", LC_ALL="C.UTF-8")
        e.update(env or {})
        self.env = e

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, cwd=self.cwd, env=self.env, bufsize=0)
        self.buf = b""
        self.calls = 0

    def stop(self):
        if self.p:
            try: self.p.kill()
            except OSError: pass
            self.p.wait()
            self.p.stdin.close(); self.p.stdout.close(); self.err.close()
            self.p = None

    def fresh(self):
        self.stop()

    def _dead(self):
        try: rc = self.p.wait(timeout=20)
        except subprocess.TimeoutExpired: rc = "?"
        self.err.seek(0)
        t = self.err.read().decode(errors="replace")
        self.stop()
        if rc == 97:
            raise RuntimeError("worker protocol: " + t[-500:])
        raise classify(t, rc)

    def _fill(self, deadline):
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
            self.stop()
            raise Crash("timeout", "no answer in %ss" % self.timeout, "")
        b = os.read(self.p.stdout.fileno(), 1 << 20)
        if not b:
            self._dead()
        self.buf += b

    def _line(self, dl):
        while b"\n" not in self.buf:
            self._fill(dl)
        l, self.buf = self.buf.split(b"\n", 1)
        return int(l)

    def call(self, cmd, *args):
        if self.p and self.calls >= self.recycle:
            self.stop()
        if not self.p:
            self.start()
        self.calls += 1
        r = [("%s %d\n" % (cmd, len(args))).encode()]
        for a in args:
            if isinstance(a, str): a = a.encode("utf-8", "surrogateescape")
            elif isinstance(a, int): a = str(a).encode()
            r.append(b"%d\n" % len(a)); r.append(a)
        dl = time.monotonic() + self.timeout
        try:
            d = memoryview(b"".join(r))
            while d:
                n = os.write(self.p.stdin.fileno(), d[:1 << 16]); d = d[n:]
        except BrokenPipeError:
            self._dead()
        n = self._line(dl)
        out = []
        for _ in range(n):
            k = self._line(dl)
            if k < 0:
                out.append(None); continue
            while len(self.buf) < k:
                self._fill(dl)
            out.append(self.buf[:k]); self.buf = self.buf[k:]
        return out

    # ---- helpers -------------------------------------------------------
    def conv(self, text, mode=4, raw=False, **o):
        opts = "mode=%d\n" % mode + "".join("%s=%s\n" % (k, int(v) if isinstance(v, bool) else v) for k, v in o.items())
        r = self.call("conv", opts, text)
        if len(r) > 1:
            raise Violation("the conversion changed its %s" % " ".join(x.decode() for x in r[1:]))
        if r[0] is None:
            raise Violation("conversion returned NULL")
        return r[0] if raw else r[0].decode("utf-8", "surrogateescape")

    def t2t(self, fn, text):
        r = self.call("t2t", fn, text)[0]
        return None if r is None else r.decode("utf-8", "surrogateescape")
