"""Runs the instrumented driver: sends operations, records the history, turns crashes into findings."""
import json, os, re, select, subprocess, tempfile, time
from . import build

class DriverDied(Exception):
    def __init__(self, key, text, op): super().__init__(key); self.key, self.text, self.op = key, text, op
class ProtocolError(Exception): pass

def hx(b):
    """bytes/str/None -> argument token"""
    if b is None: return "-"
    if isinstance(b, str): b = b.encode("utf-8", "surrogateescape")
    return "x" + bytes(b).hex()
def hl(lst):
    """list of byte strings (None allowed) -> list token"""
    if lst is None: return "-"
    if not lst: return "_"
    return "x" + ",".join("." if e is None else (e.encode("utf-8", "surrogateescape") if isinstance(e, str) else bytes(e)).hex() for e in lst)
def ub(h):
    return None if h is None else bytes.fromhex(h)

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=1:malloc_context_size=20:check_initialization_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "LSAN_OPTIONS": "exitcode=98",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=0:second_deadlock_stack=1:history_size=7:report_signal_unsafe=0",
}

def classify(text):
    """A stable key for a sanitizer report: kind plus the innermost library functions."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m: kind = "asan:" + m[1]
    if not kind:
        m = re.search(r"runtime error: (.*)", text)
        if m:
            k = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?|'[^']*'", "#", m[1])
            kind = "ubsan:" + k[:60].strip()
    if not kind:
        m = re.search(r"ERROR: LeakSanitizer", text)
        if m: kind = "lsan:leak"
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([^(]+)", text)
        if m: kind = "tsan:" + m[1].strip()
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/src/(\w+)\.c", text)
    fns = []
    for f, s in fr:
        if f not in fns: fns.append(f)
        if len(fns) == 2: break
    if kind and not fns:
        fns = re.findall(r"in (\w+) ", text)[:2]
    return (kind, fns)

class Driver:
    def __init__(self, config="asan", exe=None, env=None, timeout=60):
        self.exe = exe or build.driver(config); self.config = config
        self.timeout = timeout; self.env = env or {}; self.p = None; self.history = []; self.total = 0
        self.start()
    def start(self):
        self.err = tempfile.NamedTemporaryFile(prefix="vf-err-", delete=False)
        e = dict(os.environ); e.update(SAN_ENV)
        for k in list(e):
            if k.startswith("NOSTR_"): del e[k]
        e.update(self.env)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, bufsize=0)
        self.buf = b""
    def errtext(self):
        self.err.flush()
        return open(self.err.name, "rb").read().decode("utf-8", "replace")
    def _cleanup(self):
        try: os.unlink(self.err.name)
        except OSError: pass
    def _readline(self, op, deadline):
        while b"\n" not in self.buf:
            left = deadline - time.monotonic()
            r = select.select([self.p.stdout], [], [], max(0, left))[0] if left > 0 else []
            if not r:
                self.p.kill(); self.p.wait()
                raise DriverDied("hang:" + op, "no answer within %ds" % self.timeout, op)
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                self.p.wait(); self.died(op)
            self.buf += d
        i = self.buf.index(b"\n"); l = self.buf[:i]; self.buf = self.buf[i+1:]
        return l
    def died(self, op):
        t = self.errtext(); rc = self.p.returncode
        if "DRIVER-PROTOCOL" in t: raise ProtocolError(t[-500:])
        kind, fns = classify(t)
        if not kind: kind = "exit:%s" % rc
        raise DriverDied("%s:%s@%s" % (kind, "<".join(fns), op), t, op)
    def send(self, *args):
        line = " ".join(str(a) for a in args)
        self.history.append(line); self.total += 1
        try: self.p.stdin.write(line.encode() + b"\n")
        except BrokenPipeError:
            self.p.wait(); self.died(self._op(line))
        return line
    @staticmethod
    def _op(line):
        for t in line.split(" "):
            if not t.startswith("!"): return t
        return line
    def cmd(self, *args):
        line = self.send(*args)
        return json.loads(self._readline(self._op(line), time.monotonic() + self.timeout))
    def many(self, lines):
        """pipelined: list of argument tuples -> list of answers"""
        out = []; CH = 64
        lines = [" ".join(str(a) for a in l) for l in lines]
        for i in range(0, len(lines), CH):
            ch = lines[i:i+CH]
            self.history.extend(ch); self.total += len(ch)
            data = ("\n".join(ch) + "\n").encode()
            sent = 0; got = 0; fd = self.p.stdin.fileno(); os.set_blocking(fd, False)
            dl = time.monotonic() + self.timeout
            try:
                while got < len(ch):
                    w = [self.p.stdin] if sent < len(data) else []
                    r, w, _ = select.select([self.p.stdout], w, [], max(0.0, dl - time.monotonic()))
                    if not r and not w:
                        self.p.kill(); self.p.wait()
                        raise DriverDied("hang:" + self._op(ch[got]), "no answer within %ds" % self.timeout, self._op(ch[got]))
                    if w:
                        try: sent += os.write(fd, data[sent:sent+65536])
                        except BrokenPipeError: sent = len(data)
                        except BlockingIOError: pass
                    if r:
                        d = os.read(self.p.stdout.fileno(), 1 << 20)
                        if not d:
                            self.p.wait()
                            # keep the history truthful: only what was executed
                            del self.history[len(self.history) - (len(ch) - got) + 1:]
                            self.died(self._op(ch[got]))
                        self.buf += d; dl = time.monotonic() + self.timeout
                        while b"\n" in self.buf:
                            j = self.buf.index(b"\n"); out.append(json.loads(self.buf[:j])); self.buf = self.buf[j+1:]; got += 1
            finally:
                if self.p.stdin and not self.p.stdin.closed: os.set_blocking(fd, True)
        return out
    def reset(self):
        self.history = []
        return self.cmd("reset")
    def leakcheck(self):
        """LeakSanitizer over everything released since start; returns report text or None"""
        r = self.cmd("leakcheck")
        return self.errtext() if r.get("leak") else None
    def close(self):
        """end of stream: driver releases everything; LSan at exit"""
        if not self.p: return
        try:
            self.p.stdin.close(); rest = self.p.stdout.read(); self.p.wait(timeout=120)
        except subprocess.TimeoutExpired:
            self.p.kill(); self.p.wait(); self._cleanup(); raise DriverDied("hang:exit", "driver did not exit", "exit")
        try:
            if self.p.returncode != 0: self.died("exit")
        finally:
            self._cleanup(); self.p = None
    def kill(self):
        if self.p:
            self.p.kill(); self.p.wait(); self._cleanup(); self.p = None
    def restart(self):
        self.kill(); self.history = []; self.start()
