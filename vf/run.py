"""Running requests in a zygote (see harness/zygote.c) and spreading cases
over worker processes."""
import collections
import functools
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

UID = 65534

Result = collections.namedtuple("Result", "out err code sig timeout us")


def env_for(variant, leaks=True, paranoid=False):
    e = {
        "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
        "HOME": "/nonexistent", "TERM": "dumb", "TMPDIR": "/tmp", "TZ": "UTC",
    }
    if os.getuid() == 0:
        e["ZYGOTE_UID"] = str(UID)
    if paranoid:
        e["CSV_STANDIN_PARANOID"] = "1"
    if variant == "asan":
        e["ASAN_OPTIONS"] = (
            "detect_leaks=%d:detect_stack_use_after_return=1:"
            "abort_on_error=0:exitcode=86:allocator_may_return_null=1:"
            "malloc_context_size=12:handle_sigfpe=1" % (1 if leaks else 0))
        e["LSAN_OPTIONS"] = "exitcode=87:report_objects=0:max_leaks=4"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0"
    if variant == "tsan":
        e["TSAN_OPTIONS"] = ("exitcode=66:halt_on_error=0:history_size=4:"
                             "second_deadlock_stack=1:report_bugs=1")
    return e


class Typed(bytes):
    """what is typed at a terminal that is the standard input"""


@functools.lru_cache(None)
def can_type():
    """are there terminals?"""
    import pty
    try:
        for fd in pty.openpty():
            os.close(fd)
        return True
    except OSError:
        return False


class Typing:
    """types it, and reads what is echoed"""

    def __init__(self, data):
        import pty
        import threading
        import tty
        self.master, self.slave = pty.openpty()
        tty.setraw(self.slave)
        self.name = os.ttyname(self.slave)
        os.chmod(self.name, 0o666)
        os.set_blocking(self.master, False)
        self.data, self.over, self.echo = data, False, b""
        self.thread = threading.Thread(target=self.go, daemon=True)
        self.thread.start()

    def go(self):
        data = self.data
        while not self.over:
            r, w, _ = select.select([self.master],
                                    [self.master] if data else [], [], .05)
            try:
                if r:
                    self.echo += os.read(self.master, 65536)
                if w:
                    data = data[os.write(self.master, data[:512]):]
            except BlockingIOError:
                time.sleep(.001)
            except OSError:
                break

    def end(self):
        self.over = True
        self.thread.join()
        os.close(self.master)
        os.close(self.slave)


class Zygote:
    def __init__(self, prog, variant, leaks=True, paranoid=False, extra=None):
        self.prog = prog
        self.env = env_for(variant, leaks, paranoid)
        if extra:
            self.env.update(extra)
        self.p = None

    def start(self):
        # warmed up by planning a few statements; where that fails, the
        # cases shall tell
        for cold, wait in ((False, 60), (True, 60)):
            self.p = subprocess.Popen([self.prog], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE,
                                      env=dict(self.env, ZYGOTE_COLD="1")
                                      if cold else self.env,
                                      stderr=subprocess.DEVNULL, bufsize=0,
                                      cwd="/")
            self.buf = b""
            try:
                l = self._line(wait)
            except RuntimeError as e:
                self.p.kill()
                self.p.wait()
                l = e
            if l == b"ready":
                return
        raise RuntimeError("zygote did not start: %r" % l)

    def _line(self, timeout):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [],
                                              left)[0]:
                raise RuntimeError("zygote is stuck")
            d = os.read(self.p.stdout.fileno(), 4096)
            if not d:
                raise RuntimeError("zygote died: %s" % self.p.wait())
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def run(self, mode, cwd, args, stdin=b"", timeout=20.0, fsize=-1):
        """`stdin': bytes, or a Typed: bytes typed at a terminal"""
        if self.p is None or self.p.poll() is not None:
            self.start()
        io = cwd + ".io"
        if not os.path.isdir(io):
            os.mkdir(io)
            os.chmod(io, 0o777)
        typed = isinstance(stdin, Typed)
        if typed:
            typing = Typing(stdin)
        else:
            with open(io + "/in", "wb") as f:
                f.write(stdin)
        fields = [mode, cwd, typing.name if typed else io + "/in", io + "/out", io + "/err",
                  str(int(timeout * 1000)), str(fsize), str(len(args) + 1),
                  "fql"] + list(args)
        msg = b""
        for x in fields:
            if isinstance(x, str):
                x = x.encode("utf-8", "surrogateescape")
            msg += b"%d:%s," % (len(x), x)
        self.p.stdin.write(msg)
        try:
            l = self._line(timeout + 60).decode()
        finally:
            if typed:
                typing.end()
        m = re.match(r"exit (-?\d+) sig (\d+) timeout (\d) us (\d+)", l)
        if not m:
            raise RuntimeError("zygote said " + l)
        with open(io + "/out", "rb") as f:
            out = f.read()
        with open(io + "/err", "rb") as f:
            err = f.read()
        return Result(out, err, int(m[1]), int(m[2]), m[3] == "1", int(m[4]))

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None


class Scratch:
    """A directory that belongs to the unprivileged user."""

    def __init__(self, base):
        self.base = base
        self.n = 0

    def new(self):
        self.n += 1
        d = "%s/%d" % (self.base, self.n)
        os.mkdir(d)
        if os.getuid() == 0:
            os.chown(d, UID, UID)
        return d

    def write(self, d, name, data):
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        if os.getuid() == 0:
            os.chown(p, UID, UID)
        return p

    def drop(self, d):
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".io", ignore_errors=True)


# ---------------------------------------------------------------- sanitizers

_SAN = re.compile(
    rb"(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*"
    rb"|WARNING: MemorySanitizer[^\n]*"
    rb"|[^\n]*: runtime error: [^\n]*|WARNING: ThreadSanitizer[^\n]*"
    rb"|AddressSanitizer:DEADLYSIGNAL|terminate called[^\n]*"
    rb"|free\(\): [^\n]*|malloc[^\n]*: corrupted[^\n]*"
    rb"|Assertion [^\n]* failed[^\n]*"
    rb"|stack smashing detected[^\n]*)")

_FRAME = re.compile(rb"#\d+ 0x[0-9a-f]+ in (\S+) ([^\s:]+):(\d+)")
_TFRAME = re.compile(rb"#\d+ (\S+) ([^\s:]+):(\d+)")


def sanitizer_report(res):
    """None, or (kind, site) of the first report in a result.

    The site is "function@file" of the first frame inside the project, which
    survives edits that move lines."""
    m = _SAN.search(res.err)
    if not m:
        return None
    kind = m.group(1).decode("utf-8", "replace")
    kind = re.sub(r"==\d+==", "", kind)
    if "runtime error" in kind:
        k = re.sub(r"^.*?: runtime error: ", "UBSan: ", kind)
        k = re.sub(r"-?\b\d+\b|0x[0-9a-f]+", "#", k)
    else:
        k = re.sub(r"0x[0-9a-f]+|pid=\d+|\(pid.*", "", kind)
        k = re.sub(r" on (unknown )?address.*", "", k)
    tail = res.err[m.end():]
    site = "?"
    for rx in (_FRAME, _TFRAME):
        for f in rx.finditer(tail):
            path = f.group(2).decode("utf-8", "replace")
            if "/repo/" in path or "/util/" in path or "/lib/" in path and \
                    not path.startswith("/usr"):
                if "sanitizer" in path:
                    continue
                site = "%s@%s" % (f.group(1).decode(), os.path.basename(path))
                break
        if site != "?":
            break
    return (k.strip(), site)


# ------------------------------------------------------------------- workers

def _worker(conn, fn, idx, scratch, zargs, ctx):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    zs = {}
    base = "%s/w%d" % (scratch, idx)
    os.mkdir(base)
    os.chmod(base, 0o755)
    sc = Scratch(base)

    def z(name):
        if name not in zs:
            zs[name] = Zygote(*zargs[name][0], **zargs[name][1])
        return zs[name]
    try:
        while True:
            job = conn.recv()
            if job is None:
                break
            try:
                r = fn(job, z, sc, ctx)
            except Exception:
                r = {"error": traceback.format_exc()}
            conn.send((job, r))
    finally:
        for x in zs.values():
            x.close()


def parallel(fn, jobs, zargs, ctx=None, workers=8, budget=None, stop=None):
    """Run fn(job, zygote-getter, scratch, ctx) for every job; yields
    (job, result) as they come.  Ends early when the budget is spent."""
    scratch = tempfile.mkdtemp(prefix="vf-")
    os.chmod(scratch, 0o755)
    jobs = iter(jobs)
    procs = []
    t0 = time.time()
    try:
        conns = []
        for i in range(workers):
            a, b = mp.Pipe()
            p = mp.Process(target=_worker, args=(b, fn, i, scratch, zargs,
                                                 ctx))
            p.start()
            b.close()
            procs.append(p)
            conns.append(a)
        busy = {}
        done = False

        def feed(c):
            nonlocal done
            if done or (budget and time.time() - t0 > budget):
                done = True
                return
            try:
                j = next(jobs)
            except StopIteration:
                done = True
                return
            c.send(j)
            busy[c] = j
        for c in conns:
            feed(c)
        while busy:
            for c in mp.connection.wait(list(busy)):
                j = busy.pop(c)
                try:
                    yield c.recv()
                except EOFError:
                    yield (j, {"error": "worker died"})
                    continue
                if stop is not None and stop():
                    done = True
                feed(c)
        for c in conns:
            try:
                c.send(None)
            except OSError:
                pass
        for p in procs:
            p.join(20)
    finally:
        for p in procs:
            if p.is_alive():
                p.terminate()
                p.join()
        shutil.rmtree(scratch, ignore_errors=True)
