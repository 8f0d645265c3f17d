"""Runs the monitors of /verif/harness/mon_*.c around parts of the project."""
import concurrent.futures as cf
import glob
import os
import re
import shutil
import subprocess
import tempfile
import time

from . import build, run
from .core import CheckError

STRESS = ["-include", build.HARNESS + "/stress.h"]


def program(name, variant, srcs, lib=(), extra=(), stress=False):
    csrc = [(build.HARNESS + "/" + s, []) for s in srcs]
    csrc += [(build.REPO + "/lib/" + l, []) for l in lib]
    csrc += [(p, []) for p in sorted(glob.glob(build.REPO + "/util/*.c"))]
    extra = list(extra)
    if stress:
        csrc.append((build.HARNESS + "/stress.c", []))
        extra += STRESS
    return build.link("mon-" + name, variant, csrc, extra=extra,
                      libs=["-lpthread"])


def env(variant, extra=None):
    e = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
         "TZ": "UTC", "HOME": "/nonexistent",
         "ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:"
                         "exitcode=86:allocator_may_return_null=1",
         "LSAN_OPTIONS": "exitcode=87",
         "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
         "MSAN_OPTIONS": "exitcode=85:poison_in_malloc=1",
         "TSAN_OPTIONS": "detect_deadlocks=0:halt_on_error=0:exitcode=66:"
                         "history_size=4"}
    if extra:
        e.update(extra)
    return e


class Job:
    """One monitor with one build: rounds 0..n of one seed."""

    def __init__(self, name, variant, rounds, srcs, lib=(), extra=(),
                 stress=False, envx=None, timeout=400, chunks=8,
                 min_events=3, salt=0):
        self.__dict__.update(locals())


def _seed(r, j):
    """builds other than the plain one look at other rounds"""
    return r.seed + 1000003 * (["plain", "asan", "msan", "tsan"].index(
        j.variant) + 4 * j.salt)


STALL = 90              # seconds; a round takes far less than one


def _wait(p, fo, timeout):
    """until the end, the time limit, or no round having ended for long"""
    start = last = time.monotonic()
    size, pause = 0, .01
    while True:
        try:
            return p.wait(pause), False
        except subprocess.TimeoutExpired:
            pass
        pause = min(pause * 2, .5)
        now, n = time.monotonic(), os.fstat(fo.fileno()).st_size
        if n != size:
            size, last = n, now
        if now - last > STALL or now - start > timeout:
            p.kill()
            p.wait()
            return -9, True


def _run(prog, cwd, e, seed, a, b, timeout):
    kw = {}
    if os.getuid() == 0:
        kw = dict(user=run.UID, group=run.UID, extra_groups=[])
    with open(os.path.join(cwd, "o"), "wb") as fo, \
            open(os.path.join(cwd, "e"), "wb") as fe:
        p = subprocess.Popen([prog, str(seed), str(a), str(b)], stdout=fo,
                             stderr=fe, stdin=subprocess.DEVNULL, cwd=cwd,
                             env=e, **kw)
        code, to = _wait(p, fo, timeout)
    out = open(os.path.join(cwd, "o"), "rb").read()
    with open(os.path.join(cwd, "e"), "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 4000000))
        err = f.read()
    return run.Result(out, err, code, 0, to, 0)


def _judge(res):
    """(key, text) of what went wrong, or None."""
    m = re.search(rb"^VIOL (\S+) round (\d+): (.*)$", res.out, re.M)
    if m:
        ops = res.out[m.start():].decode("utf-8", "replace")
        return ("oracle " + m.group(1).decode(), ops)
    rep = run.sanitizer_report(res)
    if rep:
        i = res.err.find(b"ERROR:")
        if i < 0:
            i = max(0, res.err.find(b"runtime error"))
        t = res.err.find(b"WARNING: ThreadSanitizer")
        if t >= 0:
            i = t
        return ("%s in %s" % rep,
                res.err[max(0, i - 200):i + 3500].decode("utf-8", "replace"))
    if res.timeout:
        return ("hang", "no end within the time limit")
    if res.code != 0:
        return ("died %d" % res.code, res.err[-1500:].decode("utf-8",
                                                             "replace"))
    if not re.search(rb"^DONE$", res.out, re.M):
        return ("ended early", "the process ended before its last round")
    return None


def jobs(r, js):
    """Run all jobs; everything seen goes into the Run `r'."""
    tmp = tempfile.mkdtemp(prefix="vf-")
    os.chmod(tmp, 0o755)
    try:
        tasks = []
        for j in js:
            prog = program(j.name, j.variant, j.srcs, j.lib, j.extra,
                           j.stress)
            mine = os.path.join(tmp, os.path.basename(prog))
            shutil.copy(prog, mine)
            os.chmod(mine, 0o755)
            step = max(1, -(-j.rounds // j.chunks))
            for a in range(0, j.rounds, step):
                tasks.append((j, mine, a, min(a + step, j.rounds)))

        def cwd(n):
            d = os.path.join(tmp, "d%d" % n)
            os.mkdir(d)
            if os.getuid() == 0:
                os.chown(d, run.UID, run.UID)
            return d

        found = []

        def work(k):
            j, prog, a, b = tasks[k]
            if len(found) > 2:
                return None
            e = env(j.variant, j.envx)
            if a == 0:
                e["MON_SHOW"] = "1"
            d = cwd(k)
            res = _run(prog, d, e, _seed(r, j), a, b, j.timeout)
            bad = _judge(res)
            at = None
            if bad:
                found.append(bad)
                at = a + len(re.findall(rb"^ROUND", res.out, re.M))
                again = _judge(_run(prog, cwd(len(tasks) + k), e, _seed(r, j),
                                    at, at + 1, j.timeout))
                if bad[0] == "hang" and again is None:
                    bad = ("inconclusive", "")
                if again is None:
                    bad = (bad[0], bad[1] + "\n(seen in rounds %d to %d; round"
                           " %d alone did not show it again)" % (a, b, at))
            return j, a, b, res, bad, at
        with cf.ThreadPoolExecutor(8) as ex:
            for w in ex.map(work, range(len(tasks))):
                if w is None:
                    continue
                j, a, b, res, bad, at = w
                lines = res.out.decode("utf-8", "replace").splitlines()
                shown = []
                for l in lines:
                    if l.startswith("ROUND "):
                        _, dig, ev = l.split()
                        r.evaluations += 1
                        if int(ev) >= j.min_events:
                            r.distinct.add((j.name, dig))
                        if shown:
                            pass
                    elif l.startswith("STAT "):
                        _, n, v = l.split()
                        if n == "rounds":
                            n = "rounds_%s_%s" % (j.name, j.variant)
                        r.count(n, int(v))
                    elif l.startswith("OP "):
                        if len(shown) < 12:
                            shown.append(l[3:])
                if shown and a == 0 and len(r.samples) < 6:
                    r.samples.append({"monitor": j.name, "build": j.variant,
                                      "seed": _seed(r, j), "first_rounds": shown})
                if bad is None:
                    continue
                if bad[0] == "inconclusive":
                    r.inconclusive += 1
                    continue
                if res.code == 99:
                    raise CheckError("monitor %s could not set up: %s"
                                     % (j.name, res.err[-300:]))
                r.violation("%s: %s" % (j.name, bad[0]),
                            "monitor %s (%s build), seed %d, round %d\n%s"
                            % (j.name, j.variant, _seed(r, j), at, bad[1]),
                            {"kind": "mon", "name": j.name, "srcs": j.srcs,
                             "lib": list(j.lib), "extra": list(j.extra),
                             "stress": j.stress, "env": j.envx or {},
                             "variant": j.variant, "seed": _seed(r, j),
                             "from": a if "alone did not" in bad[1] else at,
                             "to": b if "alone did not" in bad[1] else at + 1})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(d):
    prog = program(d["name"], d["variant"], d["srcs"], d["lib"], d["extra"],
                   d["stress"])
    tmp = tempfile.mkdtemp(prefix="vf-")
    try:
        os.chmod(tmp, 0o755)
        mine = os.path.join(tmp, "prog")
        shutil.copy(prog, mine)
        os.mkdir(tmp + "/d")
        os.chown(tmp + "/d", run.UID, run.UID)
        res = _run(mine, tmp + "/d", env(d["variant"], d["env"]), d["seed"],
                   d["from"], d["to"], 400)
        bad = _judge(res)
        print("%s\n%s" % bad if bad else "not seen this time")
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
