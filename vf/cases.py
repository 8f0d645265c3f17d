"""Generated end-to-end cases: each is made from a seed, run in a zygote and
judged by comparing what the program printed with the reference model."""
import collections
import hashlib
import json
import os
import random
import re
import time

from . import build, run
from .core import findings
from . import sql as M


class Violation(Exception):
    def __init__(self, key, text):
        self.key, self.text = key, text


class Inconclusive(Exception):
    pass


Obs = collections.namedtuple("Obs", "code out err files")


def show_bytes(b, n=1500):
    s = b.decode("utf-8", "backslashreplace")
    return s if len(s) <= n else s[:n] + "... (%d bytes)" % len(b)


class Via:
    """Runs a case in another form: what is given to fql is changed, and
    what comes back is changed back."""
    headless = False         # no headers are printed
    fixed = False            # columns are of fixed width

    namer = None             # number of columns -> their names

    def made(self, t):
        pass

    def files(self, files):
        return files

    def text(self, sql):
        return sql

    def args(self, mode):
        return []

    def run(self, mode, args, stdin):
        a = list(args)
        if mode == "cli":
            i = a.index("-c")
            a[i + 1] = self.text(a[i + 1])
        else:
            a = [x if ":" not in x or x.split(":")[0] not in
                 ("make", "exec") else
                 x.split(":", 1)[0] + ":" + self.text(x.split(":", 1)[1])
                 for x in a]
        return self.args(mode) + a, stdin

    def back(self, files):
        return files

    def out(self, mode, out):
        return out

    def saw(self, rec):
        """once it has run"""

    def expected(self, results):
        """what it should print"""


class Env:
    """What a case has at hand."""

    def __init__(self, z, sc, rng, variant):
        self.z, self.sc, self.rng = z, sc, rng
        self.variant = variant
        self.log = []
        self.counts = {}
        self.nontrivial = False
        self.dirs = []
        self.timeout = 60
        self.options = None      # ([CLI options], [API operations]) for all
        self.also = {}           # more files for all
        self.via = None          # a Via: the same case in other clothes

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fail(self, key, text):
        raise Violation(key, text + "\n" + self.story())

    def story(self):
        o = []
        for l in self.log[-6:]:
            o.append("$ %s %s" % (l["mode"], json.dumps(l["args"])))
            for n, d in l["files"].items():
                o.append("  file %s: %s" % (n, show_bytes(d, 700)))
            if l["stdin"]:
                o.append("  stdin: %s" % show_bytes(l["stdin"], 300))
            if "code" in l:
                o.append("  exit %s, stdout: %s\n  stderr: %s" % (
                    l["code"], show_bytes(l["out"], 1200),
                    show_bytes(l["err"], 600)))
        return "\n".join(o)

    def dir(self, files):
        d = self.sc.new()
        self.dirs.append(d)
        if self.via:
            files = self.via.files(files)
        for n, t in files.items():
            p = os.path.dirname(os.path.join(d, n))
            if p != d:
                os.makedirs(p, exist_ok=True)
                q = p
                while q != d:
                    if os.getuid() == 0:
                        os.chown(q, run.UID, run.UID)
                    q = os.path.dirname(q)
            self.sc.write(d, n, t)
        return d

    def close(self):
        for d in self.dirs:
            self.sc.drop(d)
        self.dirs = []

    def exec(self, mode, args, files=None, stdin=b"", d=None, zname=None,
             keep=False, sane=True, timeout=None, fsize=-1, leaks=True,
             signal=None):
        """Run once.  `d': a directory made before; otherwise a new one with
        `files'.  Crashes and sanitizer reports are violations; leaks are
        where `leaks' says so (not where a statement fails)."""
        mine = d is None
        files = dict(self.also, **(files or {}))
        if mine:
            d = self.dir(files)
        zn = zname or self.variant
        if self.options:
            args = list(self.options[mode == "api"]) + list(args)
        if self.via:
            args, stdin = self.via.run(mode, list(args), stdin)
            files = self.via.files(files)
        rec = {"mode": mode, "args": list(args), "files": dict(files or {}),
               "stdin": stdin}
        if signal:
            rec["signal"] = list(signal)
        self.log.append(rec)
        was = None if mine else self.read(d)
        for turn in range(2):
            res = self.z(zn).run("k%d,%d:%s" % (signal + (mode,)) if signal
                                 else mode, d, args, stdin,
                                 timeout=timeout or self.timeout,
                                 fsize=fsize)
            if not res.timeout:
                break
            self.count("timeouts")
            if turn == 0 and not mine:
                # as it was before the first try
                for n in self.read(d):
                    os.unlink(os.path.join(d, n))
                for n, t in was.items():
                    self.sc.write(d, n, t)
        rec.update(code=res.code, out=res.out, err=res.err)
        self.count("runs_" + zn)
        if sane:
            rep = run.sanitizer_report(res)
            if rep and not leaks and "leak" in rep[0].lower():
                rep = None
                self.count("leaks_not_judged")
            if rep:
                rec["err"] = res.err[:200]
                i = max(0, res.err.find(rep[0].encode()[:30]) - 100)
                raise Violation("%s in %s" % rep, show_bytes(
                    res.err[i:i + 3500], 3500) + "\n" + self.story())
            if res.timeout:
                self.fail("hang", "no end within %d s, twice"
                          % (timeout or self.timeout))
            if res.sig:
                self.fail("signal %d" % res.sig, "killed by a signal")
        if res.timeout:
            raise Inconclusive
        fs = {}
        if keep or not mine:
            fs = self.read(d)
        if mine and not keep:
            self.sc.drop(d)
            self.dirs.remove(d)
        out = res.out
        if self.via:
            self.via.saw(rec)
            fs = self.via.back(fs) if fs else fs
            if res.code == 0:
                out = self.via.out(mode, out)
        return Obs(res.code, out, res.err, fs)

    def read(self, d):
        fs = {}
        for root, _, names in os.walk(d):
            for n in names:
                p = os.path.join(root, n)
                with open(p, "rb") as f:
                    fs[os.path.relpath(p, d)] = f.read()
        return fs

    def cli(self, text, files=None, args=(), **kw):
        return self.exec("cli", list(args) + ["-c", text], files, **kw)

    def api(self, ops, files=None, **kw):
        return self.exec("api", list(ops), files, **kw)


# ------------------------------------------------------------ what it printed

def parse_csv(b, delim=b","):
    """RFC 4180 records, LF or CRLF terminated"""
    recs, i, n = [], 0, len(b)
    rec = []
    if n == 0:
        return recs
    while True:
        if b[i:i + 1] == b'"':
            j, o = i + 1, b""
            while True:
                k = b.find(b'"', j)
                if k < 0:
                    raise ValueError("open quote")
                o += b[j:k]
                if b[k + 1:k + 2] == b'"':
                    o += b'"'
                    j = k + 2
                    continue
                i = k + 1
                break
            f = o
        else:
            j = i
            while j < n and b[j:j + 1] != b"\n" and \
                    b[j:j + len(delim)] != delim:
                j += 1
            f = b[i:j]
            i = j
            if f.endswith(b"\r") and b[i:i + 1] == b"\n":
                f = f[:-1]
        rec.append(f)
        if b[i:i + len(delim)] == delim:
            i += len(delim)
            continue
        if b[i:i + 1] == b"\r":
            i += 1
        if b[i:i + 1] == b"\n" or i >= n:
            recs.append(tuple(rec))
            rec = []
            i += 1
            if i >= n:
                return recs
            continue
        raise ValueError("text behind a quoted field at %d" % i)


def unescape(s):
    return re.sub(rb"\\(.)", lambda m: {b"t": b"\t", b"n": b"\n",
                                        b"r": b"\r"}.get(m[1], m[1]), s)


def api_value(x):
    if x[:1] == b"N":
        return None
    if x[:1] == b"i":
        return int(x[1:])
    if x[:1] == b"f":
        return float(x[1:])
    return unescape(x[1:])


def api_lines(out):
    """[(kind, ...)]: ('rc', name, value) or ('row', [typed values])"""
    acc = []
    for l in out.split(b"\n"):
        if l.startswith(b"rc "):
            _, n, v = l.split(b" ")
            acc.append(("rc", n.decode(), int(v)))
        elif l.startswith(b"row"):
            acc.append(("row", [api_value(x) for x in l[4:].split(b"\t")]))
        elif l:
            acc.append(("other", l))
    return acc


def text_of(v):
    return b"" if v is None else zero(M.to_s(v))


def zero(b):
    return b"0.000000" if b == b"-0.000000" else b


def api_of(v):
    """floats as they print: groups hand them on as text"""
    return text_of(v) if isinstance(v, float) else v


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


def _key(row):
    return repr(row)


def match(res, got, what):
    """None, or how `got' (rows) differs from the Result; `what' converts a
    row of the model to what is printed."""
    want = [what(r) for r in res.rows]
    top = getattr(res, "top", None)
    n = len(want) if top is None else min(top, len(want))
    if len(got) != n:
        return "%d rows instead of %d" % (len(got), n)
    keys = getattr(res, "keys", None)
    if keys is not None:
        i = 0
        while i < n:
            j = i
            while j < len(want) and keys[j] == keys[i]:
                j += 1
            g = collections.Counter(map(_key, got[i:min(j, n)]))
            w = collections.Counter(map(_key, want[i:j]))
            if g - w or (j <= n and w - g):
                return "rows %d to %d: %s instead of %s" % (
                    i, min(j, n), got[i:min(j, n)], want[i:j])
            i = j
        return None
    if res.ordered:
        for i in range(n):
            if _key(got[i]) != _key(want[i]):
                return "row %d: %s instead of %s" % (i, got[i], want[i])
        return None
    g = collections.Counter(map(_key, got))
    w = collections.Counter(map(_key, want))
    if g - w:
        return "unexpected: %s; missing: %s" % (
            list((g - w).elements())[:4], list((w - g).elements())[:4])
    if top is None and w - g:
        return "missing: %s" % list((w - g).elements())[:4]
    return None


def check_cli(env, results, obs, header=True, delim=b",", key="result"):
    """The printed records are the results, one after the other."""
    if obs.code != 0:
        env.fail(key + " refused", "exit status %d" % obs.code)
    if env.via:
        env.via.expected(results)
    if env.via and env.via.fixed:
        return env.via.check(env, results, obs, key)
    try:
        recs = parse_csv(obs.out, delim)
    except ValueError as e:
        env.fail(key + " csv", "the output is not CSV: %s" % e)
    at = 0
    if env.via and env.via.headless:
        header = False
    for res in results:
        if header:
            want = tuple(n.encode() for n in res.names)
            if recs[at:at + 1] != [want]:
                env.fail(key + " header", "header %s instead of %s"
                         % (recs[at:at + 1], want))
            at += 1
        n = res.shown()
        got = recs[at:at + n] if res is not results[-1] else recs[at:]
        got = [tuple(map(zero, x)) for x in got]
        at += n
        bad = match(res, got, lambda r: tuple(map(text_of, r)))
        if bad:
            env.fail(key, bad)
        env.count("rows_compared", n)


def check_api(env, results, obs, key="result"):
    """Output of the operations make/execall-less stepping: 'stepall'."""
    if obs.code != 0:
        env.fail(key + " refused", "exit status %d" % obs.code)
    ls = api_lines(obs.out)
    bad = [l for l in ls if l[0] == "rc" and l[2] < 0]
    if bad:
        env.fail(key + " refused", "%s is %d" % bad[0][1:])
    blocks = []
    for l in ls:
        if l[0] == "rc" and l[1] == "fields":
            blocks.append([])
        elif l[0] == "row":
            blocks[-1].append(l[1])
    if len(blocks) != len(results):
        env.fail(key + " selects", "%d result sets instead of %d"
                 % (len(blocks), len(results)))
    for res, got in zip(results, blocks):
        for x in got:
            for v, t in zip(x, res.types):
                if v is not None and {int: "i", float: "f",
                                      bytes: "s"}[type(v)] != t:
                    env.fail(key + " type (API)", "%r is not of type %s"
                             % (v, t))
        r = [list(map(api_of, x)) for x in got]
        bad = match(res, r, lambda x: list(map(api_of, x)))
        if bad:
            env.fail(key + " (API)", bad)
        env.count("rows_compared", len(got))


# -------------------------------------------------------------------- driving

ZARGS = {}


def zargs(names, paranoid=True):
    """names: plain, asan, tsan, stress (plain), stress-tsan"""
    for n in names:
        if n in ZARGS:
            continue
        v = n.split("-")[-1] if n != "stress" else "plain"
        st = n.startswith("stress")
        ZARGS[n] = ((build.zygote(v, stress=st), v),
                    {"paranoid": paranoid,
                     "extra": {"STRESS_RATE": "9"} if st else None})
    return {n: ZARGS[n] for n in names}


def one(prop, gen, seed, name, i, z, sc, variant):
    rng = random.Random("%s/%s/%s/%d" % (seed, prop, name, i))
    env = Env(z, sc, rng, variant)
    env.index = i
    out = {"n": 1, "dig": None, "viol": None, "inc": 0}
    try:
        gen(env)
    except Violation as e:
        out["viol"] = (e.key, e.text)
    except Inconclusive:
        out["inc"] = 1
    except (M.Skip, M.Err):
        # the model is silent, or expects a failure nobody planned for
        out["n"] = 0
        env.count("skipped_by_the_model")
    finally:
        env.close()
    if env.nontrivial and not out["inc"]:
        h = hashlib.sha1()
        for l in env.log:
            h.update(repr((l["mode"], l["args"], sorted(l["files"].items()),
                           l["stdin"])).encode())
        out["dig"] = h.hexdigest()[:16]
    out["counts"] = env.counts
    if i == 0 and env.log:
        l = env.log[0]
        out["sample"] = {
            "case": name, "mode": l["mode"], "args": l["args"],
            "files": {n: show_bytes(d, 200) for n, d in l["files"].items()},
            "stdout": show_bytes(l.get("out", b""), 300)}
    return out


def _work(job, z, sc, ctx):
    name, variant, a, b = job
    prop, gens, seed = ctx
    return [(i, one(prop, gens[name], seed, name, i, z, sc, variant))
            for i in range(a, b)]


def drive(r, gens, plan, names=("plain", "asan"), budget=None, workers=8):
    """plan: [(generator name, variant, number of cases)]"""
    zs = zargs(names)
    jobs = []
    at = {}
    for name, variant, n in plan:
        step = 25 if variant == "plain" else 5
        base = at.get(name, 0)
        at[name] = base + n
        jobs.append([(name, variant, a, min(a + step, base + n))
                     for a in range(base, base + n, step)])
    # interleave the generators
    order = []
    longest = max(map(len, jobs))
    for k in range(longest):
        for js in jobs:
            lo, hi = k * len(js) // longest, (k + 1) * len(js) // longest
            order += js[lo:hi]
    errors = []
    budget = budget or r.pick(240, 5400)
    for job, res in run.parallel(_work, order, zs, (r.prop, gens, r.seed),
                                 workers=workers, budget=budget,
                                 stop=lambda: len(r.viol) > 3):
        if isinstance(res, dict):
            errors.append(res["error"])
            if len(errors) > 3:
                break
            continue
        name, variant, a, b = job
        for i, o in res:
            r.evaluations += o["n"]
            r.inconclusive += o["inc"]
            for k, v in o["counts"].items():
                r.count(k, v)
            if o["n"]:
                r.count("cases_" + name)
            if o["dig"]:
                r.distinct.add(o["dig"])
            if "sample" in o:
                r.sample(o["sample"], 8)
            if o["viol"]:
                key, text = o["viol"]
                r.violation("%s: %s" % (name, key), "case %s/%d (%s build)\n%s"
                            % (name, i, variant, text),
                            {"kind": "case", "prop": r.prop, "gen": name,
                             "seed": r.seed, "index": i, "variant": variant})
    if errors:
        raise RuntimeError(errors[0])


def known(r):
    """The findings recorded for this property still show as recorded."""
    fs = findings(r.prop)
    if not fs:
        return
    zs = zargs(["plain"])

    def go(job, z, sc, ctx):
        env = Env(z, sc, random.Random(0), "plain")
        f = fs[job]
        files = {n: t.encode() for n, t in f["files"].items()}
        try:
            o = env.exec(f["mode"], f["args"], files, sane=False, timeout=30,
                         keep=True, signal=tuple(f["signal"])
                         if "signal" in f else None)
            res = (o.code, o.out.decode("utf-8", "replace"))
            if len(f["is"]) > 2:
                res += ({n: o.files.get(n, b"-").decode("utf-8", "replace")
                         for n in f["is"][2]},)
            return res
        except Inconclusive:
            return ("timeout", "")
        finally:
            env.close()
    for job, res in run.parallel(go, range(len(fs)), zs):
        f = fs[job]
        r.evaluations += 1
        if isinstance(res, dict):
            raise RuntimeError(res["error"])
        if list(res) == f["should_be"]:
            r.count("findings_gone")
        elif list(res) == f["is"]:
            r.known("%s: %s" % (f["id"], f["what"]))
        else:
            r.violation("finding " + f["id"], "%s\nshould be %s\nwas recorded "
                        "as %s\nis %s" % (f["what"], f["should_be"], f["is"],
                                          list(res)),
                        {"kind": "finding", "prop": r.prop, "id": f["id"]})


def replay(d):
    import tempfile
    from . import props
    if d["kind"] == "finding":
        from .core import Run
        r = Run(d["prop"], "quick")
        known(r)
        return 1 if r.viol else 0
    gens = props.generators(d["prop"])
    names = props.zygotes(d["prop"])
    base = tempfile.mkdtemp(prefix="vf-")
    os.chmod(base, 0o755)
    sc = run.Scratch(base)
    za = zargs(names)
    zs = {}

    def z(n):
        if n not in zs:
            zs[n] = run.Zygote(*za[n][0], **za[n][1])
        return zs[n]
    try:
        o = one(d["prop"], gens[d["gen"]], d["seed"], d["gen"], d["index"], z,
                sc, d["variant"])
        if o["viol"]:
            print("%s\n%s" % o["viol"])
            return 1
        print("not seen this time")
        return 0
    finally:
        for x in zs.values():
            x.close()
        import shutil
        shutil.rmtree(base, ignore_errors=True)
