"""Looking without touching: what fql says about statements (Q20)."""
import re

from .. import cases, gen, sql as M
from ..cases import Via
from . import engine, refuse

WORDY = sorted(set(engine.CARRY)) + ["Q19 programs_changing", "Q01 scan",
                                     "Q08 top", "Q10 changes"]


class Captured(Exception):
    pass


class Capture(Via):
    """takes down what would be run"""

    def __init__(self):
        self.seen = {}

    def files(self, files):
        self.seen = files
        return files

    def run(self, mode, args, stdin):
        raise Captured(mode, args, self.seen, stdin)


def capture(env, names=engine.CARRY):
    """(text, names of the kind, files, imports) of a statement"""
    r = env.rng
    n = r.choice(names)
    env.count("of " + n)
    env.via = Capture()
    try:
        engine.BASE[n](env)
        raise M.Skip
    except Captured as c:
        mode, args, files, stdin = c.args
    finally:
        env.via = None
        for d in list(env.dirs):
            env.sc.drop(d)
        env.dirs = []
    if stdin:
        raise M.Skip
    imports, more, text = [], [], None
    i = 0
    while i < len(args):
        a = args[i]
        if mode == "cli":
            if a == "-c":
                text = args[i + 1]
                i += 1
            elif a == "-D":
                imports.append(args[i + 1])
                i += 1
            elif a != "-q":
                more.append(a)
        else:
            k, _, v = a.partition(":")
            if k in ("make", "exec") and text is None:
                text = v
            elif k == "import":
                imports.append(v)
            elif k not in ("stepall", "execall"):
                raise M.Skip
        i += 1
    if text is None or more:
        raise M.Skip
    return text, n, dict(files), imports


def tree(d):
    import os
    return sorted((os.path.relpath(os.path.join(a, n), d)
                   for a, bs, fs in os.walk(d) for n in fs + bs))


def imported(imports, api=False):
    if api:
        return ["import:" + x for x in imports]
    return [x for v in imports for x in ("-D", v)]


# -------------------------------------------------------- without running it

def dry(env):
    """a plan is made, and nothing more"""
    r = env.rng
    text, n, files, imports = capture(env)
    k = r.random()
    bad = False
    if k < .1:
        text += "; SELECT nowhere FROM [%s]" % r.choice(
            sorted(files) or ["missing.csv"])
        bad = True
    if r.random() < .25 and files and not bad:
        # it must not leave a new table behind either
        t = sorted(files)[0]
        text += "; SELECT * INTO [made.csv] FROM [%s]" % t
        env.count("dry_into")
    if r.random() < .25:
        ops = ["set:dry_run=1"] + imported(imports, True)
        ops += ["exec:" + text]
        o = env.api(ops, files, keep=True, leaks=not bad)
        ls = cases.api_lines(o.out)
        failed = any(l[0] == "rc" and l[1] in ("make", "exec") and l[2] < 0
                     for l in ls)
        out = [l for l in ls if l[0] != "rc"]
        if o.code:
            env.fail("dry run exit", "%d" % o.code)
    else:
        args = r.choice([["-q"], [], ["-v"], ["-q", "-p"], ["-t"], ["-p"]])
        opt = ["-d"] if r.random() < .5 else ["--dry-run"]
        o = env.cli(text, files, args=args + opt + imported(imports),
                    keep=True, leaks=not bad)
        failed, out = o.code != 0, o.out
        if "-p" in args and not bad and b"NODE" not in o.err:
            env.fail("no plan", "the plan is not shown")
        if b"affected" in o.err:
            env.fail("dry run said", "it tells of affected records")
    if failed != bad:
        env.fail("dry run refused" if failed else "dry run not refused",
                 "exit status")
    if out:
        env.fail("dry run printed", "something was printed: %r" % out)
    if o.files != dict(env.also, **files):
        env.fail("dry run changed", "files: %s" % sorted(o.files))
    env.count("dry_runs")
    env.nontrivial = True


def parse_only(env):
    """whether it is SQL; tables need not exist"""
    r = env.rng
    text, n, files, imports = capture(env)
    bad = r.random() < .25
    if bad:
        how = r.randrange(3)
        at = [i for i, c in enumerate(text) if c == " "]
        if how == 0 or not at:
            text += r.choice([" )", " SELECT FROM", " ; WHERE 1 = 1",
                              " FROM FROM", "; SELECT (1", "; ELSE",
                              "; UPDATE SET a = 1", "; DECLARE x int"])
        elif how == 1:
            text = text + "; END"
        else:
            text = ") " + text
    else:
        if r.random() < .5:
            files = {}
    args = r.choice([["-q"], [], ["-v"]]) + ["--parse-only"]
    o = env.cli(text, files, args=args + imported(imports), keep=True,
                leaks=not bad)
    if (o.code != 0) != bad:
        env.fail("parse refused" if o.code else "parse not refused",
                 "exit status %d" % o.code)
    if o.out:
        env.fail("parse printed", "something was printed")
    if o.files != dict(env.also, **files):
        env.fail("parse changed", "files: %s" % sorted(o.files))
    if bad and not o.err.strip():
        env.fail("parse without a word", "nothing on the error output")
    env.count("texts_wrong" if bad else "texts_right")
    env.nontrivial = True


# ------------------------------------------------------- what it says meanwhile

class Talk(Via):
    """everything else is as always"""
    OPTS = [[], [], ["-v"], ["--verbose"], ["-p"], ["-p", "-v"], ["-q", "-p"],
            ["-q"]]

    def __init__(self, r):
        self.opts = r.choice(self.OPTS)
        self.runs = []
        self.results = None

    def run(self, mode, args, stdin):
        if mode != "cli":
            raise M.Skip
        args = self.opts + [a for a in args if a != "-q"]
        return args, stdin

    def saw(self, rec):
        self.runs.append(rec)

    def expected(self, results):
        self.results = results


def affected(err):
    acc = []
    for m in re.finditer(rb"^(\d+) rows? affected$", err, re.M):
        acc.append(int(m.group(1)))
    return acc


def wordy(env):
    r = env.rng
    v = env.via = Talk(r)
    M.STATE["world"] = None
    n = r.choice(WORDY)
    env.count("of " + n)
    env.timeout = 30
    engine.BASE[n](env)
    w = M.STATE["world"]
    if len(v.runs) != 1 or v.runs[0]["code"] != 0:
        raise M.Skip
    err = v.runs[0]["err"]
    plans = len(re.findall(rb"^NODE  ", err, re.M))
    if "-p" in v.opts:
        if not plans:
            env.fail("no plan", "the plan is not shown")
    elif plans:
        env.fail("a plan", "a plan is shown that was not asked for")
    if v.opts in ([], ["-p"], ["-q"], ["-q", "-p"]) and b"EXEC" in err:
        env.fail("noise", "more than was asked for")
    if "-q" in v.opts:
        if b"affected" in err:
            env.fail("noise", "records are counted in spite of --quiet")
        if err.strip() and "-p" not in v.opts:
            env.fail("noise", "not quiet: %s" % cases.show_bytes(err))
        return
    if v.results is None and w is None:
        raise M.Skip
    want = w.affected if w is not None else [
        x.shown() for x in v.results]
    got = affected(err)
    if want != got:
        env.fail("records affected", "says %s instead of %s" % (got, want))
    env.count("counts_compared", len(want))
    env.count("records_counted", sum(want))
    env.nontrivial = True


def recount(env):
    """statements that are run again and again, over what they left"""
    r = env.rng
    M.STATE["world"] = None
    ks = [r.randint(0, 9) for _ in range(r.choice([0, 1, 5, 20, 60]))]
    us = [r.randint(0, 9) for _ in range(r.choice([0, 3, 20]))]
    files = {"t.csv": b"k,x\n" + b"".join(b"%d,a\n" % k for k in ks),
             "u.csv": b"k\n" + b"".join(b"%d\n" % k for k in us)}
    first, times = r.randint(-1, 8), r.randint(1, 5)
    ops = {"<": lambda a, b: a < b, "=": lambda a, b: a == b,
           ">": lambda a, b: a > b, "<>": lambda a, b: a != b}
    sts = []
    for _ in range(r.randint(1, 3)):
        kind = r.choice(["delete", "delete", "update", "select", "group",
                         "join", "top"])
        op = r.choice(["<", "=", ">", "<>"])
        sts.append((kind, op, r.randint(0, 2)))
    text = "declare @i int = %d while @i < %d begin " % (first, first + times)
    for kind, op, d in sts:
        w = "k %s @i + %d" % (op, d)
        text += {"delete": "delete t where %s; ",
                 "update": "update t set x = @i where %s; ",
                 "select": "select k from t where %s; ",
                 "group": "select k, count(*) from t where %s group by k; ",
                 "join": "select a.k from t a join u b on a.k = b.k "
                         "where a.%s; ",
                 "top": "select top 2 k from t where %s; "}[kind] % w
    text += "set @i += 1 end"
    want, left = [], list(ks)
    for i in range(first, first + times):
        for kind, op, d in sts:
            hit = [k for k in left if ops[op](k, i + d)]
            if kind == "delete":
                left = [k for k in left if not ops[op](k, i + d)]
            want.append({"group": len(set(hit)), "top": min(2, len(hit)),
                         "join": sum(us.count(k) for k in hit)}.get(
                             kind, len(hit)))
    args = r.choice([[], ["-v"], ["-t"], ["-t"], ["-t", "-v"],
                     ["-t", "-P", "2"]])
    env.timeout = 60
    o = env.cli(text, files, args=args + ["-h"])
    if o.code != 0:
        env.fail("recount refused", cases.show_bytes(o.err))
    got = affected(o.err)
    if got != want:
        env.fail("records affected again", "says %s instead of %s"
                 % (got, want))
    env.count("recounted", len(want))
    env.count("recounted_none", want.count(0))
    env.count("recounted_in_threads", "-t" in args)
    env.nontrivial = len(set(want)) > 1


def q20(r):
    r.rule = ("statements of every kind planned only (--dry-run), parsed "
              "only (--parse-only), or run with plans and numbers of records "
              "shown; files, output and numbers compared with the model; "
              "non-trivial: it was judged")
    cases.drive(r, GENS["Q20"], [
        ("dry", "plain", r.pick(1000, 30000)),
        ("parse_only", "plain", r.pick(600, 20000)),
        ("wordy", "plain", r.pick(1500, 50000)),
        ("recount", "plain", r.pick(250, 10000)),
        ("recount", "asan", r.pick(20, 1000)),
        ("dry", "asan", r.pick(30, 2000)),
        ("parse_only", "asan", r.pick(20, 1500)),
        ("wordy", "asan", r.pick(40, 2500))])
    cases.known(r)


# ------------------------------------------------- record by record (--api)

def api_form(env):
    """--api steps through what is otherwise printed"""
    r = env.rng
    text, n, files, imports = capture(env)
    if r.random() < .5 and "@" not in text:
        # beside statements of another kind, over the same files if any
        more, n2, files2, imports2 = capture(env)
        if not imports and not imports2 and not (set(files) & set(files2)) \
                and "@" not in more:
            text = text.rstrip().rstrip(";") + "; " + more
            files = dict(files, **files2)
    if re.search(r"(?i)\bwhile\b", text) and r.random() < .5:
        raise M.Skip
    base = ["-q", "-h", "--out-std", "NONE", "-S", ","] + imported(imports)
    api = ["-A"] if r.random() < .5 else ["--api"]
    if r.random() < .2:
        api.append("-t")
    if r.random() < .1:
        api += ["-d"]
    a = env.cli(text, files, args=base, keep=True, leaks=False)
    b = env.cli(text, files, args=base + api, keep=True, leaks=a.code == 0)
    if "-d" in api:
        if b.out or b.files != dict(env.also, **files):
            env.fail("api dry run", "it was not one")
        if a.code == 0 and b.code:
            env.fail("api dry run refused", "exit status %d" % b.code)
        env.nontrivial = True
        return
    if a.code != b.code:
        env.fail("api exit", "exit status %d instead of %d" % (b.code, a.code))
    if a.code == 0:
        if a.out != b.out:
            env.fail("api output", "instead of:\n%s" % a.out.decode(
                "utf8", "replace")[:2000])
        if a.files != b.files:
            env.fail("api files", "%s" % [
                x for x in set(a.files) | set(b.files)
                if a.files.get(x) != b.files.get(x)])
    env.count("accepted" if a.code == 0 else "refused")
    env.count("lines_compared", a.out.count(b"\n") if a.code == 0 else 0)
    env.nontrivial = True


def q22(r):
    r.rule = ("statements and programs of the other properties' kinds, alone "
              "and one after the other, run with --api and without; same "
              "output, files and exit status; non-trivial: each case, if new")
    cases.drive(r, GENS["Q22"], [
        ("api_form", "plain", r.pick(2000, 60000)),
        ("api_form", "asan", r.pick(80, 4000))])
    cases.known(r)


GENS = {"Q22": {"api_form": api_form}, "Q20": {"dry": dry, "parse_only": parse_only, "wordy": wordy,
                "recount": recount}}
ZYG = {}
