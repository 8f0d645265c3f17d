"""The library: one handle, any history of calls (Q16)."""
import re

from .. import cases, gen, sql as M
from . import engine, talk

KINDS = sorted(set(engine.CARRY))
SELECTS = [n for n in KINDS if n[:3] in ("Q01", "Q05", "Q06", "Q07", "Q08",
                                         "Q09")]
BROKEN = ["SELECT nowhere FROM [%s]", "SELEC * FROM [%s]", "SELECT FROM [%s]",
          "SELECT * FROM [%s] WHERE", "SELECT * FROM [no_such.csv]",
          "SELECT * FROM [%s]; SELECT * FROM [no_such.csv]",
          "SELECT @gone FROM [%s]", "SELECT nothere(1) FROM [%s]",
          "DECLARE @a int; DECLARE @a int", "UPDATE [%s] SET nowhere = 1",
          "SELECT a.b FROM [%s] x", "SELECT * FROM [%s] GROUP BY nowhere",
          "DELETE [%s] WHERE nowhere = 1",
          "SELECT 1 AS c UNION ALL SELECT 1, 2", "SELECT 1 / 0",
          "SELECT * INTO [made_of_it.csv] FROM [no_such.csv]"]
OPTIONS = [("verbose", 1, 0), ("print_plan", 1, 0), ("threading", 1, 0),
           ("pipe_factor", 2, 16), ("dry_run", 1, 0), ("parse_only", 1, 0),
           ("print_header", 0, 1), ("overwrite", 1, 0), ("stable", 1, 0)]


class Piece:
    """a text with its own files, and what a new handle makes of it"""

    def __init__(self, env, k, names=KINDS):
        r = env.rng

        was, gen.REF_ONLY = gen.REF_ONLY, True
        try:
            for turn in range(4):
                try:
                    self.text, self.kind, files, self.imports = \
                        talk.capture(env, names)
                    break
                except M.Skip:
                    if turn == 3:
                        raise
        finally:
            gen.REF_ONLY = was
        self.files = {}
        for f, b in files.items():
            self.text = self.text.replace("[%s]" % f, "[p%d_%s]" % (k, f))
            self.files["p%d_%s" % (k, f)] = b
        if r.random() < .12 and self.files:
            t = sorted(self.files)[0]
            self.text += "; SELECT * INTO [p%d_new.csv] FROM [%s]" % (k, t)
            if r.random() < .5:
                self.text += "; SELECT * FROM [p%d_new.csv]" % k
            self.kind += " into"
        self.single = self.kind in SELECTS


def run(env, groups, d, leaks=True, args=()):
    """the output of each group of operations"""
    ops = []
    for g in groups:
        ops += list(g) + ["mark"]
    o = env.exec("api", list(args) + ops, d=d, leaks=leaks)
    out = o.out.split(b"\n== mark\n")
    if o.code not in ((0,) if leaks else (0, 87)) or len(out) != len(groups) + 1 or out[-1]:
        env.fail("exit", "exit status %s, %d of %d calls"
                 % (o.code, len(out) - 1, len(groups)))
    return out[:-1], o.files


def split(b):
    """(what it printed or its rows, [the codes])"""
    rcs = re.findall(rb"^rc (\w+) (-?\d+)$", b, re.M)
    rest = re.sub(rb"^rc \w+ -?\d+\n?", b"", b, flags=re.M)
    return rest.strip(b"\n"), [(n.decode(), int(v)) for n, v in rcs]


def failed(rcs):
    return any(v < 0 for _, v in rcs)


def history(env):
    """many statements, one handle; each as in a new one"""
    r = env.rng
    env.timeout = 40
    n = r.choice([2, 3, 3, 4, 5, 7])
    pieces = [Piece(env, k) for k in range(n)]
    if r.random() < .3:
        # the same once more: another plan of the same tables
        pieces.append(r.choice(pieces))
    files = {}
    for p in pieces:
        files.update(p.files)
    if not files:
        raise M.Skip
    groups, judge, before, opts = [["fds"]], [None], [], {}
    leaks = True
    for p in pieces:
        k = r.random()
        t = r.choice(sorted(files))
        if k < .15:
            bad = r.choice(BROKEN)
            bad = bad.replace("%s", t)
            g = r.choice([["exec:" + bad], ["make:" + bad, "execall"],
                          ["make:" + bad]])
            if bad == "SELECT 1 / 0":
                g = ["exec:" + bad]
            groups.append(g + (["reset"] if r.random() < .5 else []))
            judge.append("bad")
            leaks = False
        elif k < .25 and p.single:
            # leave it in the middle
            g = ["import:" + x for x in p.imports] + ["make:" + p.text]
            g.append("step:%d" % r.choice([0, 1, 1, 2, 3, 10]))
            groups.append(g + ["reset"])
            judge.append(("part", p))
            env.count("abandoned")
        elif k < .32:
            g = ["import:" + x for x in p.imports] + ["make:" + p.text]
            groups.append(g + ["reset"])
            judge.append("never")
        elif k < .4:
            g = ["import:left=over", "reset"] if r.random() < .5 else \
                ["exec:DECLARE @left varchar(9) = 'over'"]
            groups.append(g)
            judge.append(None)
            groups.append(["exec:SELECT @left AS c"])
            judge.append("bad")
            leaks = False
        elif k < .46:
            groups.append(["renew"])
            judge.append(None)
        elif k < .52:
            x, on, off = r.choice(OPTIONS)
            if x in ("dry_run", "parse_only"):
                g = ["set:%s=%d" % (x, on), "exec:" + p.text,
                     "set:%s=%d" % (x, off)]
                if p.imports:
                    g = g[:1] + ["import:" + i for i in p.imports] + g[1:]
                groups.append(g + ["reset"])
                judge.append("nothing")
            else:
                groups.append(["set:%s=%d" % (x, on),
                               "set:%s=%d" % (x, off)])
                judge.append(None)
        if r.random() < .12:
            groups.append(["reset"])
            judge.append(None)
        k = r.random()
        g = ["import:" + x for x in p.imports]
        if k < .35:
            g.append("exec:" + p.text)
            how = "exec"
        elif k < .5:
            g += ["make:" + p.text, "execall"]
            how = "exec"
        elif k < .65:
            g += ["make:" + p.text] + ["execn:%d" % r.choice([1, 1, 2, 3])
                                       for _ in range(r.randint(1, 4))] + \
                ["execall"]
            how = "exec"
        elif k < .8 or not p.single:
            g += ["make:" + p.text, "stepall"]
            how = "step"
        else:
            g += ["make:" + p.text, "type", "fields"] + \
                ["step:%d" % r.choice([1, 1, 2, 5])
                 for _ in range(r.choice([0, 1, 1, 2, 3]))] + ["stepall"]
            how = "pieces"
        groups.append(g)
        judge.append((how, p))
        env.count("called_" + how)
    groups.append(["reset", "fds"])
    judge.append(None)
    # each in a handle of its own, one after the other
    ref = env.dir(files)
    want = {}
    for i, j in enumerate(judge):
        if not isinstance(j, tuple):
            continue
        how, p = j
        imp = ["import:" + x for x in p.imports]
        if how == "part":
            # (it changes nothing)
            g = imp + ["make:" + p.text, "stepall"]
        elif how == "exec":
            g = imp + ["exec:" + p.text]
        else:
            g = imp + ["make:" + p.text, "stepall"]
        env.log.clear()
        (out,), _ = run(env, [g], ref, False)
        rows, rcs = split(out)
        want[i] = rows, failed(rcs)
        if failed(rcs):
            leaks = False
            env.count("fails_by_itself")
    end = env.read(ref)
    env.log.clear()
    d = env.dir(files)
    got, now = run(env, groups, d, leaks)
    fds = []
    for i, (b, j, g) in enumerate(zip(got, judge, groups)):
        rows, rcs = split(b)
        fds += [v for k, v in rcs if k == "fds"]
        where = "call %d: %s" % (i, " ; ".join(g))
        if j == "bad":
            if not failed(rcs):
                env.fail("not refused", where)
            env.count("refused")
        elif j == "nothing":
            if rows or (failed(rcs) and "INTO [" not in where):
                env.fail("not only planned", where)
        elif j == "never":
            # (the table may be there already)
            if rows or (failed(rcs) and "INTO [" not in where):
                env.fail("plans refused", where)
        elif j is None:
            if rows or failed(rcs):
                env.fail("reset or option", where)
        else:
            how, p = j
            w, f = want[i]
            if how == "part":
                if f:
                    continue
                a, b2 = rows.split(b"\n"), w.split(b"\n")
                if failed(rcs) or (rows and a != b2[:len(a)]):
                    env.fail("first rows", "%s\n%s instead of %s" % (
                        where, cases.show_bytes(rows), cases.show_bytes(w)))
                continue
            if f:
                if not failed(rcs):
                    env.fail("fails in a new handle", where)
                continue
            if failed(rcs):
                env.fail("fails", where)
            if rows != w:
                env.fail("other than in a new handle", "%s\n%s instead of %s"
                         % (where, cases.show_bytes(rows),
                            cases.show_bytes(w)))
            env.count("results_compared")
            counts(env, p, how, rows, rcs, where)
    if now != end:
        for n in sorted(set(now) | set(end)):
            if now.get(n) != end.get(n):
                env.fail("files", "%s: %s instead of %s" % (
                    n, cases.show_bytes(now.get(n, b"(none)")),
                    cases.show_bytes(end.get(n, b"(none)"))))
    if leaks and fds[-1] != fds[0]:
        env.fail("descriptors", "%d are open, %d were" % (fds[-1], fds[0]))
    env.nontrivial = len(want) > 1


def counts(env, p, how, rows, rcs, where):
    """what the calls return and say themselves"""
    d = dict(rcs)
    if p.single and "make" in d and d["make"] != 1:
        env.fail("number of plans", where)
    if how == "pieces":
        if d["type"] != 3:
            env.fail("type", "%d; %s" % (d["type"], where))
        n = dict(reversed(rcs))["fields"]
        for l in rows.split(b"\n"):
            if l and len(l.split(b"\t")) != n:
                env.fail("fields", "%d are announced; %s\n%s" % (
                    n, where, cases.show_bytes(l)))
        env.count("fields_counted")


def q16(r):
    r.rule = ("histories of calls on one handle (plans made, executed one by "
              "one or stepped through in parts, abandoned, refused, options "
              "changed, reset) against each statement alone in a new handle;"
              " rows, files, codes, field counts and open descriptors "
              "compared; non-trivial: several statements in the history")
    cases.drive(r, GENS["Q16"], [
        ("history", "plain", r.pick(700, 25000)),
        ("history", "asan", r.pick(40, 2000))])
    cases.known(r)


GENS = {"Q16": {"history": history}}
ZYG = {}
