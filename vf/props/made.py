"""Q27: tables that SELECT INTO makes, in files and temporary ones."""
import re

from .. import cases, gen, sql as M
from ..gen import G
from ..prog import Into, Show, World, check_files
from ..sql import Agg, Const, Select, Table
from .change import change, look, some_table, view, where
from .query import fix_names
from .relational import join_key, of


def source(r, ts):
    """(a SELECT whose records come in a known order, kinds of its columns)"""
    k = r.random()
    t = r.choice(ts)
    cols = gen.columns(t, t.file)
    g = G(r, cols, utf=False)
    ref = [(t, None, None, None)]
    if k < .5:
        items, kinds = [], []
        for c in r.sample(cols, r.randint(2, len(cols))):
            items.append((c, None))
            kinds.append(c.kind)
        for i in range(r.choice([0, 0, 1, 2])):
            ty = r.choice("ifs")
            e = {"i": g.int, "f": g.float, "s": g.str}[ty](1)
            items.append((e, "e%d" % r.randrange(1000)))
            kinds.append(e.t)
        sel = Select(items, ref, where=where(r, g, t, ts)
                     if r.random() < .6 else None)
        if r.random() < .25:
            c = r.choice(cols)
            if sum(x is c for x, _ in items):
                sel.order = [(c, c.sql(), r.random() < .5)]
        if r.random() < .15:
            n = r.choice([0, 1, 3, 100])
            sel.top = (str(n), n)
        return sel, kinds
    if k < .65:
        c = r.choice(of(cols, "kw"))
        sel = Select([(c, None), (Agg("COUNT", None), "n")], ref,
                     where=where(r, g, t, ts) if r.random() < .4 else None,
                     group=[c], order=[(c, c.sql(), r.random() < .5)])
        return sel, [c.kind, "i"]
    if k < .8:
        a, b = r.choice(ts), r.choice(ts)
        how = r.choice(["JOIN", "JOIN", "LEFT JOIN"])
        ca = gen.columns(a, "x", True)
        cb = gen.columns(b, "y", True, how != "JOIN")
        p, q = r.choice(ca), r.choice(cb)
        sel = Select([(p, "p"), (q, "q")],
                     [(a, "x", "FROM", None),
                      (b, "y", how, join_key(r, ca, cb))])
        return sel, [p.kind, q.kind]
    if k < .9:
        inner = fix_names(Select([(c, None) for c in cols], ref,
                                 where=where(r, g, t, ts)))
        out = []
        for i, c in enumerate(cols):
            o = M.Col("z", i, c.name, c.kind, True, c.t)
            o.plain = c.plain
            out.append(o)
        sel = Select([(c, None) for c in r.sample(out, 2)],
                     [(inner, "z", None, None)])
        return sel, [e.kind for e, _ in sel.items]
    return Select([(Const(r.randint(-9, 99)), "a"),
                   (Const(gen.word(r)), "b")]), ["i", "s"]


def made(env):
    r = env.rng
    w = World([some_table(r, "t.csv", nasty=.1)])
    if r.random() < .5:
        w.tables.append(some_table(r, "u.csv"))
    before = {t.file: t.data() for t in w.tables}
    text, n = [], 0

    def attempt(s):
        """run it in the model, if that can tell what it does"""
        keep = [list(map(list, t.rows)) for t in w.tables]
        nt, shown, na = len(w.tables), len(w.out), len(w.affected)
        try:
            s.run(w)
        except (M.Skip, M.Err):
            del w.tables[nt:], w.out[shown:], w.affected[na:]
            for t, rows in zip(w.tables, keep):
                t.rows = rows
            M.changed()
            return False
        text.append(s.sql())
        return True

    for _ in range(r.randint(2, 7)):
        k = r.random()
        if n == 0 or k < .35:
            try:
                sel, kinds = source(r, w.tables)
            except IndexError:           # no column of the kind it takes
                continue
            fix_names(sel)
            names = [re.sub(r"[\[\]]", "", x) for x in sel.names()]
            if len({x.lower() for x in names}) < len(names):
                continue
            temp = r.random() < .5
            base = r.choice(["#o%d", "#Made%d", "#x_%d"]) if temp else \
                r.choice(["o%d.csv", "made %d.csv", "o%d"])
            base %= n
            t = Table(base, list(zip(names, kinds)), [],
                      base if temp and r.random() < .6 else None)
            # its types are those of the SELECT
            t.types = sel.types()
            if attempt(Into(sel, t)):
                n += 1
                env.count("temporary" if temp else "files_made")
            continue
        mine = [t for t in w.tables if t.file not in before]
        t = r.choice(mine) if r.random() < .7 else r.choice(w.tables)
        # (names to be found by must be sure to mean the table)
        was = gen.REF_ONLY
        gen.REF_ONLY = True
        try:
            s = change(r, t, w.tables) if k < .6 else \
                Show(source(r, w.tables)[0]) if k < .7 else \
                look(r, t) if k < .85 else view(r, w.tables)
        except IndexError:
            continue
        finally:
            gen.REF_ONLY = was
        if isinstance(s, Show):
            fix_names_of(s.sel)
        attempt(s)
    if not n:
        raise M.Skip
    fails = r.random() < .12
    if fails:
        # in the middle of running
        cs = [(t, c) for t in w.tables for c in gen.columns(t, t.file)
              if any(c.idx < len(x) and re.search(rb"[g-zG-Z]", x[c.idx])
                     for x in t.rows)]
        if not cs:
            raise M.Skip
        t, c = r.choice(cs)
        text.append("SELECT CAST(%s AS INT) FROM %s" % (c.sql(), t.ref))
    args = ["-q"]
    if r.random() < .25 and not fails:
        args.append("-t")    # (a thread that fails leaves all: a finding)
    if r.random() < .2:
        args += ["-P", str(r.choice([2, 3, 5]))]
    if r.random() < .1:
        args.append("-v")
    d = env.dir(before)
    o = env.cli("; ".join(text), d=d, args=args, leaks=not fails)
    env.log[-1]["files"] = before
    if fails:
        if o.code != 1:
            env.fail("failure not told", "exit status %d" % o.code)
    elif w.out:
        cases.check_cli(env, w.out, o, key="made")
    elif o.code or o.out:
        env.fail("made refused" if o.code else "made printed",
                 cases.show_bytes(o.err or o.out))
    files = dict(o.files)
    here = [x for x in files if x.startswith("#")]
    if here:
        env.fail("temporary tables stay", "%s" % sorted(here))
    check_files(env, w.tables, before, files, "made file")
    for k, v in w.counts.items():
        env.count(k, v)
    env.nontrivial = len(text) > 1 and not fails


def fix_names_of(sel):
    if isinstance(sel, Select):
        fix_names(sel)


def q27(r):
    r.rule = ("programs that make tables with SELECT INTO, in files and "
              "temporary ones (#name), read, join, group, change and copy "
              "these like any other table; what is printed, the files left "
              "and that no temporary table is left compared with the model; "
              "non-trivial: something is done with a table that was made")
    cases.drive(r, GENS["Q27"], [
        ("made", "plain", r.pick(2500, 80000)),
        ("made", "asan", r.pick(60, 4000))])
    cases.known(r)


GENS = {"Q27": {"made": made}}
ZYG = {}


# ------------------------------------------------------ Q28: interrupted

SIGNALS = [2, 15, 1, 3]
LITTER = re.compile(r"^(csv_|fixed_|read_)\w{6}$|^#")


def interrupted(env):
    """a signal somewhere in the middle"""
    r = env.rng
    fixed = r.random() < .3
    if fixed:
        text, states, args, top = fixed_program(r)
    else:
        text, states, args, top = csv_program(env)
    before = states[0]
    sig, nth = r.choice(SIGNALS), r.randint(1, r.choice([6, 15, 40, 150]))
    d = env.dir(before)
    o = env.exec("cli", ["-q"] + args + ["-c", "; ".join(text)], d=d,
                 leaks=False, signal=(sig, nth))
    env.log[-1]["files"] = before
    files = dict(o.files)
    # (a finding: the empty file that keeps the place of a table to be made)
    later = set()
    for n in [n for n in files if files[n] == b"" and o.code]:
        if n.startswith("#") and "[%s]" % n in "".join(text):
            del files[n]
            env.count("place_holders_left")
        elif n in states[-1] and n not in before:
            later.add(n)
    # (another: a temporary table is listed only when it has been closed)
    closing = None
    for n in [n for n in files if n[0] == "#" and o.code]:
        closing = [k for k, t in enumerate(text) if "INTO [%s]" % n in t]
        if len(closing) == 1:
            del files[n]
            env.count("unlisted_left")
            break
    litter = [n for n in files if LITTER.match(n)]
    if litter:
        env.fail("litter", "files are left: %s" % sorted(litter))
    if o.code != (b"interrupted here\n" in o.err):
        env.fail("interrupted exit", "exit status %d, %s" % (
            o.code, cases.show_bytes(o.err)))
    if o.code == 0:
        env.count("not_reached")
        fits = [len(states) - 1]
    else:
        env.count("interrupted")
        env.count("interrupted_by_%d" % sig)
        fits = range(len(states))

    def is_(k):
        seen = dict(files)
        for n, t in states[k].items():
            if not alike(seen.pop(n, None), t):
                return False
        # what the statement after these was making may be there in part
        if o.code and k + 1 < len(states):
            for n in set(states[k + 1]) - set(states[k]):
                if n in top or alike(seen.get(n), states[k + 1][n]):
                    seen.pop(n, None)
        for n in later:
            if n not in states[k]:
                seen.pop(n, None)
        return not seen
    if not any(is_(k) for k in fits):
        env.fail("interrupted", "the files are neither as before nor as "
                 "after any of the statements: %s" % {
                     n: cases.show_bytes(t) for n, t in files.items()})
    k = next(k for k in fits if is_(k))
    if closing and k > closing[0] + 1:
        env.fail("litter", "temporary tables of statements before stay")
    env.count("statements_done", k)
    if 0 < k < len(states) - 1:
        env.count("between_statements")
    env.nontrivial = o.code == 1


def alike(a, b):
    if a is None or a == b:
        return a == b
    try:
        x, y = cases.parse_csv(a), cases.parse_csv(b)
    except ValueError:
        return False
    return [tuple(map(cases.zero, i)) for i in x] == \
        [tuple(map(cases.zero, i)) for i in y]


def csv_program(env):
    """(statements, what the files are after each of them, options, those
    that are made by sorting)"""
    r = env.rng
    w = World([some_table(r, "t.csv", rows=r.choice([1, 3, 20, 60]),
                          nasty=.1)])
    if r.random() < .5:
        w.tables.append(some_table(r, "u.csv", rows=r.choice([1, 8, 30])))

    def state():
        return {t.file: t.data() for t in w.tables
                if not t.file.startswith("#")}
    states, text, top, n = [state()], [], set(), 0
    for _ in range(r.randint(1, 3)):
        k = r.random()
        keep = [list(map(list, t.rows)) for t in w.tables]
        nt = len(w.tables)
        was = gen.REF_ONLY
        gen.REF_ONLY = True
        try:
            if k < .6:
                s = change(r, r.choice(w.tables), w.tables)
            elif k < .9:
                sel, kinds = source(r, w.tables)
                fix_names(sel)
                names = [re.sub(r"[\[\]]", "", x) for x in sel.names()]
                if len({x.lower() for x in names}) < len(names):
                    continue
                base = r.choice(["#o%d", "o%d.csv", "o%d.csv"]) % n
                n += 1
                t = Table(base, list(zip(names, kinds)), [])
                t.types = sel.types()
                if sel.order:
                    top.add(base)
                s = Into(sel, t)
            else:
                s = Show(source(r, w.tables)[0])
            s.run(w)
        except (M.Skip, M.Err, IndexError):
            del w.tables[nt:]
            for t, rows in zip(w.tables, keep):
                t.rows = rows
            M.changed()
            continue
        finally:
            gen.REF_ONLY = was
        text.append(s.sql())
        states.append(state())
    if not text:
        raise M.Skip
    return text, states, (["-P", "2"] if r.random() < .1 else []), top


def fixed_program(r):
    n = r.choice([1, 4, 30, 80])
    rows = [(r.randint(0, 9), r.choice(["abc", "zebra", "x y", ""]))
            for _ in range(n)]

    def data(rows):
        return b"".join(b"%3d%-6s\n" % (a, b.encode()) for a, b in rows)

    fx = b"id,3,char\nname,6,char\nnl,1,char\n"
    states, text = [{"t.csv": data(rows), "fx": fx}], []
    for _ in range(r.randint(1, 3)):
        k = r.randint(0, 9)
        if r.random() < .6:
            v = r.choice(["new", "", "longer"])
            text.append("UPDATE [fx].[t.csv] SET name = '%s' WHERE id %s %d"
                        % (v, "<" if k > 4 else "=", k))
            rows = [(a, v if (a < k if k > 4 else a == k) else b)
                    for a, b in rows]
        else:
            text.append("DELETE [fx].[t.csv] WHERE id = %d" % k)
            rows = [x for x in rows if x[0] != k]
        states.append({"t.csv": data(rows), "fx": fx})
    return text, states, ["--schema-path", "."], set()


def q28(r):
    r.rule = ("programs of UPDATE, DELETE, SELECT INTO and SELECT, over CSV "
              "and files of fixed width, interrupted by SIGINT, SIGTERM, "
              "SIGHUP or SIGQUIT at the n-th of the calls that write, "
              "flush, close, rename or map files; the files left compared "
              "with those before and after each statement; non-trivial: the "
              "signal came")
    cases.drive(r, GENS["Q28"], [
        ("interrupted", "plain", r.pick(2500, 80000)),
        ("interrupted", "asan", r.pick(60, 4000))])
    cases.known(r)


GENS["Q28"] = {"interrupted": interrupted}
