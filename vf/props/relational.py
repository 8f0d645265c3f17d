"""Joins, grouping, ordering, unions and subqueries: Q06 to Q09."""
from .. import cases, gen, sql as M
from ..gen import G
from ..sql import (Agg, And, Bin, Cast, Cmp, Const, Fn, In, InSub, IsNull,
                   Like, Or, Select, Sub, Union)
from .query import again, fix_names, run_both, scan

NAMES = {"a": ["id", "k1", "w1", "n1", "m1"], "b": ["key", "k2", "w2", "n2"],
         "c": ["ref", "k3", "w3", "n3"]}


def side(r, alias, rows=None, nulls=.3):
    """a table with key columns; its names are its own"""
    kinds = "kkw" + r.choice(["is", "s", "i", ""])
    names = [n + "_" + alias for n in ("id", "k", "w", "n", "m")][:len(kinds)]
    t = gen.table(r, alias + "_t.csv", kinds, nulls=nulls, names=names,
                  rows=rows if rows is not None
                  else r.choice([0, 1, 2, 4, 8, 12, 20]))
    if r.random() < .25:                # numbers written in other ways
        for row in t.rows:
            for i in (0, 1):
                if len(row) > i and r.random() < .4:
                    row[i] = r.choice({b"0": [b"-0", b"00", b"+0"]}.get(
                        row[i], [b"+" + row[i], b"0" + row[i]]))
    return t


def of(cols, kinds):
    return [c for c in cols if c.kind in kinds]


def join_key(r, left, right):
    """an equality a hash join can use"""
    k = r.random()
    if k < .35:
        return Cmp("=", *flip(r, r.choice(of(left, "k")),
                              r.choice(of(right, "k"))))
    if k < .6:
        return Cmp("=", *flip(r, r.choice(of(left, "w")),
                              r.choice(of(right, "w"))))
    if k < .8:
        a = Cast(r.choice(of(left, "k")), "int")
        b = Cast(r.choice(of(right, "k")), "int")
        if r.random() < .3:
            a = Bin("+", a, Const(r.randint(0, 2)))
        if r.random() < .2:
            b = r.choice(of(right, "k"))
        return Cmp("=", *flip(r, a, b))
    if k < .9:
        a = Cast(r.choice(of(left, "k")), "float")
        return Cmp("=", *flip(r, a, r.choice(of(right, "k"))))
    return Cmp("=", *flip(r, Fn("LEFT", r.choice(of(left, "w")), Const(1)),
                          Fn("LEFT", r.choice(of(right, "w")), Const(1))))


def flip(r, a, b):
    return (a, b) if r.random() < .5 else (b, a)


def extra(r, left, right):
    """another condition over both sides"""
    k = r.random()
    if k < .4:
        return Cmp(r.choice(["<", ">", "<=", "<>"]),
                   *flip(r, Cast(r.choice(of(left, "k")), "int"),
                         Cast(r.choice(of(right, "k")), "int")))
    if k < .6:
        return Cmp(r.choice(["=", "<>"]), r.choice(of(left + right, "w")),
                   Const(r.choice([b"ab", b"cd", b"AB", b"zz"])))
    if k < .8:
        return Cmp("=", r.choice(of(left, "w")), r.choice(of(right, "w")))
    return Cmp(r.choice(["<", ">="]),
               Cast(r.choice(of(left + right, "k")), "int"),
               Const(r.randint(0, 6)))


def join(env, outer=True, cartesian=True):
    r = env.rng
    n = r.choice([2, 2, 2, 3])
    same = r.random() < .2
    src, files, scope = [], {}, []
    first = None
    names = r.sample(["a", "b", "c", "x", "t1", "zz"], n)
    forced = False
    has_outer = False
    for k in range(n):
        al = names[k]
        if same and first is not None:
            t = first
        else:
            t = side(r, "abc"[k])
            files[t.file] = t.data()
            first = first or t
        how, on = "FROM", None
        cols = gen.columns(t, al, True)
        if k:
            left = [c for cs in scope for c in cs]
            key = join_key(r, left, cols)
            ps = [key]
            for _ in range(r.choice([0, 0, 1, 2])):
                ps.append(extra(r, left, cols))
            r.shuffle(ps)
            on = ps[0] if len(ps) == 1 else And(*ps)
            h = r.random()
            if outer and h < .35:
                how = r.choice(["LEFT JOIN", "LEFT OUTER JOIN", "left join"])
                cols = gen.columns(t, al, True, True)
                has_outer = True
            elif h < .45 and not has_outer:
                # no hash key: nested loops
                on = extra(r, left, cols)
                if r.random() < .5:
                    on = Or(on, key)
                how = "JOIN"
            else:
                how = r.choice(["JOIN", "INNER JOIN"])
        src.append((t, al, how, on))
        scope.append(cols)
    allc = [c for cs in scope for c in cs]
    g = G(r, allc, utf=False)
    items = []
    for k in range(r.randint(1, 5)):
        e = r.choice(allc) if r.random() < .75 else g.any(1)
        items.append((e, "c%d" % k if r.random() < .5 or
                      not isinstance(e, M.Col) else None))
    sel = fix_names(Select(items, src,
                           where=g.pred(1) if r.random() < .4 else None))
    args = []
    if cartesian and not has_outer and r.random() < .3:
        args = ["-C"]
        forced = True
    want = run_both(env, sel, files, "join", 0 if args else .25, args)
    env.count("outer_joins" if has_outer else
              "cartesian_joins" if forced else "inner_joins")
    env.nontrivial = bool(want.rows)
    return want


def join_agree(env):
    """hash join and nested loops give the same rows"""
    r = env.rng
    a, b = side(r, "a", r.randint(5, 60)), side(r, "b", r.randint(5, 60))
    ca, cb = gen.columns(a, "a", True), gen.columns(b, "b", True)
    on = join_key(r, ca, cb)
    if r.random() < .5:
        on = And(on, extra(r, ca, cb))
    sel = fix_names(Select([(c, None) for c in ca + cb],
                           [(a, "a", "FROM", None), (b, "b", "JOIN", on)]))
    files = {a.file: a.data(), b.file: b.data()}
    want = sel.run()
    one = env.cli(sel.sql(), files, ["-q"])
    two = env.cli(sel.sql(), files, ["-q", "-C"])
    cases.check_cli(env, [want], one, key="hash join")
    cases.check_cli(env, [want], two, key="nested loops")
    env.nontrivial = bool(want.rows)


# ------------------------------------------------------------------ grouping

def solid(r, g, d, f=None):
    """an expression that is never NULL"""
    for _ in range(20):
        e = (f or g.any)(d)
        if not e.nullable and not gen.has_case(e):
            return e
    return Const(r.randint(0, 9))


def group_keys(r, cols, n):
    ks = []
    for _ in range(n):
        c = r.choice(cols)
        k = r.random()
        if c.kind in "ik" and k < .25:
            e = Cast(c, "int")
        elif c.kind == "f" and k < .25:
            e = Cast(c, "float")
        elif k < .4:
            e = Fn("LEN", c)
        elif c.kind == "w" and k < .5:
            e = Fn("LEFT", c, Const(1))
        else:
            e = c
        if all(e.sql() != x.sql() for x in ks):
            ks.append(e)
    return ks


def aggregate(r, g, cols):
    name = r.choice(["COUNT", "COUNT", "SUM", "MIN", "MAX", "AVG"])
    if name == "COUNT":
        return Agg(name, None)
    if name in ("SUM", "AVG"):
        return Agg(name, solid(r, g, 1, r.choice([g.int, g.float])))
    return Agg(name, solid(r, g, 1))


def having(r, aggs, keys):
    def one():
        a = r.choice(aggs + keys)
        if a.t == "s":
            return Cmp(r.choice(["<", ">", "=", "<>", ">="]), a,
                       Const(gen.word(r, 0)))
        c = Const(r.choice([0, 1, 2, 3, 10, 100]) if a.t == "i"
                  else gen.floats(r))
        return Cmp(r.choice(["<", ">", "=", "<>", ">="]), a, c)
    k = r.random()
    if k < .6:
        return one()
    return r.choice([And, Or])(one(), one())


def plain_table(r, file="t.csv", rows=None):
    """no NULLs"""
    kinds = "kwif" + "".join(r.choice("ifskw") for _ in range(2))
    return gen.table(r, file, kinds, nulls=0, rows=rows)


def typed(e):
    """an expression whose type an aggregate can know"""
    return e


def grouped(env):
    r = env.rng
    t = plain_table(r)
    cols = gen.columns(t, "t.csv")
    g = G(r, cols, utf=False)
    ks = group_keys(r, cols, r.choice([1, 1, 2, 3]))
    aggs = [aggregate(r, g, cols) for _ in range(r.randint(0, 3))]
    items = []
    for k in ks:
        if r.random() < .85:
            items.append((k, "g%d" % len(items)))
    for a in aggs:
        e = a
        if r.random() < .25 and a.t in "if":
            e = Bin(r.choice("+-*"), *flip(r, a, Const(r.choice([1, 2, 3]))))
        items.append((e, "a%d" % len(items)))
    if not items:
        items.append((Agg("COUNT", None), "n"))
    if r.random() < .3:
        k = r.choice(ks)
        if k.t == "s":
            items.append((Bin("+", k, Const(b"!")), "h"))
    r.shuffle(items)
    sel = fix_names(Select(items, [(t, None, None, None)],
                           where=g.pred(1) if r.random() < .3 else None,
                           group=ks))
    if r.random() < .35:
        sel.having = having(r, aggs, ks)
    if r.random() < .3:
        order_by(r, sel)
    want = run_both(env, sel, {t.file: t.data()}, "groups")
    env.count("groups", len(want.rows))
    env.nontrivial = bool(want.rows)


def order_by(r, sel):
    """by alias or ordinal"""
    by = []
    for k in r.sample(range(len(sel.items)), r.randint(1, len(sel.items))):
        e, a = sel.items[k]
        text = a if a and r.random() < .5 and \
            shown(sel.items, a) == 1 else str(k + 1)
        by.append((e, text, r.random() < .5))
    sel.order = by


def shown(items, name):
    """how many columns of the result go by this name"""
    return sum((a or getattr(e, "plain", "")).lower() ==
               name.lower().strip("[]") for e, a in items)


def totals(env):
    """aggregates without GROUP BY: one row, whatever the number of records"""
    r = env.rng
    t = plain_table(r, rows=r.choice([0, 0, 1, 2, 7, 30]))
    cols = gen.columns(t, "t.csv")
    g = G(r, cols, utf=False)
    items = []
    for k in range(r.randint(1, 4)):
        a = aggregate(r, g, cols)
        if a.t in "if" and r.random() < .3:
            a = Bin(r.choice("+-*"), *flip(r, a, Const(r.choice([1, 2, 3]))))
        elif r.random() < .15:
            a = Fn("ISNULL", a, Const({"i": 4, "f": .5, "s": b"nil"}[a.t]))
        items.append((a, "a%d" % k))
    where = g.pred(1) if r.random() < .4 else None
    sel = fix_names(Select(items, [(t, None, None, None)], where=where))
    if r.random() < .35:
        order_by(r, sel)
    if r.random() < .1:
        sel.distinct = True
    if r.random() < .1:
        n = r.randint(0, 2)
        sel.top = (str(n), n)
    run_both(env, sel, {t.file: t.data()}, "totals")
    env.nontrivial = True


def of_nothing(env):
    """aggregates without a table: of the one record there is, every time"""
    r = env.rng
    turns = r.choice([1, 1, 2, 3, 5])
    items, row = [], []
    for k in range(r.randint(1, 3)):
        n = r.randint(1, 9)
        f = r.choice(["COUNT", "SUM", "MIN", "MAX"])
        what = r.choice(["*", str(n)]) if f == "COUNT" else r.choice(
            [str(n), "@i", "@i + %d" % n, "%d * @i" % n])
        items.append("%s(%s)" % (f, what))
        row.append((lambda i: 1) if f == "COUNT" else {
            str(n): lambda i, n=n: n, "@i": lambda i: i,
            "@i + %d" % n: lambda i, n=n: i + n}.get(
                what, lambda i, n=n: n * i))
    one = "SELECT " + ", ".join(items)
    start = r.randint(1, 50)
    inner = r.choice([one] * 3 + [
        "BEGIN %s END" % one, "IF @i > 0 %s" % one,
        "BEGIN SELECT @i; %s END" % one])
    text = "DECLARE @i int = %d; WHILE @i < %d BEGIN %s; SET @i += 1 END" % (
        start, start + turns, inner)
    want = []
    for i in range(start, start + turns):
        if "SELECT @i;" in inner:
            want.append([i])
        want.append([f(i) for f in row])
    o = env.cli(text, {}, ["-q", "-h"] + r.choice([[], [], ["-t"]]),
                leaks=False)
    want = b"".join(b",".join(b"%d" % v for v in x) + b"\n" for x in want)
    if o.code or o.out != want:
        env.fail("aggregates of nothing", "exit %d, printed %s, not %s" % (
            o.code, cases.show_bytes(o.out), cases.show_bytes(want)))
    env.count("turns", turns)
    env.nontrivial = True


def distinct(env):
    r = env.rng
    t = plain_table(r)
    cols = gen.columns(t, "t.csv")
    g = G(r, cols, utf=False)
    items = []
    for k in range(r.randint(1, 3)):
        e = r.choice(of(cols, "kw")) if r.random() < .6 else \
            solid(r, g, r.randint(0, 2))
        items.append((e, "c%d" % k))
    sel = fix_names(Select(items, [(t, None, None, None)], distinct=True,
                           where=g.pred(1) if r.random() < .3 else None))
    if r.random() < .3:
        order_by(r, sel)
    want = run_both(env, sel, {t.file: t.data()}, "distinct")
    env.nontrivial = len(want.rows) > 1


def lacking(env):
    """groups by what may be NULL, which goes with empty strings"""
    r = env.rng
    t = plain_table(r)
    for row in t.rows:
        if r.random() < .35:
            del row[r.randint(1, len(t.cols)):]
    cols = gen.columns(t, "t.csv")

    def key():
        c = r.choice(cols)
        k = r.randrange(8)
        if c.kind in "ik" and k < 3:
            return Cast(Cast(c, "int"), "varchar(20)")
        if k == 3:
            return Fn(r.choice(["LEFT", "RIGHT"]), c, Const(r.randint(1, 3)))
        if k == 4:
            return Fn("SUBSTRING", c, Const(1), Const(r.randint(1, 3)))
        if k == 5:
            return Bin("+", c, Const(b"!"))
        if k == 6:
            return Fn("REPLACE", c, Const(b"a"), Const(b"b"))
        return c
    ks = []
    for _ in range(r.choice([1, 2, 2, 3])):
        e = key()
        if all(e.sql() != x.sql() for x in ks):
            ks.append(e)
    items = [(e, "k%d" % i) for i, e in enumerate(ks)]
    d = r.random() < .5
    if not d and r.random() < .8:
        items.append((Agg("COUNT", None), "n"))
    sel = fix_names(Select(items, [(t, None, None, None)], distinct=d,
                           group=None if d else ks))
    if r.random() < .3:
        order_by(r, sel)
    want = run_both(env, sel, {t.file: t.data()}, "lacking", api=0)
    env.count("null_keys", sum(any(x is None for x in row)
                               for row in want.rows))
    env.nontrivial = len(want.rows) > 1


def loose(env):
    """--summarize: any column of the first record of each group"""
    r = env.rng
    t = plain_table(r, rows=r.choice([0, 1, 3, 10, 30, 80]))
    cols = gen.columns(t, "t.csv")
    g = G(r, cols, utf=False)
    ks = group_keys(r, cols, r.choice([1, 1, 2]))
    items = []
    for k in range(r.randint(1, 4)):
        c = r.random()
        e = r.choice(cols) if c < .6 else r.choice(ks) if c < .8 else \
            solid(r, g, r.randint(0, 2))
        items.append((e, "c%d" % k))
    sel = fix_names(Select(items, [(t, None, None, None)], group=ks,
                           where=g.pred(1) if r.random() < .3 else None))
    if r.random() < .3:
        sel.having = having(r, ks, ks)
    if r.random() < .3:
        order_by(r, sel)
    opts = env.options
    env.options = (["-L" if r.random() < .5 else "--summarize"],
                   ["set:loose_groups=1"])
    want = run_both(env, sel, {t.file: t.data()}, "loose groups")
    env.options = opts
    env.nontrivial = len(want.rows) > 1


def group_join(env):
    r = env.rng
    a, b = side(r, "a", nulls=0), side(r, "b", nulls=0)
    ca, cb = gen.columns(a, "a", True), gen.columns(b, "b", True)
    on = join_key(r, ca, cb)
    ks = [r.choice(of(ca + cb, "kw"))]
    items = [(ks[0], "k"), (Agg("COUNT", None), "n"),
             (Agg(r.choice(["MIN", "MAX", "SUM", "AVG"]),
                  Cast(r.choice(of(ca + cb, "k")), "int")), "m")]
    sel = fix_names(Select(items, [(a, "a", "FROM", None),
                                   (b, "b", "JOIN", on)], group=ks))
    want = run_both(env, sel, {a.file: a.data(), b.file: b.data()},
                    "grouped join")
    env.nontrivial = bool(want.rows)


# ------------------------------------------------------------------ ordering

def order(env):
    r = env.rng
    t = gen.table(r, nasty=.1, rows=r.choice([0, 1, 2, 5, 10, 30, 60]))
    cols = gen.columns(t, "t.csv")
    g = G(r, cols)
    items = gen.select_items(r, g)
    sel = fix_names(Select(items, [(t, None, None, None)],
                           where=g.pred(1) if r.random() < .3 else None))
    by = []
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < .3:
            i = r.randrange(len(items))
            e, a = items[i]
            by.append((e, str(i + 1), r.random() < .5))
        elif k < .5:
            e, a = r.choice(items)
            if a is None or shown(items, a) > 1:
                continue
            by.append((e, a, r.random() < .5))
        elif k < .75:
            c = r.choice(cols)
            if any(a and a.lower() == c.name.lower() for _, a in items) \
                    or shown(items, c.name) > 1:
                continue
            by.append((c, c.sql(), r.random() < .5))
        else:
            e = g.any(1)
            if e.const() or isinstance(e, M.Col) and \
                    shown(items, e.name) > 1:
                continue
            by.append((e, e.sql(), r.random() < .5))
    if not by:
        by = [(items[0][0], "1", True)]
    sel.order = by
    if r.random() < .35:
        n = r.choice([0, 1, 2, 3, 10, 1000])
        sel.top = (r.choice([str(n), "(%d)" % n]), n)
    want = run_both(env, sel, {t.file: t.data()}, "order", .4)
    env.nontrivial = len(want.rows) > 1
    env.count("rows_ordered", len(want.rows))


def order_join(env):
    r = env.rng
    a, b = side(r, "a"), side(r, "b")
    ca, cb = gen.columns(a, "a", True), gen.columns(b, "b", True)
    on = join_key(r, ca, cb)
    cols = ca + cb
    items = [(c, "c%d" % i) for i, c in
             enumerate(r.sample(cols, r.randint(1, 4)))]
    sel = fix_names(Select(items, [(a, "a", "FROM", None),
                                   (b, "b", "JOIN", on)]))
    by = []
    for c in r.sample(cols, r.randint(1, 2)):
        e = Cast(c, "int") if c.kind in "ik" and r.random() < .5 else c
        by.append((e, e.sql(), r.random() < .5))
    sel.order = by
    want = run_both(env, sel, {a.file: a.data(), b.file: b.data()},
                    "ordered join")
    env.nontrivial = len(want.rows) > 1


def top(env):
    r = env.rng
    t = gen.table(r)
    n = r.choice([0, 1, 2, 3, 7, 20, 1000])
    cols = gen.columns(t, "t.csv")
    g = G(r, cols)
    sel = fix_names(Select(gen.select_items(r, g, 2),
                           [(t, None, None, None)],
                           where=g.pred(2) if r.random() < .6 else None))
    sel.top = (r.choice([str(n), "(%d)" % n, "(%d + 0)" % n]), n)
    want = run_both(env, sel, {t.file: t.data()}, "top")
    env.nontrivial = len(want.rows) > n


# ------------------------------------------------------- unions, subqueries

def whole_of(r, t, g, kind):
    """an aggregate of all records, of this kind"""
    def plain(make):
        for _ in range(30):
            e = make(1)
            if not e.nullable and not gen.has_case(e):
                return e
        raise M.Skip
    if kind == "i":
        return Agg("COUNT", None) if r.random() < .5 else \
            Agg(r.choice(["SUM", "MIN", "MAX"]), plain(g.int))
    if kind == "f":
        return Agg(r.choice(["SUM", "MIN", "MAX"]), plain(g.float))
    return Agg(r.choice(["MIN", "MAX"]), plain(g.str))


def without_source(r, kinds):
    return Select([(Const({"i": r.randint(0, 20), "f": r.randint(0, 80) / 4,
                           "s": gen.word(r, 0)}[kd]), "c%d" % j)
                   for j, kd in enumerate(kinds)])


def union(env):
    r = env.rng
    n = r.randint(2, 4)
    width = r.randint(1, 3)
    kinds = [r.choice("ifs") for _ in range(width)]
    parts, files = [], {}
    for k in range(n):
        t = gen.table(r, "u%d.csv" % k, nulls=0)
        files[t.file] = t.data()
        g = G(r, gen.columns(t, t.file))
        items = []
        whole = r.random() < .2     # aggregates, maybe of no records
        for j, kind in enumerate(kinds):
            if whole:
                items.append((whole_of(r, t, g, kind),
                              "c%d" % j if k == 0 else None))
                continue
            f = {"i": g.int, "f": r.choice([g.float, g.int]), "s": g.str}
            e = f[kind](r.randint(0, 2))
            items.append((e, "c%d" % j if k == 0 or r.random() < .3
                          else None))
        how = r.random()
        if whole:
            s = Select(items, [(t, None, None, None)], where=r.choice(
                [None, g.pred(1), Cmp("<", Const(2), Const(1))]))
        elif how < .12:
            s = without_source(r, kinds)
            if how < .06:
                s.where = Cmp("<", *flip(r, Const(1), Const(2)))
            elif how < .08 and kinds == ["i"]:
                s = Select([(Agg("COUNT", None), "c0")])
        elif how < .22:
            s = without_source(r, kinds)
            if r.random() < .5:
                s = Union([s] + [without_source(r, kinds)
                                 for _ in range(r.randint(1, 2))])
                if any(len({p.types()[j] for p in s.parts}) > 1
                       for j in range(width)):
                    raise M.Skip
            cs = []
            for j, ty in enumerate(s.types()):
                c = M.Col("z", j, "c%d" % j, ty, False, ty)
                c.plain = "c%d" % j
                c.qualify = True
                cs.append(c)
            s = Select([(c, None) for c in cs], [(s, "z", None, None)])
        else:
            s = Select(items, [(t, None, None, None)],
                       where=g.pred(1) if r.random() < .4 else None)
        parts.append(fix_names(s))
    u = Union(parts)
    if any(len({p.types()[j] for p in parts}) > 1
           for j in range(width) if kinds[j] == "s"):
        raise M.Skip
    if r.random() < .3:
        by = r.sample(range(width), r.randint(1, width))
        u.order = [(i, r.random() < .5) for i in by]
        u.order_text = " ORDER BY " + ", ".join(
            (str(i + 1) if r.random() < .5 else "c%d" % i) +
            (" DESC" if d else "") for i, d in u.order)
    want = run_both(env, u, files, "union")
    env.nontrivial = len(want.rows) > 1


def derived_from(r, al, rows=None, simple=False):
    """(Select, columns of it, files)"""
    t = plain_table(r, "d_%s.csv" % al, rows)
    cols = gen.columns(t, t.file)
    g = G(r, cols, utf=False)
    k = r.random()
    if k > .9 and not simple:
        items = [(Agg("COUNT", None), "c%d" % j)     # NULLs do not last here
                 for j in range(r.randint(1, 2))]
        where = r.choice([None, g.pred(1), Cmp("<", Const(2), Const(1))])
        s = Select(items, [(t, None, None, None)], where=where)
    elif k < .6 or simple:
        items = [(solid(r, g, r.randint(0, 2)), "c%d" % j)
                 for j in range(r.randint(1, 4))]
        s = Select(items, [(t, None, None, None)],
                   where=g.pred(1) if r.random() < .4 else None)
    elif k < .8:
        ks = group_keys(r, of(cols, "kw"), 1)
        items = [(ks[0], "c0"), (Agg("COUNT", None), "c1"),
                 (Agg(r.choice(["MIN", "MAX", "SUM"]),
                      Cast(r.choice(of(cols, "ik")), "int")), "c2")]
        s = Select(items, [(t, None, None, None)], group=ks)
    else:
        items = [(solid(r, g, 1), "c%d" % j) for j in range(2)]
        s = Select(items, [(t, None, None, None)], distinct=True)
    fix_names(s)
    out = []
    for j, (e, a) in enumerate(s.items):
        kind = {"i": "i", "f": "f"}.get(e.t)
        if kind is None:
            kind = e.kind if isinstance(e, M.Col) else "s"
        c = M.Col(al, j, a, kind, False, e.t)
        c.plain = a
        c.qualify = True
        out.append(c)
    return s, out, {t.file: t.data()}


def derived(env):
    r = env.rng
    s, cols, files = derived_from(r, "x")
    g = G(r, cols, utf=False)
    k = r.random()
    if k < .6:
        sel = Select(gen.select_items(r, g), [(s, "x", None, None)],
                     where=g.pred(1) if r.random() < .5 else None)
    else:
        c = r.choice(cols)
        sel = Select([(c, "k"), (Agg("COUNT", None), "n")],
                     [(s, "x", None, None)], group=[c])
    if r.random() < .25:
        order_by(r, sel)
    fix_names(sel)
    want = run_both(env, sel, files, "derived table")
    env.nontrivial = bool(want.rows)


def derived_join(env):
    r = env.rng
    t = side(r, "a", nulls=0)
    ct = gen.columns(t, "a", True)
    s, cs, files = derived_from(r, "x", simple=False)
    files[t.file] = t.data()
    ik = [c for c in cs if c.t == "i"]
    ss = [c for c in cs if c.t == "s"]
    if ik and r.random() < .6 or not ss:
        if not ik:
            raise M.Skip
        on = Cmp("=", *flip(r, Cast(r.choice(of(ct, "k")), "int"),
                            r.choice(ik)))
    else:
        on = Cmp("=", *flip(r, r.choice(of(ct, "kw")), r.choice(ss)))
    src = [(t, "a", "FROM", None), (s, "x", "JOIN", on)]
    if r.random() < .5:
        src = [(s, "x", "FROM", None), (t, "a", "JOIN", on)]
    items = [(c, "c%d" % i) for i, c in enumerate(
        r.sample(ct + cs, r.randint(1, 4)))]
    sel = fix_names(Select(items, src))
    want = run_both(env, sel, files, "joined derived table", .2)
    env.nontrivial = bool(want.rows)


def in_subquery(env):
    r = env.rng
    t = gen.table(r)
    cols = gen.columns(t, t.file)
    g = G(r, cols, utf=False)
    u = side(r, "u", nulls=0)
    cu = gen.columns(u, u.file)
    gu = G(r, cu, utf=False)
    kind = r.choice("is")
    if kind == "i":
        a, e = g.int(1), Cast(r.choice(of(cu, "k")), "int")
    else:
        a, e = g.str(1), r.choice(of(cu, "kw"))
    sub = Select([(e, None)], [(u, None, None, None)],
                 where=gu.pred(1) if r.random() < .4 else None)
    p = InSub(a, sub, not a.nullable and r.random() < .3)
    if r.random() < .3:
        p = r.choice([And, Or])(p, g.pred(1))
    sel = fix_names(Select([(c, None) for c in r.sample(cols, 2)],
                           [(t, None, None, None)], where=p))
    want = run_both(env, sel, {t.file: t.data(), u.file: u.data()},
                    "IN (SELECT)")
    env.nontrivial = 0 < len(want.rows) < max(2, len(t.rows))


def scalar_subquery(env):
    r = env.rng
    t, u = gen.table(r), plain_table(r, "u.csv")
    cols, cu = gen.columns(t, t.file), gen.columns(u, u.file)
    g, gu = G(r, cols, utf=False), G(r, cu, utf=False)
    if r.random() < .6:
        sub = Select([(aggregate(r, gu, cu), None)],
                     [(u, None, None, None)],
                     where=gu.pred(1) if r.random() < .4 else None)
    else:
        e = solid(r, gu, 1)
        sub = Select([(e, None)], [(u, None, None, None)])
        sub.top = ("1", 1)
        x = r.random()
        if x < .35:
            # a total order of what is looked at
            sub.order = [(e, e.sql(), True)] if not e.const() else None
        elif x < .8:
            # NULL in some of the records
            e = M.Case([(gu.pred(1), e)])
            sub = Select([(e, None)], [(u, None, None, None)])
            sub.top = ("1", 1)
            if r.random() < .6:
                k = r.choice(of(cu, "kwi"))
                sub.order = [(k, k.sql(), r.random() < .5)]
    x = SubTop(sub)
    x.deep = r.choice([0, 0, 0, 1, 2])
    if r.random() < .5:
        y = x
        if x.t in "if" and r.random() < .3:
            # in an expression, maybe of another type
            y = M.Bin(r.choice("+-*"), *flip(r, x, (
                g.float if r.random() < .6 else g.int)(1)))
        elif x.t in "if" and r.random() < .7:
            y = M.Case([(g.pred(1), (g.float if r.random() < .8 else
                                     g.int)(0))], x)
        sel = Select([(r.choice(cols), "c"), (y, "s")],
                     [(t, None, None, None)])
    else:
        a = {"i": g.int, "f": g.float, "s": g.str}[
            x.t if x.t == "s" or r.random() < .6 else
            r.choice("if")](1)
        sel = Select([(c, None) for c in r.sample(cols, 2)],
                     [(t, None, None, None)],
                     where=Cmp(r.choice(["=", "<", ">", "<>"]),
                               *flip(r, a, x)))
    fix_names(sel)
    want = run_both(env, sel, {t.file: t.data(), u.file: u.data()},
                    "scalar subquery")
    env.nontrivial = bool(want.rows)


class SubTop(Sub):
    def ev(self, row):
        res = self.q.run()
        rows = res.rows
        if res.top is not None:
            k = getattr(res, "keys", None)
            if k and res.top < len(rows) and k[res.top] == k[res.top - 1] \
                    and rows[res.top] != rows[res.top - 1]:
                raise M.Skip           # any of them will do
            rows = rows[:res.top]
        if len(rows) > 1:
            raise M.Err("more than one value")
        return rows[0][0] if rows else None


def subquery_anywhere(env):
    """subqueries in place of literals and columns, wherever these are"""
    r = env.rng
    t = plain_table(r, "sub_q.csv", r.choice([1, 2, 5, 20]))
    env.also = {t.file: t.data()}
    cols = gen.columns(t, t.file)
    made = []

    def make(ty):
        g = G(r, cols, utf=False)
        w = g.pred(1) if r.random() < .4 else None
        if ty == "i" and r.random() < .6:
            s = Sub(Select([(Agg("COUNT", None), None)],
                           [(t, None, None, None)], where=w))
            s.nullable = False
            return s
        e = {"i": g.int, "f": g.float, "s": g.str}[ty](1)
        if r.random() < .3 and not isinstance(e, M.Col):
            return Sub(Select([(e, None)]) if e.const() else
                       Select([(e, None)], [(t, None, None, None)],
                              where=Cmp("<", Const(2), Const(1))))
        sub = Select([(e, None)], [(t, None, None, None)], where=w)
        sub.top = ("1", 1)
        s = SubTop(sub)
        return s

    def hook(ty, rng):
        if r.random() < .85 or len(made) > 3:
            return None
        was, gen.HOOK = gen.HOOK, None
        try:
            x = make(ty)
        finally:
            gen.HOOK = was
        if x is not None:
            x.deep = r.choice([0, 0, 0, 1, 2])
            made.append(x)
        return x
    gen.HOOK = hook
    try:
        r.choice([distinct, totals, grouped, union, order, scan, scan,
                  group_join, join])(env)
    finally:
        gen.HOOK = None
    env.count("subqueries", len(made))
    env.nontrivial = env.nontrivial and bool(made)


def q06(r):
    r.rule = ("random tables joined two or three at a time (inner, left,"
              " self, extra conditions, hash keys of every type, -C), the"
              " rows compared as a multiset with nested loops in the model;"
              " non-trivial: rows came out and the case is new")
    cases.drive(r, GENS["Q06"], [
        ("join", "plain", r.pick(2200, 120000)),
        ("join_agree", "plain", r.pick(300, 12000)),
        ("join", "asan", r.pick(60, 4000)),
        ("join_again", "plain", r.pick(250, 12000)),
        ("join_again", "asan", r.pick(20, 1000))])
    cases.known(r)


def q07(r):
    r.rule = ("GROUP BY, HAVING, DISTINCT and aggregates over random tables,"
              " groups compared with the model's; non-trivial: groups came"
              " out and the case is new")
    cases.drive(r, GENS["Q07"], [
        ("grouped", "plain", r.pick(1500, 80000)),
        ("totals", "plain", r.pick(500, 20000)),
        ("of_nothing", "plain", r.pick(100, 4000)),
        ("of_nothing", "asan", r.pick(8, 400)),
        ("distinct", "plain", r.pick(500, 20000)),
        ("group_join", "plain", r.pick(200, 10000)),
        ("loose", "plain", r.pick(200, 10000)),
        ("loose", "asan", r.pick(15, 1000)),
        ("lacking", "plain", r.pick(300, 12000)),
        ("lacking", "asan", r.pick(20, 1500)),
        ("grouped", "asan", r.pick(50, 3000)),
        ("grouped_again", "plain", r.pick(200, 10000)),
        ("totals_again", "plain", r.pick(80, 4000)),
        ("distinct_again", "plain", r.pick(80, 4000)),
        ("group_join_again", "plain", r.pick(40, 2000)),
        ("grouped_again", "asan", r.pick(15, 800))])
    cases.known(r)


def q08(r):
    r.rule = ("ORDER BY columns, expressions, aliases and ordinals, with"
              " TOP, through CLI and API; runs of equal keys compared as"
              " multisets; non-trivial: two rows or more came out")
    cases.drive(r, GENS["Q08"], [
        ("order", "plain", r.pick(2000, 100000)),
        ("order_join", "plain", r.pick(300, 15000)),
        ("top", "plain", r.pick(400, 15000)),
        ("order", "asan", r.pick(50, 3000)),
        ("order_again", "plain", r.pick(200, 10000)),
        ("order_join_again", "plain", r.pick(50, 2500)),
        ("top_again", "plain", r.pick(80, 3000)),
        ("order_again", "asan", r.pick(15, 800))])
    cases.known(r)


def q09(r):
    r.rule = ("UNION ALL, derived tables, IN (SELECT) and scalar subqueries"
              " against the model; non-trivial: rows came out and the case"
              " is new")
    cases.drive(r, GENS["Q09"], [
        ("union", "plain", r.pick(700, 40000)),
        ("derived", "plain", r.pick(600, 40000)),
        ("derived_join", "plain", r.pick(300, 20000)),
        ("in_subquery", "plain", r.pick(500, 30000)),
        ("scalar_subquery", "plain", r.pick(700, 30000)),
        ("subquery_anywhere", "plain", r.pick(1200, 40000)),
        ("subquery_anywhere", "asan", r.pick(40, 2000)),
        ("derived", "asan", r.pick(30, 2000)),
        ("union", "asan", r.pick(30, 2000)),
        ("union_again", "plain", r.pick(150, 7500)),
        ("derived_again", "plain", r.pick(100, 5000)),
        ("in_subquery_again", "plain", r.pick(100, 5000)),
        ("scalar_subquery_again", "plain", r.pick(100, 5000)),
        ("subquery_anywhere_again", "plain", r.pick(150, 7500)),
        ("union_again", "asan", r.pick(15, 800)),
        ("derived_again", "asan", r.pick(15, 800))])
    cases.known(r)


GENS = {"Q06": {"join": join, "join_agree": join_agree},
        "Q07": {"loose": loose, "lacking": lacking, "grouped": grouped, "totals": totals, "of_nothing": of_nothing, "distinct": distinct,
                "group_join": group_join},
        "Q08": {"order": order, "order_join": order_join, "top": top},
        "Q09": {"union": union, "derived": derived,
                "derived_join": derived_join, "in_subquery": in_subquery,
                "scalar_subquery": scalar_subquery,
                "subquery_anywhere": subquery_anywhere}}
for q, names in (("Q06", "join"), ("Q07", "grouped totals distinct group_join"),
                 ("Q08", "order order_join top"),
                 ("Q09", "union derived derived_join in_subquery "
                  "scalar_subquery subquery_anywhere")):
    for n in names.split():
        GENS[q][n + "_again"] = again(GENS[q][n])
ZYG = {}
