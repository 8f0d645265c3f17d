"""Names with a meaning of their own: __rownum, __rec, __lf ... (Q24)."""
from .. import cases, gen, sql as M
from ..gen import G
from ..sql import (Agg, Bin, Case, Cast, Cmp, Const, E, Fn, In, Like, Not,
                   Select)
from . import relational
from .query import again, fix_names, run_both


def spelled(r, s):
    k = r.random()
    return s if k < .6 else s.upper() if k < .75 else s.title() \
        if k < .9 else "[%s]" % s


class Special(E):
    nullable = False

    def __init__(self, r, name, of=None):
        self.of = of
        self.text = spelled(r, name)
        if of and r.random() < .5 and name == "__rec":
            self.text = "%s.%s" % (of, self.text)
        self.name = self.text

    def sql(self):
        return self.text

    def const(self):
        return False


class Rownum(Special):
    """of the row among those that are selected"""
    t = "i"

    def ev(self, row):
        return row["#n"]


class Rec(Special):
    """the record as it stands in its file"""
    def ev(self, row):
        v = row[self.of]
        return None if v is None else b",".join(map(M.quote, v))


class End(Special):
    def __init__(self, r, name):
        Special.__init__(self, r, name)
        self.v = {"__lf": b"\n", "__crlf": b"\r\n", "__cr": b"\r"}[name]

    def ev(self, row):
        return self.v

    def const(self):
        return True


def end(r):
    return End(r, r.choice(["__lf", "__cr", "__crlf"]))


def expression(r, cols, key, sole=True):
    """one with a special name in it"""
    k = r.random()
    kw = [c for c in cols if c.kind in "sw"]
    if k < .3:
        return Rownum(r, "__rownum")
    if k < .4:
        return Bin(r.choice("+-*"), Rownum(r, "__rownum"),
                   Const(r.choice([0, 1, 10, -7])))
    if k < .45:
        return Case([(Cmp(r.choice(["=", "<", ">="]), Rownum(r, "__rownum"),
                          Const(r.randint(0, 6))), Const(b"yes"))],
                    Const(b"no")) if sole else Rownum(r, "__rownum")
    if k < .65:
        return Rec(r, "__rec", key)
    if k < .72:
        return Fn("LEN", Rec(r, "__rec", key))
    if k < .77:
        return Fn("LEFT", Rec(r, "__rec", key), Const(r.randint(0, 9)))
    c = r.choice(kw)
    if k < .88:
        return Bin("+", Bin("+", c, end(r)), r.choice(kw + [Const(b"z")]))
    if k < .94:
        return Fn("REPLACE", c, Const(r.choice([b"a", b"1", b"e"])), end(r))
    return Bin("+", end(r), end(r))


def record_test(r, t, key):
    k = r.random()
    rec = Rec(r, "__rec", key)
    row = r.choice(t.rows) if t.rows else [b"x"]
    s = b",".join(map(M.quote, row))
    if k < .4 and b"\0" not in s:
        return Cmp(r.choice(["=", "<>", "<", ">="]), rec, Const(s))
    a = r.randrange(len(s) + 1)
    part = s[a:a + r.randint(1, 4)]
    if not part or any(c in part for c in b"%_[]^'") or not part.isascii():
        part = b","
    return Like(rec, Const(b"%" + part + b"%"))


def special(env):
    r = env.rng
    t = gen.table(r, nasty=.15, rows=r.choice([0, 1, 2, 5, 12, 40]))
    al = r.choice([None, "x"])
    key = al or t.file
    cols = gen.columns(t, key)
    g = G(r, cols)
    items = []
    for i in range(r.randint(1, 4)):
        e = expression(r, cols, key) if r.random() < .75 or not i \
            else r.choice(cols)
        if isinstance(e, Rec) and not al:
            e.text = e.name = e.text.split(".")[-1]
        items.append((e, "c%d" % i))
    fix(items, al)
    where = None
    if r.random() < .5:
        where = record_test(r, t, key) if r.random() < .4 else g.pred(1)
        fix([(where, None)], al)
    sel = fix_names(Select(items, [(t, al, None, None)], where=where))
    if r.random() < .2:
        sel.top = (str(n := r.choice([0, 1, 2, 5])), n)
    if r.random() < .25:
        ks = [i for i, (e, _) in enumerate(items) if not numbered(e)]
        if ks:
            sel.order = [(items[i][0], "c%d" % i, r.random() < .5)
                         for i in r.sample(ks, 1)]
    want = run_both(env, sel, {t.file: t.data()}, "special")
    env.nontrivial = bool(want.rows)


def fix(items, al):
    """the file's name is no qualifier"""
    def walk(e):
        if isinstance(e, Rec) and not al:
            e.text = e.name = e.text.split(".")[-1]
        for k in vars(e).values():
            for x in k if isinstance(k, (list, tuple)) else [k]:
                for y in x if isinstance(x, (list, tuple)) else [x]:
                    if isinstance(y, (E, M.P)):
                        walk(y)
    for e, _ in items:
        walk(e)


def numbered(e):
    if isinstance(e, Rownum):
        return True
    return any(numbered(y) for k in vars(e).values()
               for x in (k if isinstance(k, (list, tuple)) else [k])
               for y in (x if isinstance(x, (list, tuple)) else [x])
               if isinstance(y, (E, M.P)))


def joined(env):
    """records of both sides"""
    r = env.rng
    a, b = relational.side(r, "a"), relational.side(r, "b")
    ca, cb = gen.columns(a, "a", True), gen.columns(b, "b", True)
    on = relational.join_key(r, ca, cb)
    how = r.choice(["JOIN", "JOIN", "LEFT JOIN"])
    recs = [Rec(r, "__rec", "a"), Rec(r, "__rec", "b")]
    for e, n in zip(recs, "ab"):
        e.text = n + "." + e.text.split(".")[-1]
    recs[1].nullable = True
    if r.random() < .15:
        # numbers of the rows, whatever their order
        items = [(Rownum(r, "__rownum"), "n")]
    else:
        items = [(e, "c%d" % i) for i, e in enumerate(
            r.sample(recs, r.randint(1, 2)) +
            [r.choice(ca + cb) for _ in range(r.randint(0, 2))])]
        if r.random() < .3:
            items.append((Bin("+", items[0][0], end(r)), "e"))
    sel = fix_names(Select(items, [(a, "a", "FROM", None),
                                   (b, "b", how, on)]))
    want = run_both(env, sel, {a.file: a.data(), b.file: b.data()}, "joined")
    env.nontrivial = bool(want.rows)


def union(env):
    """each SELECT numbers its own rows"""
    r = env.rng
    arms, files = [], {}
    for i in range(r.randint(2, 3)):
        t = gen.table(r, "t%d.csv" % i, rows=r.choice([0, 1, 3, 9]), nulls=0)
        files[t.file] = t.data()
        cols = gen.columns(t, t.file)
        e = Rownum(r, "__rownum")
        if r.random() < .3:
            e = Bin("+", e, Const(r.choice([10, 100])))
        rec = Rec(r, "__rec", t.file)
        rec.text = rec.name = rec.text.split(".")[-1]
        arms.append(fix_names(Select(
            [(e, "n"), (rec if r.random() < .5 else
                        r.choice([c for c in cols if c.kind in "sw"]), "s")],
            [(t, None, None, None)],
            where=G(r, cols).pred(1) if r.random() < .3 else None)))
    u = M.Union(arms)
    want = run_both(env, u, files, "union")
    env.nontrivial = bool(want.rows)


def groups(env):
    """equal records"""
    r = env.rng
    t = gen.table(r, nasty=.1, rows=r.choice([0, 2, 8, 30]), nulls=0)
    if t.rows and r.random() < .8:
        few = [r.choice(t.rows) for _ in range(3)]
        t.rows = [r.choice(few) for _ in t.rows]
    rec = Rec(r, "__rec", t.file)
    rec.text = rec.name = rec.text.split(".")[-1]
    src = [(t, None, None, None)]
    if r.random() < .5:
        sel = Select([(rec, "c0")], src, distinct=True)
    else:
        sel = Select([(rec, "c0"), (Agg("COUNT", None), "n")], src,
                     group=[rec])
    want = run_both(env, fix_names(sel), {t.file: t.data()}, "groups")
    env.nontrivial = len(want.rows) > 1


def change(env):
    """UPDATE numbers the records that it changes"""
    r = env.rng
    t = gen.table(r, rows=r.choice([0, 1, 5, 12, 40]))
    cols = gen.columns(t, "t.csv")
    i = r.randrange(len(cols))
    k = r.random()
    g = G(r, [c for c in cols])
    e = Rownum(r, "__rownum") if k < .6 else \
        Bin("+", Rownum(r, "__rownum"), Const(100)) if k < .75 else \
        Bin("+", Const(b"p"), end(r))
    where = g.pred(1) if r.random() < .7 else None
    text = "UPDATE [t.csv] SET %s = %s" % (cols[i].sql(), e.sql())
    if where is not None:
        text += " WHERE " + where.sql()
    turns = r.choice([1, 1, 1, 2, 3])
    if turns > 1:
        text = "DECLARE @i int = 0 WHILE @i < %d BEGIN %s; SET @i += 1 END" \
            % (turns, text)
        env.count("turns", turns)
    rows, total = t.rows, 0
    for _ in range(turns):
        now, rows, n = rows, [], 0
        for x in now:
            d = {"t.csv": x}
            if where is not None and not where.test(d):
                rows.append(x)
                continue
            n += 1
            d["#n"] = n
            y = list(x) + [b""] * (len(cols) - len(x))
            y[i] = M.through_text(e.ev(d))
            y[i] = y[i] if isinstance(y[i], bytes) else str(y[i]).encode()
            rows.append(y)
        total += n
    want = M.Table("t.csv", t.cols, rows)
    o = env.exec(*r.choice([("cli", ["-q", "-c", text]),
                            ("api", ["exec:" + text])]),
                 {t.file: t.data()}, keep=True)
    if o.code:
        env.fail("refused", "exit status %d" % o.code)
    got = cases.parse_csv(o.files["t.csv"])
    if got != cases.parse_csv(want.data()):
        env.fail("changed", "%s\nfile %s\ninstead of %s" % (
            text, cases.show_bytes(o.files["t.csv"]),
            cases.show_bytes(want.data())))
    env.nontrivial = total > 0


def refused(env):
    """where there are no rows to number"""
    r = env.rng
    n = spelled(r, "__rownum")
    s = r.choice(["DELETE FROM [t.csv] WHERE %s = 1", "DECLARE @x int = %s",
                  "IF %s = 1 SELECT 1 AS c", "WHILE %s < 1 SELECT 2 AS c",
                  "DECLARE @x int SET @x = 2 + %s",
                  "DELETE FROM [t.csv] WHERE a = %s + 1",
                  "IF 1 = 1 OR 2 + %s = 3 SELECT 1 AS c"]) % n
    files = {"t.csv": b"a,b\n1,x\n2,y\n"}
    o = env.exec("cli", ["-q", "-c", s], files, keep=True, leaks=False)
    if o.code not in (1, 87) or o.out or o.files != files:
        env.fail("not refused", "exit status %d" % o.code)
    env.nontrivial = True


def q24(r):
    r.rule = ("__rownum, __rec, __lf, __cr and __crlf in select lists, "
              "conditions, groups, joins and UPDATEs against the model; "
              "non-trivial: rows came out")
    cases.drive(r, GENS["Q24"], [
        ("special", "plain", r.pick(700, 30000)),
        ("joined", "plain", r.pick(200, 10000)),
        ("groups", "plain", r.pick(150, 8000)),
        ("union", "plain", r.pick(150, 8000)),
        ("change", "plain", r.pick(200, 10000)),
        ("special", "asan", r.pick(40, 3000)),
        ("refused", "asan", r.pick(10, 200)),
        ("special_again", "plain", r.pick(120, 6000)),
        ("joined_again", "plain", r.pick(40, 2000)),
        ("groups_again", "plain", r.pick(30, 1500)),
        ("union_again", "plain", r.pick(50, 2500)),
        ("special_again", "asan", r.pick(10, 500))])
    cases.known(r)


GENS = {"Q24": {"special": special, "joined": joined, "groups": groups,
                "union": union, "change": change, "refused": refused}}
for n in ("special", "joined", "groups", "union"):
    GENS["Q24"][n + "_again"] = again(GENS["Q24"][n])
ZYG = {}
