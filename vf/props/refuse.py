"""Statements that fail (Q11) and statements that fql does not know (Q23)."""
from .. import cases, gen, sql as M
from ..gen import G
from ..prog import (Block, Delete, If, Into, Program, Show, Update, World,
                    typed_expr)
from ..sql import (Agg, And, Bin, Cast, Cmp, Const, Fn, InSub, Or, Select,
                   Sub, Table)
from .change import change, look, some_table, spelled
from .query import fix_names


# ------------------------------------------------------------------ failing

def poison(r, g, t):
    """an expression that fails for some records: (E, type)"""
    k = r.random()
    ints = [c for c in g.cols if c.kind in "ik"]
    vals = {c: [whole(row[c.idx]) for row in t.rows if len(row) > c.idx and
                whole(row[c.idx]) is not None] for c in ints}
    ints = [c for c in ints if vals[c]]
    if k < .35 and ints:
        c = r.choice(ints)
        v = r.choice(vals[c])
        return Bin(r.choice("/%"), Const(r.choice([1, 6, -40])),
                   r.choice([Bin("-", Cast(c, "int"), Const(v)),
                             Bin("^", Cast(c, "int"), Const(v))]))
    if k < .55 and ints:
        c = r.choice(ints)
        m = max(vals[c], key=abs)
        if m > 1:
            return Bin("*", Cast(c, "int"),
                       Const((2**63 - 1) // m + r.choice([1, 2])))
    if k < .75:
        s = [c for c in g.cols if c.kind in "sw"]
        if s:
            c = r.choice(s)
            return r.choice([Cast(c, r.choice(["int", "float"])),
                             Bin("+", c, Const(1)), Neg(c)])
    if ints:
        c = r.choice(ints)
        v = r.choice(vals[c])
        return Fn("LEN", Fn("LEFT", Const(b"abc"),
                            Bin("-", Cast(c, "int"), Const(v + 1))))
    return Cast(g.str(1), "int")


def whole(b):
    try:
        return int(b)
    except ValueError:
        return None


def Neg(c):
    return Cast(Bin("+", c, Const(b"x")), "int")


def failing(r, w, t):
    """a statement that fails over some record, or at once"""
    al = r.choice([None, "x"])
    key = al or t.file
    cols = gen.columns(t, key)
    g = G(r, cols)
    p = poison(r, g, t)
    src = [(t, al, None, None)] if al else None
    target = al or spelled(r, t)
    guard = Cmp(r.choice(["=", "<", ">", "<>"]), p, Const(
        r.randint(-3, 9)))
    k = r.random()
    if k < .3:
        i = r.randrange(len(cols))
        sets = [(i, gen.ident(t.cols[i][0]), "", p)]
        for j in r.sample(range(len(cols)), r.choice([0, 0, 1])):
            if j != i:
                e = (j, gen.ident(t.cols[j][0]), "",
                     typed_expr(r, g, t.cols[j][1]))
                sets.insert(r.choice([0, 1]), e)
        return Update(t, key, sets, g.pred(1) if r.random() < .3 else None,
                      target, src)
    if k < .45:
        i = r.randrange(len(cols))
        return Update(t, key, [(i, gen.ident(t.cols[i][0]), "",
                                typed_expr(r, g, t.cols[i][1]))],
                      guard, target, src)
    if k < .65:
        return Delete(t, key, guard if r.random() < .7 else
                      r.choice([And, Or])(g.pred(1), guard), target, src)
    u = r.choice(w.tables)
    cu = gen.columns(u, u.file)
    sub = fix_names(Select([(poison(r, G(r, cu), u), None)],
                           [(u, None, None, None)]))
    if k < .75:
        return Delete(t, key, Cmp("=", Const(1), Const(1)) and
                      InSub(Cast(Const(1), "int"), sub)
                      if sub.types()[0] == "i" else guard, target, src)
    if k < .85:
        # several values where one is wanted
        i = r.randrange(len(cols))
        many = fix_names(Select([(r.choice(cu), None)],
                                [(u, None, None, None)]))
        return Update(t, key, [(i, gen.ident(t.cols[i][0]), "", Sub(many))],
                      None, target, src)
    if k < .95:
        name = r.choice([x.file for x in w.tables] + ["new.csv"])
        sel = fix_names(Select([(p, "p")] + [(c, None) for c in cols[:1]],
                               [(t, al, None, None)]))
        return IntoFile(sel, name)
    return Show(fix_names(Select([(p, "p")], [(t, al, None, None)])))


class IntoFile(Into):
    """SELECT INTO a file that may exist"""

    def __init__(self, sel, name):
        self.name = name
        Into.__init__(self, sel, Table(name, [(n, "s") for n in
                                              sel.names()], []))

    def run(self, w):
        for t in w.tables:
            if t.file == self.name and not w.overwrite:
                raise M.Err("it is there")
        Into.run(self, w)
        for t in w.tables[:-1]:
            if t.file == self.name:
                raise M.Skip


def some_into(r, w):
    t = r.choice(w.tables)
    cols = gen.columns(t, t.file)
    return IntoFile(fix_names(Select([(c, None) for c in cols],
                                     [(t, None, None, None)])),
                    r.choice([x.file for x in w.tables]))


def after_failure(env):
    """What a program did before it failed stays, the statement that failed
    and those after it did nothing."""
    r = env.rng
    w = World([some_table(r, "t.csv", rows=r.choice([1, 2, 5, 12, 30])),
               some_table(r, "u.csv", rows=r.choice([1, 3, 9]))])
    w.overwrite = r.random() < .2
    stmts = [change(r, r.choice(w.tables), w.tables) if r.random() < .7 else
             look(r, r.choice(w.tables)) for _ in range(r.choice(
                 [0, 0, 1, 1, 2]))]
    before = {t.file: t.data() for t in w.tables}
    done = []
    for s in stmts:
        s.run(w)
        done.append(s)
    bad = None
    for _ in range(6):
        f = failing(r, w, r.choice(w.tables)) if r.random() < .88 else \
            some_into(r, w)
        if len(done) and (isinstance(f, IntoFile) and
                          f.name in before and not w.overwrite):
            continue                 # refused before anything is run
        keep = [list(map(list, t.rows)) for t in w.tables]
        n, shown = len(w.tables), len(w.out)
        try:
            f.run(w)
        except M.Err:
            bad = f
        except M.Skip:
            pass
        del w.tables[n:], w.out[shown:]
        for t, rows in zip(w.tables, keep):
            t.rows = rows
        M.changed()
        if bad:
            break
    else:
        raise M.Skip
    text = bad.sql()
    if any(_folds(p) for p in _exprs(bad)):
        raise M.Skip
    body = [s.sql() for s in done] + [text]
    if not isinstance(bad, IntoFile):
        body += [change(r, r.choice(w.tables)).sql()
                 for _ in range(r.choice([0, 0, 1, 1]))]
    if r.random() < .1:
        body = ["IF 1 = 1 BEGIN " + "; ".join(body) + " END"]
    args = ["-q"]
    if w.overwrite:
        args.append("-o")
    if r.random() < .25:
        args.append("-t")
    if r.random() < .2:
        args += ["-P", str(r.choice([2, 3, 5]))]
    changed = {s.t.file for s in done if isinstance(s, (Update, Delete))}
    d = env.dir(before)
    o = env.cli("; ".join(body), d=d, args=args, leaks=False)
    env.log[-1]["files"] = before
    if o.code == 0:
        env.fail("failure not told", "the statement fails (%s), the exit "
                 "status is 0" % text)
    if not o.err.strip():
        env.fail("failure without a word", "nothing on the error output")
    if o.code != 1:
        env.fail("exit status", "%d" % o.code)
    for t in w.tables:
        got = o.files.get(t.file)
        if got == before[t.file] and t.file not in changed:
            continue
        if got is None:
            env.fail("table gone", t.file)
        if t.file not in changed:
            env.fail("table changed by what failed", "%s is now %s" % (
                t.file, cases.show_bytes(got)))
        recs = [tuple(map(cases.zero, x)) for x in cases.parse_csv(got)]
        want = [tuple(c.encode() for c, _ in t.cols)] + \
            [tuple(map(cases.zero, x)) for x in t.rows]
        if recs != want:
            env.fail("table after a failure", "%s is %s instead of %s" % (
                t.file, recs, want))
    # (with threads: a known finding)
    new = o.files.get("new.csv")
    if new or new is not None and "-t" not in args:
        env.fail("result of what failed", "new.csv: %s" % cases.show_bytes(
            new))
    # what was shown before it failed is there
    if w.out:
        recs = [tuple(map(cases.zero, x)) for x in cases.parse_csv(o.out)]
        n = sum(1 + len(x.rows) for x in w.out)
        fake = cases.Obs(0, o.out, o.err, {})
        cut = list(w.out)
        if len(recs) < n:
            env.fail("output before a failure", "%d records, at least %d "
                     "expected" % (len(recs), n))
    env.count("failed_statements")
    env.count("failed_" + type(bad).__name__.lower())
    env.nontrivial = True


def _exprs(s):
    if isinstance(s, Update):
        return [e for _, _, _, e in s.sets]
    if isinstance(s, (Show, Into)):
        return [e for e, _ in s.sel.items]
    return []


def _folds(e):
    """it would fail while being planned: nothing is run then"""
    if isinstance(e, (Bin, Fn, Cast)) and e.const():
        try:
            e.ev({})
        except M.Err:
            return True
        except M.Skip:
            return True
    return any(_folds(k) for k in e.kids() if isinstance(k, M.E))


def no_space(env):
    """Files cannot grow beyond some size: either all is well or the tables
    are what they were."""
    r = env.rng
    t = some_table(r, "t.csv", rows=r.choice([20, 60, 200]), nulls=0)
    u = some_table(r, "u.csv", rows=3)
    w = World([t, u])
    cols = gen.columns(t, t.file)
    before = {x.file: x.data() for x in w.tables}
    k = r.random()
    args = ["-q"]
    made = None
    if k < .6:
        s = change(r, t, [u])
    else:
        made = r.choice(["u.csv", "new.csv"])
        s = Into(fix_names(Select([(c, None) for c in cols],
                                  [(t, None, None, None)])),
                 Table("z.csv", t.cols, []))
        s.table.file = made
        s.sel.into = "[%s]" % made
        args.append("-o")
    if r.random() < .3:
        args.append("-t")
    text = s.sql()
    s.run(w)
    if made:
        rows = s.table.rows
    else:
        rows = t.rows
    size = sum(len(b",".join(x)) + 1 for x in rows)
    limit = r.choice([0, 1, 10, size // 2, r.randint(0, size + 10), size,
                      size - 60, 4096, 4095])
    d = env.dir(before)
    o = env.cli(text, d=d, args=args, fsize=max(0, limit), leaks=False)
    env.log[-1]["files"] = before
    env.count("write_limits")
    target = made or "t.csv"
    got = o.files.get(target)
    want = [tuple(c.encode() for c, _ in t.cols)] + \
        [tuple(map(cases.zero, x)) for x in rows]
    full = None
    if got is not None:
        try:
            full = [tuple(map(cases.zero, x)) for x in cases.parse_csv(got)]
        except ValueError:
            full = None
    if o.code == 0:
        if full != want:
            env.fail("write failure not told", "exit status 0, %s is %s" % (
                target, cases.show_bytes(got or b"")))
    else:
        env.count("write_failures")
        env.nontrivial = True
        if target in before and got != before[target]:
            env.fail("table damaged", "%s is %s" % (
                target, cases.show_bytes(got or b"(gone)")))
        if target not in before and (
                got or got is not None and "-t" not in args):
            env.fail("half a table", "%s is %s" % (target,
                                                   cases.show_bytes(got)))
    for x in w.tables[:2]:
        if x.file != target and o.files.get(x.file) != before[x.file]:
            env.fail("another table changed", x.file)


def q11(r):
    r.rule = ("programs of which one statement fails over some record, at "
              "once, or for want of space (a limit on file sizes), with and "
              "without threads; files compared byte by byte or with the "
              "model; non-trivial: a statement failed")
    cases.drive(r, GENS["Q11"], [
        ("after_failure", "plain", r.pick(2500, 80000)),
        ("no_space", "plain", r.pick(700, 30000)),
        ("after_failure", "asan", r.pick(60, 4000)),
        ("no_space", "asan", r.pick(20, 1500))])
    cases.known(r)


GENS = {"Q11": {"after_failure": after_failure, "no_space": no_space}}
ZYG = {}


# ------------------------------------------------------- what fql is not able to

# {t} {u} tables, {a} {b} {k} columns of t (k has numbers), {c} a column of u
STATEMENTS = """
SELECT {a} FROM {t} UNION SELECT {c} FROM {u}
SELECT {a} FROM {t} EXCEPT SELECT {c} FROM {u}
SELECT {a} FROM {t} INTERSECT SELECT {c} FROM {u}
SELECT {a} FROM {t} UNION ALL SELECT {c} FROM {u} UNION SELECT {c} FROM {u}
SELECT {a} FROM {t} ORDER BY {a} OFFSET 1 ROWS
SELECT {a} FROM {t} ORDER BY {a} OFFSET 0 ROWS FETCH NEXT 1 ROWS ONLY
SELECT TOP 1 WITH TIES {a} FROM {t} ORDER BY {a}
SELECT TOP 50 PERCENT {a} FROM {t}
SELECT {a}, COUNT(*) FROM {t} GROUP BY ROLLUP({a})
SELECT {a}, COUNT(*) FROM {t} GROUP BY CUBE({a})
SELECT {a}, COUNT(*) FROM {t} GROUP BY {a} WITH ROLLUP
SELECT {a} FROM {t} GROUP BY GROUPING SETS ({a})
SELECT * FROM {t} FOR XML AUTO
SELECT * FROM {t} FOR JSON AUTO
SELECT * FROM {t} FOR BROWSE
SELECT * FROM {t} WITH (NOLOCK)
SELECT * FROM {t} OPTION (MAXDOP 1)
SELECT * FROM {t} TABLESAMPLE (1 PERCENT)
SELECT * FROM {t} CROSS JOIN {u}
SELECT * FROM {t} CROSS APPLY {u}
SELECT * FROM {t} OUTER APPLY {u}
SELECT * FROM {t} x RIGHT JOIN {u} y ON x.{a} = y.{c}
SELECT * FROM {t} x FULL JOIN {u} y ON x.{a} = y.{c}
SELECT * FROM {t} x FULL OUTER JOIN {u} y ON x.{a} = y.{c}
SELECT SUM({k}) OVER (PARTITION BY {b}) FROM {t}
SELECT ROW_NUMBER() OVER (ORDER BY {a}) FROM {t}
SELECT RANK() OVER (ORDER BY {a}) FROM {t}
SELECT COUNT(DISTINCT {a}) FROM {t}
SELECT SUM(DISTINCT {k}) FROM {t}
SELECT {a} FROM {t} WHERE {k} BETWEEN 1 AND 2
SELECT {a} FROM {t} WHERE {k} NOT BETWEEN 1 AND 2
SELECT {a} FROM {t} WHERE {a} LIKE 'x' ESCAPE '!'
SELECT {a} FROM {t} WHERE {a} > ALL (SELECT {c} FROM {u})
SELECT {a} FROM {t} WHERE {a} = ANY (SELECT {c} FROM {u})
SELECT {a} FROM {t} WHERE {a} = SOME (SELECT {c} FROM {u})
SELECT {a} FROM {t} WHERE EXISTS (SELECT {c} FROM {u})
SELECT {a} FROM {t} WHERE NOT EXISTS (SELECT {c} FROM {u})
SELECT CONVERT(int, {k}) FROM {t}
SELECT TRY_CAST({k} AS int) FROM {t}
SELECT CAST({k} AS date) FROM {t}
SELECT CAST({k} AS decimal(3,1)) FROM {t}
SELECT IIF(1 = 1, 1, 2)
SELECT GETDATE()
SELECT NULLIF({a}, 'x') FROM {t}
SELECT COALESCE({a}, 'x') FROM {t}
SELECT CONCAT({a}, 'x') FROM {t}
SELECT CHARINDEX('x', {a}) FROM {t}
SELECT @@ROWCOUNT
SELECT {a} FROM {t} WHERE CONTAINS({a}, 'x')
SELECT {a} FROM {t} PIVOT (MAX({a}) FOR {b} IN ([x])) p
SELECT {a} FROM {t} WHERE NULL
SELECT * FROM {t} WHERE ({a}, {b}) IN (SELECT {c}, {c} FROM {u})
SELECT * FROM (VALUES (1, 2)) x(a, b)
SELECT * FROM {t} AS x(a, b, c)
SELECT {a} FROM {t} HAVING {a} > 1
SELECT 1 << 2
WITH x AS (SELECT * FROM {t}) SELECT * FROM x
WITH x AS (SELECT * FROM {t}) DELETE {u}
DELETE TOP (1) FROM {t}
DELETE TOP 1 FROM {t}
UPDATE TOP (1) {t} SET {a} = 'q'
UPDATE {t} SET {a} = 'q' OUTPUT INSERTED.{a}
DELETE {t} OUTPUT DELETED.{a}
DELETE {t} OPTION (RECOMPILE)
UPDATE {t} SET {a} = 'q' OPTION (RECOMPILE)
UPDATE {t} SET {a}.WRITE('x', 1, 1)
UPDATE {t} WITH (NOLOCK) SET {a} = 'q'
UPDATE (SELECT * FROM {t}) x SET {a} = 'q'
DELETE FROM {t} WHERE CURRENT OF c
UPDATE {t} SET {a} = 'q' WHERE CURRENT OF c
WITH x AS (SELECT 1 AS y) UPDATE {t} SET {a} = 'q'
DROP TABLE {t}
TRUNCATE TABLE {t}
CREATE TABLE z (id int)
INSERT INTO {t} VALUES ('1', '2', '3')
INSERT INTO {t} SELECT * FROM {t}
INSERT {t} DEFAULT VALUES
MERGE {t} x USING {u} y ON x.{a} = y.{c} WHEN MATCHED THEN DELETE;
ALTER TABLE {t} ADD d int
CREATE INDEX i ON {t} ({a})
CREATE VIEW v AS SELECT * FROM {t}
BEGIN TRANSACTION
COMMIT
ROLLBACK
SAVE TRANSACTION x
USE x
EXEC x
EXECUTE sp_help {t}
PRINT 'x'
RETURN
BREAK
CONTINUE
GOTO x
WAITFOR DELAY '1'
WAITFOR
THROW
RAISERROR('x', 1, 1)
DECLARE c CURSOR FOR SELECT {a} FROM {t}
OPEN c
FETCH NEXT FROM c
BEGIN TRY DELETE {t} END TRY BEGIN CATCH SELECT 2 END CATCH
IF EXISTS (SELECT {a} FROM {t}) DELETE {t}
WHILE 1 = 1 BEGIN DELETE {t} BREAK END
DECLARE @q int SELECT @q = {k} FROM {t}
DECLARE @q TABLE (id int)
SELECT $IDENTITY FROM {t}
SELECT {a}, $ROWGUID, {b} FROM {t}
SELECT $ROWGUID AS x, {a} FROM {t}
SELECT $ACTION
SELECT DEFAULT
SELECT {a} || {b} FROM {t}
SELECT {a} FROM {t} WHERE {a} || {b} = 'x'
SELECT INSERTED.{a} FROM {t}
SELECT DELETED.{a}, {b} FROM {t}
SELECT DELETED.* FROM {t}
SELECT {a} FROM {t} GROUP BY ALL {a}
SELECT {a} COLLATE Latin1_General_BIN FROM {t}
SELECT {a} FROM {t} WHERE {a} COLLATE Latin1_General_BIN = 'x'
SELECT {a} FROM {t} ORDER BY {a} COLLATE Latin1_General_BIN
DECLARE @q int UPDATE {t} SET @q = {a} = 5
DECLARE @q int UPDATE {t} SET @q = 5
UPDATE {t} SET {a} = DEFAULT
UPDATE {t} SET {a} = {a} || 'x'
SELECT TOP 1 WITH TIES {a} FROM {t} ORDER BY {a}
SELECT COUNT(DISTINCT {a}) FROM {t}
SELECT {a} AT TIME ZONE 'x' FROM {t}
SELECT {a} FROM nobody.{t}
SELECT {a} FROM a.b.{t}
""".strip().split("\n")

# mistakes
MISTAKES = """
SELECT nosuch FROM {t}
SELECT x.{a} FROM {t} y
SELECT {a} FROM nosuch
SELECT {a} FROM {t} WHERE nosuch = 1
SELECT {a} FROM {t} ORDER BY nosuch
SELECT {a}, COUNT(*) FROM {t} GROUP BY nosuch
SELECT {a} FROM {t} GROUP BY {b}
SELECT * FROM {t} GROUP BY {a}
SELECT {a} FROM {t} GROUP BY {a} HAVING {b} = 'x'
SELECT x.{a} FROM {t} x JOIN {t} x ON x.{a} = x.{a}
SELECT nofn({a}) FROM {t}
SELECT LEFT({a}) FROM {t}
SELECT LEN({a}, 1) FROM {t}
SELECT SUBSTRING({a}, 1) FROM {t}
SELECT {a} FROM {t} WHERE {a} IN (SELECT {c}, {c} FROM {u})
SELECT (SELECT {c}, {c} FROM {u}) FROM {t}
SELECT {a} FROM {t} UNION ALL SELECT {c}, {c} FROM {u}
SELECT {a} FROM {t} WHERE COUNT(*) > 1
SELECT SUM(COUNT(*)) FROM {t}
UPDATE {t} SET nosuch = 1
UPDATE {t} SET {a} = nosuch
UPDATE {t} SET {a} = 'x', {a} = 'y'
UPDATE nosuch SET {a} = 'x'
UPDATE {t} SET {a} = 'x' WHERE nosuch = 1
DELETE nosuch
DELETE FROM {t} WHERE nosuch = 1
SET @nosuch = 1
SELECT @nosuch
DECLARE @d int, @d int
SELECT {a} FROM {t} WHERE
SELECT FROM {t}
SELECT {a} {b} {a} FROM {t}
SELECT {a}, FROM {t}
DELETE {t} WHERE {a} = 'x
DELETE {t} WHERE ({a} = 'x'
DELETE {t} WHERE {a} == 'x'
DELETE {t} WHERE {a} = 'x')
UPDATE {t} SET {a} 'x'
UPDATE {t} SET
BEGIN DELETE {t}
DELETE {t} END
WHILE DELETE {t}
SELECT 99999999999999999999999 FROM {t}
SELECT {k} & 1.5 FROM {t}
SELECT ~1.5 FROM {t}
SELECT 'a' - 'b' FROM {t}
SELECT 1 / 0 FROM {t}
DELETE {t} WHERE 5 % 0 = 1
SELECT {a} INTO [{tf}] FROM {t}
SELECT {a} FROM {t} ORDER BY 7
SELECT {a} FROM {t} ORDER BY 0
""".strip().split("\n")

# around a SELECT
NESTED = ["{s}", "SELECT * FROM ({s}) z", "SELECT 1 WHERE '1' IN ({s})",
          "SELECT ({s})", "DELETE {t} WHERE '1' IN ({s})",
          "UPDATE {t} SET {b} = ({s})",
          "SELECT 1 UNION ALL SELECT 2 UNION ALL {s}",
          "SELECT {a} FROM {t} UNION ALL {s}", "IF 1 = 0 {s}",
          "SELECT CASE WHEN 1 = 0 THEN ({s}) END",
          "SELECT x.* FROM {t} x JOIN ({s}) y ON 1 = 1"]


def refused(env, pool):
    r = env.rng
    t, u = some_table(r, "t.csv"), some_table(r, "u.csv", rows=3)
    files = {x.file: x.data() for x in (t, u)}
    kc = next(i for i, (_, k) in enumerate(t.cols) if k == "k")
    rest = [i for i in range(len(t.cols)) if i != kc]
    a, b = r.sample(rest, 2)
    n = [gen.ident(c) for c, _ in t.cols]
    text = r.choice(pool)
    m = {"t": spelled(r, t), "u": spelled(r, u), "a": n[a], "b": n[b],
         "k": n[kc], "c": gen.ident(u.cols[0][0]), "tf": t.file}
    text = text.format(**m)
    if r.random() < .3:
        text = text.lower() if r.random() < .5 and \
            text.lower() != text and "[" not in text else text
    nest = "{s}"
    if text.startswith("SELECT") and r.random() < .4 and \
            " INTO " not in text:
        nest = r.choice([x for x in NESTED if "UNION" not in x or
                         "ORDER" not in text])
        text = nest.format(s=text, **m)
    # beside statements that would do something
    pre = [change(r, r.choice([t, u]), [t, u]).sql() if r.random() < .7 else
           look(r, t).sql() for _ in range(r.choice([0, 0, 1, 2]))]
    post = [change(r, t).sql() for _ in range(r.choice([0, 0, 0, 1]))]
    # THROW would be an alias of the table before it
    if text.upper().startswith(("WITH", "THROW")) and pre:
        pre[-1] += ";"
    k = r.random()
    if k < .1:
        text = "IF 1 = 0 BEGIN %s END" % text
    elif k < .2:
        text = "WHILE 1 = 0 BEGIN %s END" % text
    body = r.choice(["; ", ";\n", "\n"]).join(pre + [text] + post)
    args = ["-q"]
    if r.random() < .15:
        args.append("-t")
    d = env.dir(files)
    o = env.cli(body, d=d, args=args, leaks=False, timeout=20)
    env.log[-1]["files"] = files
    if o.code == 0:
        env.fail("accepted", "exit status 0 for %s" % text)
    if o.out:
        env.fail("something printed", "%s" % text)
    if not o.err.strip():
        env.fail("no message", text)
    for x in (t, u):
        if o.files.get(x.file) != files[x.file]:
            env.fail("a file changed", x.file)
    left = [x for x in o.files if x not in files]
    if left:
        env.fail("files made", str(left))
    env.count("refused")
    env.nontrivial = True


def unsupported(env):
    refused(env, STATEMENTS)


def mistaken(env):
    refused(env, MISTAKES)


# {d} a name that occurs twice in t, {f} one that does not, {c} one of u
AMBIGUOUS = """
SELECT {d} FROM {t}
SELECT {f}, {d} FROM {t}
SELECT x.{d} FROM {t} x
SELECT {f} FROM {t} WHERE {d} = 'x'
SELECT {f} FROM {t} WHERE {f} = 'x' AND NOT {d} LIKE 'x'
SELECT {f} FROM {t} WHERE {f} IN ('x', {d})
SELECT {f} FROM {t} WHERE LEN({d}) = 3
SELECT {f} FROM {t} ORDER BY {d}
SELECT {f} FROM {t} ORDER BY {f}, {d} DESC
SELECT COUNT(*) FROM {t} GROUP BY {d}
SELECT {f}, MAX({d}) FROM {t} GROUP BY {f}
SELECT DISTINCT {d} FROM {t}
SELECT LEFT({d}, 1) FROM {t}
SELECT CASE WHEN {d} = 'x' THEN 1 END FROM {t}
SELECT CASE WHEN {f} = 'x' THEN {d} END FROM {t}
SELECT {f} FROM {t} UNION ALL SELECT {d} FROM {t}
SELECT {f} FROM (SELECT {f}, {d} FROM {t}) z
SELECT {f} FROM {t} WHERE {f} IN (SELECT {d} FROM {t})
SELECT y.{c} FROM {t} x JOIN {u} y ON x.{d} = y.{c}
SELECT y.{c} FROM {u} y JOIN {t} x ON y.{c} = x.{d}
SELECT y.{c} FROM {u} y LEFT JOIN {t} x ON y.{c} = x.{d}
DELETE {t} WHERE {d} = 'x'
DELETE x FROM {t} x WHERE x.{d} = 'x'
DELETE {u} WHERE {c} IN (SELECT {d} FROM {t})
DELETE y FROM {u} y JOIN {t} x ON y.{c} = x.{d}
UPDATE {t} SET {d} = 'x'
UPDATE {t} SET {f} = 'x', {d} = 'y'
UPDATE {t} SET {d} = 'x' WHERE {f} = 'y'
UPDATE {t} SET {f} = {d}
UPDATE {t} SET {f} = 'y' WHERE {d} = 'x'
UPDATE x SET {d} = 'x' FROM {t} x
UPDATE y SET {c} = x.{f} FROM {u} y JOIN {t} x ON y.{c} = x.{d}
SELECT {d} INTO [new.csv] FROM {t}
""".strip().split("\n")

# {d} a name in both tables
AMBIGUOUS_BOTH = """
SELECT {d} FROM {t} x JOIN {u} y ON x.{f} = y.{c}
SELECT {d} FROM {t} x LEFT JOIN {u} y ON x.{f} = y.{c}
SELECT {d} FROM {t} x, {u} y
SELECT x.{d} FROM {t} x JOIN {u} y ON x.{f} = y.{c} WHERE {d} = 'x'
SELECT x.{d} FROM {t} x JOIN {u} y ON x.{f} = y.{c} ORDER BY x.{f}, LEN({d})
SELECT COUNT(*) FROM {t} x JOIN {u} y ON x.{f} = y.{c} GROUP BY {d}
SELECT MAX({d}) FROM {t} x JOIN {u} y ON x.{f} = y.{c}
SELECT x.{f} FROM {t} x JOIN {u} y ON {d} = y.{c}
SELECT x.{f} FROM {t} x JOIN {u} y ON x.{f} = {d}
SELECT x.{f} FROM {t} x JOIN (SELECT * FROM {u}) y ON x.{f} = {d}
SELECT {d} FROM {t} x JOIN (SELECT {d} FROM {u}) y ON x.{f} = y.{d}
SELECT {d} FROM (SELECT {d}, {f} FROM {t}) x JOIN {u} y ON x.{f} = y.{c}
DELETE x FROM {t} x JOIN {u} y ON x.{f} = y.{c} WHERE {d} = 'x'
UPDATE x SET {f} = {d} FROM {t} x JOIN {u} y ON x.{f} = y.{c}
UPDATE x SET {f} = 'x' FROM {t} x JOIN {u} y ON x.{f} = y.{c} WHERE {d} = 'x'
""".strip().split("\n")


def ambiguous(env):
    """names that do not say which column is meant"""
    r = env.rng
    t, u = some_table(r, "t.csv"), some_table(r, "u.csv")
    both = r.random() < .4
    n = len(t.cols)
    names = [c for c, _ in t.cols]
    respell = [str, str.upper, str.swapcase]
    if both:
        i, j = r.sample(range(n), 2)
        d, f = names[i], names[j]
        k, l = r.sample(range(len(u.cols)), 2)
        u.cols[k] = (r.choice(respell)(d), u.cols[k][1])
        if u.cols[l][0].lower() == d.lower():
            raise M.Skip
        c = u.cols[l][0]
    else:
        i, j, k = r.sample(range(n), 3)
        d, f = names[i], names[k]
        t.cols[j] = (r.choice(respell)(d), t.cols[j][1])
        if sum(x.lower() == d.lower() for x, _ in t.cols) < 2:
            raise M.Skip
        c = r.choice(u.cols)[0]
    M.changed()
    files = {x.file: x.data() for x in (t, u)}
    m = {"t": t.ref, "u": u.ref, "d": gen.ident(r.choice(respell)(d)),
         "f": gen.ident(f), "c": gen.ident(c)}
    text = r.choice(AMBIGUOUS_BOTH if both else AMBIGUOUS).format(**m)
    pre = "DELETE %s; " % r.choice([t, u]).ref if r.random() < .3 else ""
    args = ["-q"]
    if not both or r.random() < .3:
        args.append("--strict")
    if r.random() < .15:
        args.append("-t")
    o = env.cli(pre + text, d=env.dir(files), args=args, leaks=False)
    env.log[-1]["files"] = files
    if o.code not in (1, 87) or o.out or b"ambiguous" not in o.err:
        env.fail("accepted", "exit status %s, %s for %s" % (
            o.code, cases.show_bytes(o.out + o.err), text))
    for x in (t, u):
        if o.files.get(x.file) != files[x.file]:
            env.fail("a file changed", x.file)
    if [x for x in o.files if x not in files]:
        env.fail("files made", text)
    env.count("ambiguous")
    env.nontrivial = True


def q23(r):
    r.rule = ("statements that use parts of T-SQL fql does not implement, "
              "or that are mistaken, nested in and beside others that "
              "would change files; each must be refused before anything is "
              "done; non-trivial: each case, if new")
    cases.drive(r, GENS["Q23"], [
        ("unsupported", "plain", r.pick(1200, 40000)),
        ("mistaken", "plain", r.pick(1000, 40000)),
        ("ambiguous", "plain", r.pick(700, 20000)),
        ("ambiguous", "asan", r.pick(30, 2000)),
        ("unsupported", "asan", r.pick(40, 3000)),
        ("mistaken", "asan", r.pick(40, 3000))])
    cases.known(r)


GENS["Q23"] = {"unsupported": unsupported, "mistaken": mistaken,
               "ambiguous": ambiguous}
