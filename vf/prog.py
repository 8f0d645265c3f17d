"""Programs: several statements one after another, with variables, control
flow, and tables that change."""
from . import cases, gen, sql as M
from .gen import G
from .sql import Const, Select, Table, Var

KIND = {"i": "i", "f": "f", "s": "s"}


class World:
    """the tables as they are on disk, and what has been printed"""

    def __init__(self, tables):
        self.tables = list(tables)
        self.out = []
        self.steps = 0
        self.counts = {}
        self.affected = []       # records of each statement that was run
        M.STATE["world"] = self
        M.STATE["vars"] = {}
        M.changed()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def step(self):
        self.steps += 1
        if self.steps > 400:
            raise M.Skip


class Stmt:
    def text(self):
        return self.sql()


class Show(Stmt):
    def __init__(self, sel):
        self.sel = sel

    def sql(self):
        return self.sel.sql()

    def run(self, w):
        w.step()
        w.out.append(self.sel.run())
        w.affected.append(w.out[-1].shown())
        w.count("selects")


class Into(Stmt):
    """SELECT ... INTO a new table"""

    def __init__(self, sel, table):
        self.sel, self.table = sel, table
        sel.into = table.ref

    def sql(self):
        return self.sel.sql()

    def run(self, w):
        w.step()
        res = self.sel.run()
        if not (res.ordered or len(res.rows) < 2) or \
                (res.top is not None and res.top < len(res.rows) and
                 not res.ordered):
            raise M.Skip
        keys = getattr(res, "keys", None)
        if keys is not None and keys != list(range(len(keys))):
            raise M.Skip
        rows = res.rows if res.top is None else res.rows[:res.top]
        self.table.rows = [[cases.text_of(v) for v in r] for r in rows]
        w.tables.append(self.table)
        w.affected.append(len(rows))
        M.changed()
        w.count("selects_into")


class Update(Stmt):
    """sets: [(column index, how it is spelled, operator, E)].  `src' as in
    Select for a FROM clause; its first table is the one updated."""

    def __init__(self, t, key, sets, where, target, src=None):
        self.t, self.key, self.sets = t, key, sets
        self.where, self.target, self.src = where, target, src

    def sql(self):
        o = "UPDATE %s SET %s" % (self.target, ", ".join(
            "%s %s= %s" % (n, op, e.sql()) for _, n, op, e in self.sets))
        return o + tail(self)

    def run(self, w):
        w.step()
        hits = dict((id(r), d) for r, d in matches(self))
        new = []
        n = 0
        for r in self.t.rows:
            if id(r) not in hits:
                new.append(r)
                continue
            n += 1
            d = hits[id(r)]
            x = list(r) + [b""] * (len(self.t.cols) - len(r))
            for i, _, op, e in self.sets:
                v = e.ev(d)
                if op:
                    old = r[i] if i < len(r) else None
                    v = M.Bin(op, Lit(old, "s"), Lit(v, e.t)).ev(d)
                x[i] = self.t.fit(i, cases.text_of(M.through_text(v)))
            new.append(x)
        self.t.rows = new
        M.changed()
        w.affected.append(n)
        w.count("rows_updated", n)
        w.count("rows_kept", len(new) - n)


class Delete(Stmt):
    def __init__(self, t, key, where, target, src=None):
        self.t, self.key = t, key
        self.where, self.target, self.src = where, target, src

    def sql(self):
        return "DELETE " + self.target + tail(self)

    def run(self, w):
        w.step()
        hits = set(id(r) for r, _ in matches(self))
        n = len(self.t.rows)
        self.t.rows = [r for r in self.t.rows if id(r) not in hits]
        M.changed()
        w.affected.append(n - len(self.t.rows))
        w.count("rows_deleted", n - len(self.t.rows))
        w.count("rows_kept", len(self.t.rows))


class Lit(M.E):
    """a value that is already there"""

    def __init__(self, v, t):
        self.v, self.t = v, t
        self.nullable = v is None

    def ev(self, row):
        return self.v


def tail(s):
    o = ""
    if s.src:
        for k, (t, a, how, on) in enumerate(s.src):
            o += " %s %s" % (how if k else "FROM", t.ref)
            if a:
                o += " " + a
            if on is not None:
                o += " ON " + on.sql()
    if s.where is not None:
        o += " WHERE " + s.where.sql()
    return o


def matches(s):
    """[(row of the table, the joined row it was first matched with)]"""
    sel = Select([], s.src or [(s.t, s.key, None, None)], where=s.where)
    sel.src = [(t, a or (s.key if k == 0 else None), how, on)
               for k, (t, a, how, on) in enumerate(sel.src)]
    acc, seen = [], set()
    for d in sel.source_rows():
        r = d[s.key]
        if s.where is not None and not s.where.test(d):
            continue
        if id(r) in seen:
            s.ambiguous = True
            continue
        seen.add(id(r))
        acc.append((r, d))
    return acc


SIZES = {"varchar": "s", "char": "s", "text": "s", "int": "i", "bit": "i",
         "bigint": "i", "smallint": "i", "tinyint": "i", "float": "f",
         "real": "f"}


STORED = {"bigint": "int", "smallint": "int", "tinyint": "int",
          "real": "float"}


class Variable:
    """its type, and what becomes of a value that is stored in it"""

    def __init__(self, name, to, n=None):
        self.name, self.to, self.n = name, to, n
        self.key = "%s %d" % (name, id(self))
        self.t = SIZES[to]

    def decl(self):
        return "@%s %s%s" % (self.name, self.to,
                             "(%d)" % self.n if self.n else "")

    def store(self, v):
        n = self.n
        if self.to == "varchar":
            n = None            # counts bytes, where CAST counts characters
        v = M.Cast(Lit(v, "s" if v is None else
                       {int: "i", float: "f", bytes: "s"}[type(v)]),
                   STORED.get(self.to, self.to), n).ev({})
        if v is not None and n != self.n:
            v = v[:self.n]
            try:
                v.decode()
            except UnicodeDecodeError:
                raise M.Skip
        if isinstance(v, bytes) and len(v) > 2000:
            raise M.Skip        # doubled in a loop
        M.STATE["vars"][self.key] = v
        M.changed()

    def ref(self):
        return Var(self.name, self.t, True, self.key)


class Declare(Stmt):
    """[(Variable, E or None)]"""

    def __init__(self, what):
        self.what = what

    def sql(self):
        return "DECLARE " + ", ".join(
            v.decl() + (" = " + e.sql() if e is not None else "")
            for v, e in self.what)

    def run(self, w):
        w.step()
        for v, e in self.what:
            if e is None:
                M.STATE["vars"][v.key] = None
                M.changed()
            else:
                v.store(e.ev({}))
        w.count("variables_declared", len(self.what))


class Set(Stmt):
    def __init__(self, v, e, op=""):
        self.v, self.e, self.op = v, e, op

    def sql(self):
        return "SET @%s %s= %s" % (self.v.name, self.op, self.e.sql())

    def run(self, w):
        w.step()
        x = self.e.ev({})
        if self.op:
            x = M.Bin(self.op, self.v.ref(), Lit(x, self.e.t)).ev({})
        self.v.store(x)
        w.count("variables_set")


class Block(Stmt):
    def __init__(self, body, r, bare=False):
        self.body = body
        self.bare = bare and len(body) == 1
        self.sep = [r.choice(["; ", " ", "\n", ";\n"]) for _ in body]

    def sql(self):
        if self.bare:
            return self.body[0].sql()
        return "BEGIN %s END" % "".join(
            s.sql() + p for s, p in zip(self.body, self.sep))

    def run(self, w):
        for s in self.body:
            s.run(w)


class If(Stmt):
    def __init__(self, cond, yes, no=None):
        self.cond, self.yes, self.no = cond, yes, no

    def sql(self):
        o = "IF %s %s" % (self.cond.sql(), self.yes.sql())
        if self.no is not None:
            o += " ELSE " + self.no.sql()
        return o

    def run(self, w):
        w.step()
        if self.cond.test({}):
            w.count("branches_taken")
            self.yes.run(w)
        elif self.no is not None:
            w.count("branches_else")
            self.no.run(w)
        else:
            w.count("branches_passed")


class While(Stmt):
    def __init__(self, cond, body):
        self.cond, self.body = cond, body

    def sql(self):
        return "WHILE %s %s" % (self.cond.sql(), self.body.sql())

    def run(self, w):
        w.step()
        while self.cond.test({}):
            w.count("loop_turns")
            w.step()
            self.body.run(w)


class Program:
    def __init__(self, stmts, r):
        self.stmts = stmts
        self.sep = [r.choice(["; ", ";\n", "\n", " ; "]) for _ in stmts]

    def sql(self):
        return "".join(s.sql() + p for s, p in zip(self.stmts, self.sep))

    def run(self, w):
        for s in self.stmts:
            s.run(w)


def bare_ok(s):
    """can it stand without BEGIN and END?"""
    return not isinstance(s, Declare) or len(s.what) == 1


def check_files(env, tables, before, files, key="file", extra=()):
    """What the tables are now is what the files hold."""
    for t in tables:
        if t.file.startswith("#"):
            continue
        got = files.pop(t.file, None)
        if got is None:
            env.fail(key + " gone", "%s is not there" % t.file)
        try:
            recs = cases.parse_csv(got)
        except ValueError as e:
            env.fail(key + " csv", "%s is not CSV: %s\n%s"
                     % (t.file, e, cases.show_bytes(got)))
        want = [tuple(c.encode() for c, _ in t.cols)] + \
            [tuple(r) for r in t.rows]
        got2 = [tuple(map(cases.zero, x)) for x in recs]
        want2 = [tuple(map(cases.zero, x)) for x in want]
        if got2 != want2:
            i = next((i for i, (a, b) in enumerate(zip(got2, want2))
                      if a != b), min(len(got2), len(want2)))
            env.fail(key, "%s: record %d is %s instead of %s (%d records "
                     "instead of %d)" % (
                         t.file, i, got2[i:i + 1], want2[i:i + 1],
                         len(got2), len(want2)))
        env.count("records_compared", len(want2))
    left = [n for n in files if n not in extra]
    if left:
        env.fail(key + " left over", "unexpected files: %s" % left)


def run_program(env, prog, w, args=(), key="program", mode="cli"):
    """Through fql, against the model"""
    before = {t.file: t.data() for t in w.tables}
    text = prog.sql()
    prog.run(w)
    d = env.dir(before)
    o = env.cli(text, d=d, args=["-q"] + list(args))
    env.log[-1]["files"] = before
    if w.out:
        cases.check_cli(env, w.out, o, key=key)
    elif o.code != 0 or o.out:
        env.fail(key + (" refused" if o.code else ""),
                 "exit status %d, printed %s" % (o.code,
                                                 cases.show_bytes(o.out)))
    check_files(env, w.tables, before, dict(o.files), key + " file")
    for k, n in w.counts.items():
        env.count(k, n)
    return o


def typed_expr(r, g, kind, d=1):
    """an expression a column of this kind can be set to"""
    if kind == "i":
        return g.int(d)
    if kind == "f":
        return r.choice([g.float, g.float, g.int])(d)
    if kind == "k":
        c = g.col("k")
        return c if c is not None and r.random() < .3 else \
            Const(r.randint(0, 6))
    if kind == "w":
        c = g.col("w")
        return c if c is not None and r.random() < .3 else \
            Const(r.choice([b"ab", b"AB", b"cd", b"zz"]))
    return g.str(d)
