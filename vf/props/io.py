"""The same statements over other forms of files: dialects (Q15), names of
tables (Q17), schemas and fixed width (Q18), standard input (Q21)."""
import collections
import random
import re

from .. import cases, gen, sql as M
from ..cases import Via
from ..gen import G
from ..prog import (Into, Program, Show, Update, World, check_files,
                    run_program)
from ..sql import Cmp, Const, Select, Table
from . import engine
from .change import change, look, some_table
from .query import fix_names

CARRY = sorted(set(engine.CARRY) - {"Q19 imported"}) + [
    "Q10 changes", "Q19 programs_changing", "Q06 join"]


def carried(env, names=CARRY):
    r = env.rng
    n = r.choice(names)
    env.count("of " + n)
    env.timeout = 30
    gen.REF_ONLY = True
    gen.MADE = env.via.made
    gen.NAMER = env.via.namer
    try:
        engine.BASE[n](env)
    finally:
        gen.REF_ONLY = False
        gen.MADE = gen.NAMER = None


# ------------------------------------------------------------------- dialects

def serialize(rows, r, delim=b",", term=b"\n", how="some", last=True):
    """how: `some' quotes more than needed, `need', `all', `none'"""
    out = []
    for x in rows:
        o = []
        for v in x:
            need = any(c in v for c in (b'"', b"\n", b"\r")) or \
                delim in v or v[:1] in (b" ", b"\t") or \
                v[-1:] in (b" ", b"\t") or \
                (len(delim) > 1 and (v[:1] in delim or v[-1:] in delim))
            if how == "none":
                if need:
                    raise M.Skip
            elif need or how == "all" or (how == "some" and r.random() < .2):
                v = b'"' + v.replace(b'"', b'""') + b'"'
            o.append(v)
        out.append(delim.join(o))
    b = term.join(out)
    return b + term if last and out else b


class Dialect(Via):
    DELIMS = [b",", b";", b"\t", b"|", b"::", b"~", b"a|b", b" ; "]

    def __init__(self, r):
        self.r = r
        self.seed = r.random()
        self.ind = r.choice(self.DELIMS) if r.random() < .6 else b","
        self.outd = r.choice(self.DELIMS) if r.random() < .5 else None
        self.term = r.choice([b"\n", b"\n", b"\r\n"])
        self.last = r.random() < .8
        self.how = r.choice(["need", "some", "some", "all"])
        self.instd = r.choice([None, None, "RFC4180", "ALL"])
        if r.random() < .1:
            self.how, self.instd = "none", "NONE"
        self.outstd = r.choice([None, None, "RFC4180", "ALL"])
        self.crlf = r.random() < .3
        self.no_header = r.random() < .15
        self.into = False
        self.given = self.ind != b"," or r.random() < .2

    def files(self, files):
        o = {}
        for n, b in files.items():
            if n.endswith(".csv"):
                b = serialize(cases.parse_csv(b), random.Random(
                    "%s %s" % (self.seed, n)), self.ind, self.term, self.how,
                    self.last)
            o[n] = b
        return o

    def text(self, sql):
        self.into = self.into or " INTO " in sql
        # what is selected from nothing is delimited by commas
        if sql.count("SELECT") != sql.count("FROM ") or \
                re.search(r"DECLARE|UPDATE|DELETE", sql):
            self.outd = self.outd or self.r.choice(self.DELIMS)
        return sql

    def args(self, mode):
        o = []
        if self.into and self.outd is not None:
            # what is written is read again
            self.given = True
            self.outd = self.ind
        self.headless = self.no_header and not self.into
        for k, n, v in (("-s", "in_delim", self.ind if self.given else None),
                        ("-S", "out_delim", self.outd),
                        ("--in-std", "in_std", self.instd),
                        ("--out-std", "out_std", self.outstd)):
            if v is not None:
                v = v if isinstance(v, str) else v.decode()
                o += ["set:%s=%s" % (n, v)] if mode == "api" else \
                    [k, v] if self.r.random() < .5 or k[1] == "-" else \
                    [k + v]
        if self.crlf:
            o += ["set:crlf_output=1"] if mode == "api" else ["-W"]
        if self.headless:
            o += ["set:print_header=0"] if mode == "api" else ["-h"]
        return o

    def canon(self, b, delim, term, quoted):
        """CSV again, if it has the form that was asked for"""
        if b and not b.endswith(term):
            return b"\0 record not terminated\n" + b
        try:
            rows = cases.parse_csv(b, delim)
        except ValueError as e:
            return b"\0 %s\n" % str(e).encode() + b
        want = serialize(rows, None, delim, term,
                         "all" if quoted else "need")
        # (nothing at all is not quoted)
        if quoted and b.replace(b'""', b"") != want.replace(b'""', b""):
            return b"\0 not all quoted\n" + b
        if term == b"\n" and b"\r\n" in re.sub(rb'"[^"]*"', b"", b):
            return b"\0 a carriage return\n" + b
        if term == b"\r\n" and re.search(rb"(?<!\r)\n",
                                         re.sub(rb'"[^"]*"', b"", b)):
            return b"\0 no carriage return\n" + b
        return b"".join(b",".join(M.quote(v) for v in x) + b"\n"
                        for x in rows)

    def out(self, mode, out):
        if mode == "api":
            return out
        d = self.ind if self.outd is None else self.outd
        return self.canon(out, d, b"\r\n" if self.crlf else b"\n",
                          self.outstd == "ALL")

    def back(self, files):
        o = {}
        for n, b in files.items():
            if n.endswith(".csv"):
                try:
                    b = b"".join(b",".join(M.quote(v) for v in x) + b"\n"
                                 for x in cases.parse_csv(b, self.ind))
                except ValueError as e:
                    b = b"\0 %s" % str(e).encode()
            o[n] = b
        return o


def dialect(env):
    env.via = Dialect(env.rng)
    carried(env)


# -------------------------------------------------------------------- schemas

class Named(Via):
    """headers move from the files into schemas"""

    def __init__(self, r):
        self.r = r
        self.heads = {}
        self.which = {}
        self.pad = r.random() < .3
        self.one = r.random() < .3      # its rows' columns are known by order

    def files(self, files):
        o = {}
        for n, b in files.items():
            if n not in self.which:
                self.which[n] = n.endswith(".csv") and self.r.random() < .8 \
                    and n[:-4] + self.r.choice(["cols", " c l.x", "_S.txt"])
            if not self.which[n]:
                o[n] = b
                continue
            rows = cases.parse_csv(b)
            if len(rows) < 2 or len(rows[1]) < len(rows[0]):
                # columns beyond the first record are not known
                raise M.Skip
            h = self.heads[n] = rows[0]
            o[n] = b"".join(b",".join(map(M.quote, x)) + b"\n"
                            for x in rows[1:])
            if any(c != c.strip() or b"," in c for c in h):
                raise M.Skip
            o[self.which[n]] = b"".join(
                (b"  %s  " % c if self.pad else c) + b"\n" for c in h)
        return o

    def text(self, sql):
        for n, s in self.which.items():
            if s:
                s = s.rsplit(".", 1)[0] if self.r.random() < .5 else s
                s = s.upper() if self.r.random() < .2 else s
                sql = sql.replace("[%s]" % n, "[%s].[%s]" % (s, n))
        return sql

    def args(self, mode):
        return ["set:schema_path=.", "set:add_header=1"] if mode == "api" \
            else ["--schema-path", ".", "-H"]

    def back(self, files):
        o = {}
        for n, b in files.items():
            if n in self.heads:
                b = b",".join(map(M.quote, self.heads[n])) + b"\n" + b
            elif n in self.which.values():
                continue
            o[n] = b
        return o


def named(env):
    env.via = Named(env.rng)
    carried(env)


class NoHeader(Named):
    """no headers, and columns that go by their numbers"""

    def __init__(self, r):
        super().__init__(r)
        self.all = r.random() < .5      # for all tables, by option

    @staticmethod
    def namer(n):
        return ["__%d" % (i + 1) for i in range(n)]

    def files(self, files):
        o = {}
        for n, b in files.items():
            self.which[n] = n
            rows = cases.parse_csv(b)
            if len(rows) < 2 or len(rows[1]) < len(rows[0]):
                raise M.Skip
            self.heads[n] = rows[0]
            o[n] = b"".join(b",".join(map(M.quote, x)) + b"\n"
                            for x in rows[1:])
        return o

    def text(self, sql):
        if " INTO " in sql:
            raise M.Skip
        for n in self.which:
            if not self.all:
                sql = sql.replace("[%s]" % n, "%s.[%s]" % (
                    self.r.choice(["noheader", "NoHeader", "[noheader]"]), n))
        return sql

    def args(self, mode):
        if mode == "api":
            return ["set:add_header=1"] + (
                ["set:schema=noheader"] if self.all else [])
        return ["-H"] + (["--schema=noheader"] if self.all else [])


def noheader(env):
    env.via = NoHeader(env.rng)
    carried(env, [n for n in CARRY if "Q19" not in n])


# ---------------------------------------------------------------- fixed width

class Fixed(Via):
    """columns of fixed width"""
    fixed = True

    def __init__(self, r):
        self.r = r
        self.tables = {}
        self.mixed = r.random() < .25
        self.main = True
        self.fresh = ()          # tables the program makes
        self.suffix = r.choice(["", ".txt"])

    def made(self, t):
        if any(len(x) < len(t.cols) for x in t.rows):
            raise M.Skip
        if self.mixed and self.r.random() < .5:
            self.tables[t.file] = None
            return
        self.tables[t.file] = t
        self.width(t)

    def width(self, t):
        r = self.r
        t.widths = [max([len(x[i]) for x in t.rows] + [1]) +
                    r.choice([0, 0, 1, 2, 5]) for i in range(len(t.cols))]
        left = [k in "ifk" for _, k in t.cols]
        t.rows = [[v.rjust(w) if l and v else v.ljust(w)
                   for v, w, l in zip(x, t.widths, left)] for x in t.rows]
        # a number nobody wrote is blank and no number
        if any(l and not x[i].strip() for x in t.rows
               for i, l in enumerate(left)):
            raise M.Skip

    def files(self, files):
        o = {}
        for n, b in files.items():
            t = self.tables.get(n)
            if n not in self.tables:
                raise M.Skip
            if t is None:
                o[n] = b
                continue
            rows = cases.parse_csv(b)[1:]
            for x in rows:
                if [len(v) for v in x] != t.widths:
                    raise M.Skip
            o[n] = b"".join(b"".join(x) for x in rows)
            if any("," in c for c, _ in t.cols):
                raise M.Skip
            o["f " + n[:-4] + self.suffix] = b"".join(
                b"%s,%d,char\n" % (c.encode(), w)
                for (c, _), w in zip(t.cols, t.widths))
        return o

    def text(self, sql):
        if "SELECT (SELECT" in sql:
            raise M.Skip         # from nothing: that is CSV
        if any(t is None for t in self.tables.values()):
            flat = sql
            while True:
                x = re.sub(r"(?<!FROM )\([^()]*\)", "", flat)
                if x == flat:
                    break
                flat = x
            a = re.match(r".*?FROM (\(|\[.*?\])", flat)
            if not a or a[1] == "(":
                raise M.Skip
            self.main = self.tables.get(a[1][1:-1]) is not None
        for n, t in self.tables.items():
            if t is not None and n not in self.fresh:
                s = self.r.choice([n[:-4], n[:-4] + self.suffix])
                sql = sql.replace("[%s]" % n, "[f %s].[%s]" % (s, n))
        return sql

    def args(self, mode):
        return ["set:schema_path=."] if mode == "api" else \
            ["--schema-path", "."]

    def back(self, files):
        o = {}
        for n, b in files.items():
            t = self.tables.get(n)
            if t is not None:
                w = sum(t.widths)
                if len(b) % w:
                    b = b"\0 %d is no multiple of %d" % (len(b), w)
                else:
                    rows = [[c for c, _ in t.cols]]
                    rows[0] = [c.encode() for c in rows[0]]
                    for k in range(0, len(b), w):
                        x, at = [], k
                        for i in t.widths:
                            x.append(b[at:at + i])
                            at += i
                        rows.append(x)
                    b = b"".join(b",".join(map(M.quote, x)) + b"\n"
                                 for x in rows)
            elif n.startswith("f "):
                continue
            o[n] = b
        return o

    def check(self, env, results, obs, key):
        if not self.main:
            self.fixed = False
            return cases.check_cli(env, results, obs, key=key)
        groups = []
        for res in results:
            rows = [self.row(x) for x in res.rows]
            top = getattr(res, "top", None)
            n = len(rows) if top is None else min(top, len(rows))
            keys = getattr(res, "keys", None)
            if keys is None:
                keys = range(len(rows)) if res.ordered else [0] * len(rows)
            at = 0
            while at < n:
                end = at
                while end < len(rows) and keys[end] == keys[at]:
                    end += 1
                groups.append((rows[at:end], min(end, n) - at))
                at = end
            env.count("rows_compared", n)
        out = obs.out.replace(b"-0.000000", b"0.000000")
        groups = [([x.replace(b"-0.000000", b"0.000000") for x in g], n)
                  for g, n in groups]
        ok = spell(out, groups)
        if ok is None:
            raise cases.Inconclusive
        if not ok:
            env.fail(key, "not the records expected: %s" % groups[:30])

    def row(self, x):
        if any(v is None for v in x):
            raise M.Skip         # its width depends on where it is from
        return b"".join(map(cases.text_of, x))


def spell(b, groups):
    """Is b made of the groups' texts, of each group as many as it says,
    in any order?  None: too many tries."""
    tries = [20000]

    def go(at, gi, left, n):
        while n == 0:
            gi += 1
            if gi == len(groups):
                return at == len(b)
            left = collections.Counter(groups[gi][0])
            n = groups[gi][1]
        if tries[0] <= 0:
            raise OverflowError
        tries[0] -= 1
        for t in sorted((t for t in left if left[t]), key=len, reverse=True):
            if b.startswith(t, at):
                left[t] -= 1
                if go(at + len(t), gi, left, n - 1):
                    return True
                left[t] += 1
        return False
    try:
        return go(0, -1, None, 0)
    except (OverflowError, RecursionError):
        return None


def fixed(env):
    env.via = Fixed(env.rng)
    carried(env, [n for n in FIXED if n != "Q10 changes" or
                  not env.via.mixed])


FIXED = ["Q01 scan", "Q01 star", "Q06 join", "Q07 grouped", "Q07 totals",
         "Q07 distinct", "Q07 group_join", "Q08 order", "Q08 order_join",
         "Q08 top", "Q09 in_subquery", "Q09 derived", "Q09 scalar_subquery",
         "Q10 one_change", "Q10 changes", "Q10 change_join"]


def fixed_into(env):
    """SELECT INTO from a file of fixed width, and what that wrote"""
    r = env.rng
    v = env.via = Fixed(r)
    v.mixed = False
    gen.MADE = v.made
    try:
        t = some_table(r, "t.csv", nulls=0)
    finally:
        gen.MADE = None
    cols = gen.columns(t, t.file)
    picked = r.sample(cols, r.randint(1, len(cols)))
    for kind in "ks":
        if not any(c.kind == kind for c in picked):
            picked.append(next(c for c in cols if c.kind == kind))
    star = r.random() < .15
    if star:
        picked = cols
    sel = fix_names(Select([(c, None) for c in picked],
                           [(t, None, None, None)],
                           where=G(r, cols).pred(1)))
    if star:
        plain = sel.sql
        sel.sql = lambda: "SELECT * INTO [o.csv] " + plain()[
            plain().index("FROM"):]
    new = Table("o.csv", [t.cols[c.idx] for c in picked], [])
    new.widths = [t.widths[c.idx] for c in picked]
    into = Into(sel, new)
    stmts = [into]
    gen.REF_ONLY = True
    # it is of fixed width, as the rest of the program knows
    for _ in range(r.randint(0, 3)):
        k = r.random()
        if k < .5:
            s = look(r, new)
            if isinstance(s, Show) and "SELECT (" in s.sql():
                continue
            stmts.append(s)
        else:
            stmts.append(change(r, new, []))
    gen.REF_ONLY = False
    p = Program(stmts, r)
    w = World([t])
    v.tables["o.csv"] = new
    v.fresh = {"o.csv"}
    run_program(env, p, w, (), "fixed into")
    env.nontrivial = bool(new.rows)


def truncated(env):
    """a value that does not fit its column is refused, and nothing is lost"""
    r = env.rng
    v = env.via = Fixed(r)
    v.mixed = False
    gen.MADE = v.made
    try:
        t = some_table(r, "t.csv", nulls=0, rows=r.choice([1, 2, 5, 20]))
    finally:
        gen.MADE = None
    k = r.randrange(len(t.rows))
    i = r.randrange(len(t.cols))
    w = t.widths[i]
    n = w + r.choice([-1, 0, 0, 1, 1, 2, 30])
    cols = gen.columns(t, t.file)
    j = r.randrange(len(t.cols))
    key = t.rows[k][j]
    e = Const(b"z" * n)
    s = Update(t, t.file, [(i, cols[i].name, "", e)],
               Cmp("=", cols[j], Const(key.rstrip(b" "))), t.ref)
    before = t.data()
    text = s.sql()
    try:
        s.run(World([t]))
        fits = True
    except M.Err:
        fits = False
    d = env.dir({"t.csv": before})
    o = env.cli(text, d=d, args=["-q"])
    env.count("fits" if fits else "truncated")
    if fits:
        if o.code or o.out:
            env.fail("refused", "an UPDATE whose values fit was refused")
        check_files(env, [t], {}, dict(o.files), "update")
    else:
        if o.code == 0:
            env.fail("not refused", "a value of %d bytes was written to a "
                     "column of %d" % (n, w))
        if o.files.get("t.csv") != before:
            env.fail("changed", "the refused UPDATE changed the file")
    env.nontrivial = True


# ---------------------------------------------------------------------- names

def variant(r, s):
    for _ in range(9):
        v = "".join(r.choice([c.upper(), c.lower()])
                    if c.isascii() else c for c in s)
        if v != s:
            return v
    raise M.Skip


def noext(n):
    return n.rsplit(".", 1)[0] if "." in n else n


def resolve(names, s, strict=False):
    """which file a table's name means, None if none, False if several"""
    if s in names:
        return s
    if strict:
        return None
    for f in (lambda n: n.lower() == s.lower(), lambda n: noext(n) == s,
              lambda n: noext(n).lower() == s.lower()):
        m = [n for n in names if f(n)]
        if m:
            return m[0] if len(m) == 1 else False
    return None


DECOY = b"decoy,n\n1,2\n"


class Names(Via):
    """files go by other names than in the statements, beside others"""

    def __init__(self, r):
        self.r = r
        self.to = {}
        self.decoys = {}
        self.said = {}

    def disk(self, n):
        if n in self.to:
            return self.to[n]
        r = self.r
        stem = "%s%d%s" % (r.choice(["", "t", "My "]), len(self.to), r.choice(
            ["data", "Data", "my file", "x.y", "A", "höhe", "a-b"]))
        d = stem + r.choice(["", ".csv", ".CSV", ".txt", ".Tbl"])
        where = r.choice(["", "", "", "sub/", "sub dir/in.ner/"])
        k = r.randrange(4)
        names = {d}
        stem = noext(d)
        # others, by which the name does not mean something else
        for _ in range(r.randint(0, 4)):
            x = r.choice([stem, variant(r, stem), stem + "2", "z" + d,
                          stem + ".bak", variant(r, d), noext(d) + ".csv",
                          noext(d) + ".x.csv", variant(r, noext(d)) + ".tsv"])
            names.add(x)
        can = [s for s in (d, variant(r, d), noext(d), variant(r, noext(d)))]
        can = [s for s in can if resolve(names, s) == d]
        if not can:
            raise M.Skip
        self.said[n] = [where + s for s in can] + \
            (["./" + where + s for s in can] if r.random() < .2 else [])
        for x in names - {d}:
            self.decoys[where + x] = DECOY + x.encode()
        self.to[n] = where + d
        return self.to[n]

    def files(self, files):
        o = {self.disk(n): b for n, b in files.items()}
        o.update(self.decoys)
        return o

    def text(self, sql):
        loose = not re.search(r"\b(UPDATE|DELETE)\b", sql)
        for n, can in self.said.items():
            s = self.r.choice(can)
            sql = re.sub(re.escape("[%s]" % n), lambda m: "[%s]" % (
                self.r.choice(can) if loose else s), sql)
        return sql

    def back(self, files):
        o = {}
        back = {v: k for k, v in self.to.items()}
        for n, b in files.items():
            if n in self.decoys:
                if b == self.decoys[n]:
                    continue
                b = b"\0 decoy changed"
            o[back.get(n, n)] = b
        for n in self.decoys:
            if n not in files:
                o["decoy is gone " + n] = b""
        return o


def names(env):
    env.via = Names(env.rng)
    carried(env)


POOL = ["data", "Data", "DATA", "data.csv", "Data.csv", "DATA.CSV",
        "data.txt", "Data.TXT", "data.csv.bak", "dat", "data.", "data2.csv",
        "other.csv", "x data.csv"]


def which(env):
    """the file a name means among any others, or none"""
    r = env.rng
    names = r.sample(POOL, r.randint(1, 5))
    said = r.choice(POOL + names * 3 + [variant(r, r.choice(names)),
                                        noext(r.choice(names)), "DaTa"] * 3)
    strict = r.random() < .25
    where = r.choice(["", "", "d/", "./"])
    files = {where.replace("./", "") + n: b"f,n\n%s,1\n%s,2\n" % (
        n.encode(), n.encode()) for n in names}
    if where == "d/":
        files.update({"data": b"f,n\nwrong,1\n", "other.csv": b"f\nbad\n"})
    got = resolve(set(names), said, strict)
    k = r.random()
    s = "[%s]" % (where + said)
    if k < .6:
        text = r.choice(["SELECT f FROM %s", "SELECT x.f FROM %s x",
                         "SELECT f FROM %s ORDER BY n",
                         "SELECT DISTINCT f, f FROM %s"]) % s
    elif k < .8:
        text = "UPDATE %s SET n = n + 'z' WHERE n = 2" % s
    else:
        text = "DELETE %s WHERE n = 2" % s
    d = env.dir(files)
    o = env.cli(text, d=d, args=["-q"] + (["--strict"] if strict else []),
                leaks=bool(got))
    want = dict(files)
    env.count("means_one" if got else "means_none" if got is None
              else "ambiguous")
    if got:
        if o.code != 0:
            env.fail("name refused", "%r means %r" % (said, got))
        p = where.replace("./", "") + got
        g = got.encode()
        if k >= .6:
            want[p] = b"f,n\n%s,1\n" % g + (
                b"%s,2z\n" % g if k < .8 else b"")
        elif "DISTINCT" in text:
            if cases.parse_csv(o.out) != [(b"f", b"f"), (g, g)]:
                env.fail("another file", "%r means %r" % (said, got))
        elif cases.parse_csv(o.out) != [(b"f",), (g,), (g,)]:
            env.fail("another file", "%r means %r" % (said, got))
    else:
        if o.code == 0:
            env.fail("name not refused", "%r means %s" % (
                said, "none" if got is None else "several"))
        if o.out:
            env.fail("refused, but printed", "%r" % said)
    if o.files != want:
        env.fail("name files", "the files are not as expected")
    env.nontrivial = True


# ------------------------------------------------------------- standard input

class Stdin(Via):
    """one of the tables comes through standard input"""

    def __init__(self, r, inner=None):
        self.r = r
        self.inner = inner or Via()
        self.namer = self.inner.namer
        self.which = None
        self.seen = {}

    fixed = property(lambda self: self.inner.fixed)
    headless = property(lambda self: self.inner.headless)

    def made(self, t):
        self.inner.made(t)

    def check(self, *a):
        self.inner.check(*a)

    def files(self, files):
        self.seen = files
        return self.inner.files(files)

    def run(self, mode, args, stdin):
        sql = " ".join(args)
        if stdin or re.search(r"\b(UPDATE|DELETE)\b", sql) and \
                self.r.random() < .9:
            raise M.Skip
        can = [n for n in self.seen if sql.count("[%s]" % n) == 1 and
               not re.search(r"(UPDATE|DELETE|DELETE FROM|INTO) \[%s\]"
                             % re.escape(n), sql) and
               not re.search(r"(UPDATE|DELETE) (\w+) .*FROM \[%s\] \2"
                             % re.escape(n), sql, re.S)]
        if not can:
            raise M.Skip
        self.which = self.r.choice(can)
        data = self.inner.files(self.seen)[self.which]
        args, _ = self.inner.run(mode, args, b"")
        name = self.r.choice(["__stdin", "__STDIN", "[__stdin]"])
        if mode == "api":
            args = ["set:allow_stdin=1"] + args
        return [a.replace("[%s]" % self.which, name) for a in args], data

    def back(self, files):
        return self.inner.back(files)

    def out(self, mode, out):
        return self.inner.out(mode, out)


def stdin(env):
    r = env.rng
    k = r.random()
    inner = Dialect(r) if k < .2 else Named(r) if k < .35 else \
        Fixed(r) if k < .5 else None
    env.via = Stdin(r, inner)
    env.again = r.random() < .25 and not env.via.fixed
    carried(env, FIXED if env.via.fixed else CARRY)


def stdin_refused(env):
    """where standard input is not for the taking"""
    r = env.rng
    t = gen.table(r, "t.csv")
    f = {"t.csv": t.data()}
    k = r.randrange(4)
    one = r.choice(["SELECT * FROM __stdin", "SELECT COUNT(*) FROM __STDIN",
                    "SELECT (SELECT COUNT(*) FROM [__stdin]) AS n",
                    "SELECT t.* FROM [t.csv] t, __stdin s"])
    if k == 0:           # through the API, unless it is allowed
        ops = ["make:" + one, "stepall"]
        if r.random() < .5:
            ops.insert(0, "set:allow_stdin=0")
        o = env.api(ops, f, stdin=b"a\n1\n", keep=True, leaks=False)
        bad = any(l[0] == "rc" and l[1] == "make" and l[2] < 0
                  for l in cases.api_lines(o.out))
        out = any(l[0] == "row" for l in cases.api_lines(o.out))
    elif k == 1:         # the statements come from there
        o = env.exec("cli", ["-q"], f, stdin=one.encode() + b"\n",
                     keep=True, leaks=False)
        bad, out = o.code != 0, bool(o.out)
    else:                # more than once
        two = r.choice([one + "; " + one,
                        "SELECT * FROM __stdin a, __stdin b",
                        "SELECT a.* FROM __stdin a JOIN [__STDIN] b ON 1 = 1",
                        "SELECT * FROM __stdin UNION ALL SELECT * FROM "
                        "__stdin",
                        "SELECT * FROM __stdin WHERE 1 IN (SELECT 1 FROM "
                        "__stdin)"])
        o = env.exec("cli", ["-q", "-c", two], f, stdin=b"a\n1\n",
                     keep=True, leaks=False)
        bad, out = o.code != 0, bool(o.out)
    if not bad:
        env.fail("stdin not refused", "it was read all the same")
    if out:
        env.fail("refused, but printed", "records were printed")
    if o.files != f:
        env.fail("files changed", "files are not what they were")
    env.nontrivial = True


def q15(r):
    r.rule = ("statements of every kind over files in other dialects, with "
              "other dialects asked for, compared with the model after both "
              "are brought back to plain CSV; non-trivial: as in the "
              "property the statement is from")
    cases.drive(r, GENS["Q15"], [
        ("dialect", "plain", r.pick(2500, 80000)),
        ("dialect", "asan", r.pick(60, 4000))])
    cases.known(r)


def q17(r):
    r.rule = ("statements over files named in other ways (case, extension, "
              "folders) beside files of similar names; sets of names with "
              "the rules of resolution as a model; non-trivial: a name was "
              "resolved or refused as expected")
    cases.drive(r, GENS["Q17"], [
        ("names", "plain", r.pick(1200, 40000)),
        ("which", "plain", r.pick(1500, 40000)),
        ("names", "asan", r.pick(40, 3000)),
        ("which", "asan", r.pick(30, 2000))])
    cases.known(r)


def q18(r):
    r.rule = ("statements of every kind over files described by schema files "
              "(named columns, no header, fixed width), compared with the "
              "model after both are brought back to plain CSV; values too "
              "long for a column; non-trivial: as in the property the "
              "statement is from")
    cases.drive(r, GENS["Q18"], [
        ("named", "plain", r.pick(900, 30000)),
        ("noheader", "plain", r.pick(700, 25000)),
        ("fixed", "plain", r.pick(900, 30000)),
        ("fixed_into", "plain", r.pick(600, 20000)),
        ("truncated", "plain", r.pick(400, 15000)),
        ("named", "asan", r.pick(25, 2000)),
        ("noheader", "asan", r.pick(20, 2000)),
        ("fixed", "asan", r.pick(30, 2500)),
        ("fixed_into", "asan", r.pick(20, 1500)),
        ("truncated", "asan", r.pick(10, 1000))])
    cases.known(r)


def q21(r):
    r.rule = ("statements of every kind with one table fed through standard "
              "input, in any dialect or with a schema; uses of it that are "
              "to be refused; non-trivial: as in the property the statement "
              "is from")
    cases.drive(r, GENS["Q21"], [
        ("stdin", "plain", r.pick(1800, 60000)),
        ("stdin_refused", "plain", r.pick(300, 8000)),
        ("stdin", "asan", r.pick(60, 4000)),
        ("stdin_refused", "asan", r.pick(15, 800))])
    cases.known(r)


GENS = {"Q15": {"dialect": dialect},
        "Q17": {"names": names, "which": which},
        "Q18": {"named": named, "noheader": noheader, "fixed": fixed,
                "fixed_into": fixed_into, "truncated": truncated},
        "Q21": {"stdin": stdin, "stdin_refused": stdin_refused}}
ZYG = {}
