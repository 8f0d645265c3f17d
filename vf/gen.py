"""Random tables, expressions, predicates and queries for the model."""
from . import sql as M
from .sql import (Agg, And, Bin, Case, Cast, Cmp, Col, Const, Fn, In, InSub,
                  IsNull, Like, Neg, Not, Or, Select, Sub, Table, Union)

WORDS = [b"apple", b"Apple", b"APPLE ", b"banana", b"b", b"B", b"cherry",
         b"a b", b"abc", b"ABD", b"zeta", b"q", b"Straw", b"straw",
         b"red one", b"x1", b"10", b"7", b"k.k", b"under_score"]
UTF = ["höhe".encode(), "日本語".encode(), "naïve".encode(), "ø".encode(),
       "a€b".encode(), "😀x".encode()]
NASTY = [b"a,b", b'say "hi"', b"two\nlines", b'"', b" lead", b"trail ",
         b"a;b", b"tab\tbed", b"'", b"it's", b"%", b"a_b"]


def ints(r, small=False):
    k = r.random()
    if k < .6 or small:
        return r.randint(-9, 30)
    if k < .9:
        return r.randint(-1000, 100000)
    return r.choice([0, 1, -1, 2**31, -2**31, 2**40, 999999999])


def floats(r):
    return r.randint(-400, 4000) / 4.0


def word(r, utf=.1, nasty=0):
    k = r.random()
    if k < utf:
        return r.choice(UTF)
    if k < utf + nasty:
        return r.choice(NASTY)
    if k < utf + nasty + .03:
        return b""
    if k < .8:
        return r.choice(WORDS)
    return bytes(r.choice(b"abcXYZ019 .") for _ in range(r.randint(1, 9)))


def value(r, kind, nasty=0):
    if kind == "i":
        return b"%d" % ints(r)
    if kind == "k":                     # a small set of keys
        return b"%d" % r.randint(0, 6)
    if kind == "f":
        v = floats(r)
        return r.choice([b"%g" % v, b"%.2f" % v, b"%f" % v])
    if kind == "w":                     # few words, in several spellings
        return r.choice([b"ab", b"AB", b"Ab ", b"cd", b"ef", b"", b"gh"])
    return word(r, nasty=nasty)


SCALE = 1            # times as many records
NAMER = None         # number of columns -> their names
REF_ONLY = False     # tables are only referred to as [file]
MADE = None          # is shown each new table

NAMES = ["id", "amount", "name", "price", "city", "Qty", "note", "ref_1",
         "total sum", "x", "y", "zip"]


def table(r, file="t.csv", kinds=None, rows=None, nulls=.3, nasty=0,
          names=None):
    """kinds: i int text, f float text, s string, k key, w word class"""
    if kinds is None:
        kinds = "ifs" + "".join(r.choice("ifskw")
                                for _ in range(r.randint(0, 2)))
        kinds = "".join(r.sample(kinds, len(kinds)))
    if names is None or NAMER:
        names = NAMER(len(kinds)) if NAMER else r.sample(NAMES, len(kinds))
    n = rows if rows is not None else r.choice(
        [0, 1, 2, 3, 5, 8, 13, 20, 40])
    n *= SCALE
    data = []
    short = r.random() < nulls
    for _ in range(n):
        row = [value(r, k, nasty) for k in kinds]
        if short and r.random() < .3:
            row = row[:r.randint(1, len(row))]
        if row == [b""]:
            row = [b"e"]
        data.append(row)
    t = Table(file, list(zip(names, kinds)), data)
    if MADE:
        MADE(t)
    return t


def ident(n):
    return n if n.replace("_", "a").isalnum() and not n[0].isdigit() \
        else "[" + n + "]"


class TypedCol(Col):
    """of a table that is made in the same text, whose type is known"""

    def ev(self, row):
        v = Col.ev(self, row)
        if v is None:
            return v
        x = M.conv(v, self.t)
        if M.to_s(x) != v:       # as a whole field it is shown as it is
            raise M.Skip
        return x


def columns(t, alias, qualify=False, outer=False):
    acc = []
    for i, (n, k) in enumerate(t.cols):
        ty = t.types[i] if getattr(t, "types", None) else "s"
        c = (Col if ty == "s" else TypedCol)(
            alias, i, ident(n), k, outer or t.nullable(i), ty)
        c.plain = n
        c.qualify = qualify
        acc.append(c)
    return acc


HOOK = None          # (type, random) -> an expression to use in place, or None


class G:
    """generates expressions over some columns"""

    def hooked(self, t):
        return HOOK(t, self.r) if HOOK else None

    def __init__(self, r, cols, vars=(), utf=True):
        self.r, self.cols, self.vars = r, cols, list(vars)
        self.utf = utf

    def col(self, kinds):
        c = [x for x in self.cols if x.kind in kinds]
        return self.r.choice(c) if c else None

    def var(self, t):
        v = [x for x in self.vars if x.t == t]
        return self.r.choice(v) if v else None

    def int(self, d=2):
        r = self.r
        e = self.hooked("i")
        if e is not None:
            return e
        k = r.random()
        if d <= 0 or k < .25:
            v = self.var("i")
            if v is not None and r.random() < .5:
                return v
            c = self.col("ik")
            if c is not None and r.random() < .7:
                return Cast(c, "int")
            return Const(ints(r, True))
        if k < .55:
            op = r.choice("+-*/%&|^+-*")
            a = self.int(d - 1)
            c = self.col("ik")
            if c is not None and r.random() < .3:
                a = c            # a text in an integer operation
            b = self.int(d - 1)
            if op in "/%":
                b = Const(r.choice([1, 2, 3, 7, 10, -3, 64]))
            if a.t == "s" and b.t == "s":
                a = Cast(a, "int")
            if r.random() < .5 and op not in "/%":
                a, b = b, a
            return Bin(op, a, b)
        if k < .62:
            return Neg(r.choice("-~-"), self.int(d - 1))
        if k < .75:
            return Fn("LEN", self.str(d - 1))
        if k < .8:
            return Fn(r.choice(["DATALENGTH", "datalength"]),
                      r.choice([self.str, self.int, self.float])(d - 1))
        if k < .86:
            return Cast(self.float(d - 1), "int")
        if k < .9:
            return Cast(self.int(d - 1), "bit")
        if k < .95:
            return Fn("ISNULL", self.int(d - 1), self.int(d - 1))
        return self.case(self.int, d - 1)

    def float(self, d=2):
        r = self.r
        e = self.hooked("f")
        if e is not None:
            return e
        k = r.random()
        if d <= 0 or k < .3:
            v = self.var("f")
            if v is not None and r.random() < .5:
                return v
            c = self.col("fik")
            if c is not None and r.random() < .7:
                return Cast(c, "float")
            return Const(floats(r))
        if k < .75:
            op = r.choice("+-*/+-*")
            a, b = self.float(d - 1), r.choice([self.float,
                                                self.int])(d - 1)
            if op == "/":
                b = Const(r.choice([2.0, 0.5, 4, 8.0]))
            elif r.random() < .3:
                c = self.col("fik")
                if c is not None:
                    b = c
            if r.random() < .4 and op != "/":
                a, b = b, a
            if fold(a, b) != "f":
                return self.float(0)
            return Bin(op, a, b)
        if k < .82:
            return Neg("-", self.float(d - 1))
        if k < .88:
            return Cast(self.int(d - 1), "float")
        if k < .94:
            return Fn("ISNULL", self.float(d - 1), self.float(d - 1))
        c = self.case(lambda d: r.choice([self.float, self.float,
                                          self.int])(d), d - 1)
        return c if c.t == "f" else self.float(0)

    def str(self, d=2):
        r = self.r
        e = self.hooked("s")
        if e is not None:
            return e
        k = r.random()
        if d <= 0 or k < .4:
            v = self.var("s")
            if v is not None and r.random() < .5:
                return v
            c = self.col("sifkw")
            if c is not None and c.t == "s" and r.random() < .8:
                return c
            w = word(r, .1 if self.utf else 0)
            return Const(w)
        if k < .55:
            return Bin("+", self.str(d - 1), self.str(d - 1))
        if k < .65:
            return Fn(r.choice(["LEFT", "RIGHT", "left"]), self.str(d - 1),
                      Const(r.randint(0, 9)))
        if k < .73:
            return Fn("SUBSTRING", self.str(d - 1), Const(r.randint(-2, 6)),
                      Const(r.randint(0, 9)))
        if k < .8:
            return Fn("REPLACE", self.str(d - 1),
                      Const(r.choice([b"a", b"A", b"b", b"an", b" ", b"pp",
                                      b"", b"1"])),
                      Const(r.choice([b"", b"x", b"--", b"aa"])))
        if k < .88:
            to = r.choice(["varchar", "varchar", "text", "char"])
            n = None if to == "text" else r.randint(1, 12)
            return Cast(r.choice([self.str0, self.int, self.float])(d - 1),
                        to, n)
        if k < .94:
            return Fn("ISNULL", self.str(d - 1), self.str(d - 1))
        return self.case(self.str, d - 1)

    def str0(self, d):
        """a string that can be cut at any byte"""
        c = self.col("ifkw")
        return c if c is not None and c.t == "s" else Const(b"ab cd")

    def case(self, f, d):
        r = self.r
        n = r.randint(1, 3)
        els = f(d) if r.random() < .8 else None
        if r.random() < .4:
            of = self.any(d - 1)
            while has_case(of):
                of = self.any(0)
            g = {"i": self.int, "f": self.float, "s": self.str}[of.t]
            return Case([(g(0), f(d)) for _ in range(n)], els, of)
        return Case([(self.pred(d - 1), f(d)) for _ in range(n)], els)

    def any(self, d=2):
        return self.r.choice([self.int, self.float, self.str])(d)

    def pair(self, d):
        """two expressions that can be compared"""
        r = self.r
        k = r.random()
        if k < .3:
            a, b = self.int(d), self.int(d)
        elif k < .45:
            a, b = self.float(d), r.choice([self.float, self.int])(d)
        elif k < .6:
            c = self.col("ik")
            a, b = (c if c is not None else self.int(0)), self.int(d)
        elif k < .7:
            c = self.col("fik")
            a, b = (c if c is not None else self.float(0)), self.float(d)
        else:
            a, b = self.str(d), self.str(d)
        return (a, b) if r.random() < .6 else (b, a)

    def pred(self, d=2, safe=False):
        r = self.r
        k = r.random()
        if d > 0 and k < .3:
            cls = r.choice([And, Or])
            return cls(*[self.pred(d - 1, safe)
                         for _ in range(r.randint(2, 3))])
        if d > 0 and k < .38:
            p = self.pred(d - 1, True)
            if not p.nullable():
                return Not(p)
            return p
        if k < .45:
            return IsNull(self.any(d - 1), r.random() < .5)
        if k < .55:
            a = self.any(d - 1)
            g = {"i": self.int, "f": self.float, "s": self.str}[a.t]
            items = [g(0) for _ in range(r.randint(1, 4))]
            if a.t == "s" and any(x.t != "s" for x in items):
                items = [Const(word(r))]
            p = In(a, items, r.random() < .25)
            if p.neg and p.nullable():
                p.neg = False
            return p
        if k < .65:
            a = self.str(d - 1)
            p = Like(a, Const(pattern(r)), r.random() < .2)
            if p.neg and p.nullable():
                p.neg = False
            if self.nonascii(a) and b"_" in p.pat.v:
                p.pat = Const(p.pat.v.replace(b"_", b"%"))
            return p
        a, b = self.pair(d - 1)
        return Cmp(r.choice(["=", "<>", "<", "<=", ">", ">=", "=", "!="])
                   if r.random() < .95 else
                   r.choice(["!<", "!>", "< =", "> =", "< >"]),
                   a, b)

    def nonascii(self, e):
        return self.utf


def has_case(e):
    return isinstance(e, (Case, Sub)) or any(map(has_case, e.kids()))


def fold(a, b):
    return M.fold(a.t, b.t)


def pattern(r):
    o = b""
    for _ in range(r.randint(1, 5)):
        o += r.choice([b"%", b"%", b"_", b"a", b"b", b"A", b"an", b"p", b"[a-c]",
                       b"[^b]", b"[abx]", b" ", b"1", b"e", b".", b"*",
                       b"(", b"+", b"\\", b"?", b"$", b"|"])
    return o


def select_items(r, g, n=None):
    items = []
    for k in range(n or r.randint(1, 5)):
        e = g.any(r.randint(0, 3))
        if isinstance(e, Col) and r.random() < .6:
            items.append((e, None))
        else:
            items.append((e, "c%d" % k))
    return items


def names_of(sel):
    """what the header shows"""
    o = []
    for e, a in sel.items:
        o.append(a if a else getattr(e, "plain", ""))
    return o
