"""A reference model of the SQL fql implements: expressions with static types
and an evaluator, tables, queries, and random generators for all of them.

Values: None (NULL), int, float, bytes.  Types: 'i', 'f', 's'."""
import functools
import math
import re

WS = b" \t\n\v\f\r"
LMIN, LMAX = -2**63, 2**63 - 1


class Err(Exception):
    """The statement fails."""


class Skip(Exception):
    """The model does not say what happens."""


def fold(a, b):
    """the type two operands are brought to"""
    if a == b:
        return a
    if a == "s":
        return b
    if b == "s":
        return a
    return "f"


_INT = re.compile(rb"[ \t\n\v\f\r]*[+-]?\d+\Z")
_HEX = re.compile(rb"0x[0-9a-fA-F]+\Z")
_FLT = re.compile(rb"[ \t\n\v\f\r]*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")


def to_i(v):
    if v is None or isinstance(v, int):
        return v
    if isinstance(v, float):
        if not -2.0**63 <= v < 2.0**63:
            raise Skip
        return int(v)
    if v == b"":
        return 0
    if _INT.match(v):
        n = int(v)
    elif _HEX.match(v):
        n = int(v, 16)
    elif re.match(rb"[ \t\n\v\f\r]*[+-]?0x", v) or not v.strip(WS):
        raise Skip
    else:
        raise Err("not an integer: %r" % v)
    if not LMIN <= n <= LMAX:
        raise Err("integer out of range")
    return n


def to_f(v):
    if v is None or isinstance(v, float):
        return v
    if isinstance(v, int):
        return float(v)
    if v == b"":
        return 0.0
    if _FLT.match(v):
        f = float(v)
        if math.isinf(f) or abs(f) < 2.3e-308 and \
                re.match(rb"[^eE]*[1-9]", v):
            raise Err("float out of range")
        return f
    if re.match(rb"[ \t\n\v\f\r]*[+-]?(0[xX]|inf|nan)", v, re.I) \
            or not v.strip(WS):
        raise Skip
    raise Err("not a float: %r" % v)


def to_s(v):
    if v is None or isinstance(v, bytes):
        return v
    if isinstance(v, int):
        return b"%d" % v
    return b"%f" % v


def conv(v, t):
    return {"i": to_i, "f": to_f, "s": to_s}[t](v)


def through_text(v):
    """Floats leave groups and derived tables as text with six decimals (a
    recorded finding); the model speaks only where nothing is lost."""
    if isinstance(v, float) and (
            float("%f" % v) != v or v == 0 and str(v)[0] == "-"):
        raise Skip
    return v


def lower(b):
    return b.lower()      # bytes: ASCII only


def norm(b):
    """what equality of strings looks at"""
    return lower(b.rstrip(WS))


def cmp(a, b, t):
    a, b = conv(a, t), conv(b, t)
    if t == "s":
        a, b = norm(a), norm(b)
    return (a > b) - (a < b)


def chars(b):
    try:
        return len(b.decode("utf-8"))
    except UnicodeDecodeError:
        raise Skip


def lit(b):
    """a string literal"""
    return "'" + b.decode("utf-8").replace("'", "''") + "'"


# ------------------------------------------------------------- expressions

class E:
    t = "s"
    nullable = True

    def kids(self):
        return []

    def const(self):
        k = self.kids()
        return bool(k) and all(x.const() for x in k)


class Const(E):
    def __init__(self, v, text=None):
        self.v = v
        self.t = "i" if isinstance(v, int) else \
            "f" if isinstance(v, float) else "s"
        self.text = text
        self.nullable = v is None

    def sql(self):
        if self.text:
            return self.text
        if self.v is None:
            return "NULL"
        if self.t == "s":
            return lit(self.v)
        if self.t == "f":
            r = repr(self.v)
            return r if "." in r else r + ".0"
        return str(self.v)

    def ev(self, row):
        return self.v

    def const(self):
        return True


class Col(E):
    def __init__(self, src, idx, name, kind, nullable, t="s"):
        self.src, self.idx, self.name, self.kind = src, idx, name, kind
        self.nullable = nullable
        self.t = t
        self.qualify = False

    def sql(self):
        if self.qualify:
            return "%s.%s" % (self.src, self.name)
        return self.name

    def ev(self, row):
        r = row[self.src]
        if r is None:
            return None
        v = r[self.idx] if self.idx < len(r) else None
        return v

    def const(self):
        return False


# Variables, and a count of the statements that changed anything: what
# subqueries returned before is no longer so.
STATE = {"vars": {}, "epoch": 0}


def changed():
    STATE["epoch"] += 1


class Var(E):
    def __init__(self, name, t, nullable=False, key=None):
        self.name, self.t = name, t
        self.nullable = nullable
        self.key = key or name

    def sql(self):
        return "@" + self.name

    def ev(self, row):
        return STATE["vars"][self.key]

    def const(self):
        return False


def wrap(n):
    if not LMIN <= n <= LMAX:
        raise Err("overflow")
    return n


class Bin(E):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        self.t = fold(a.t, b.t)
        self.nullable = a.nullable or b.nullable

    def kids(self):
        return [self.a, self.b]

    def sql(self):
        def s(x):
            r = x.sql()
            return "(%s)" % r if isinstance(x, (Bin, Neg)) or \
                r.startswith("-") else r
        return "%s %s %s" % (s(self.a), self.op, s(self.b))

    def ev(self, row):
        a = conv(self.a.ev(row), self.t)
        if a is None:
            try:
                conv(self.b.ev(row), self.t)
            except Err:
                raise Skip               # whether it is evaluated at all
            return None
        b = conv(self.b.ev(row), self.t)
        if b is None:
            return None
        return arith(self.op, a, b, self.t)


def arith(op, a, b, t):
    if t == "s":
        if op != "+":
            raise Err("no such operation on strings")
        return a + b
    if t == "f":
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                raise Err("division by zero")
            return a / b
        raise Err("no such operation on floats")
    if op == "+":
        return wrap(a + b)
    if op == "-":
        return wrap(a - b)
    if op == "*":
        return wrap(a * b)
    if op == "/":
        if b == 0:
            raise Err("division by zero")
        q = abs(a) // abs(b)
        return wrap(q if (a < 0) == (b < 0) else -q)
    if op == "%":
        if b == 0:
            raise Err("modulo by zero")
        r = abs(a) % abs(b)
        return -r if a < 0 else r
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    raise AssertionError(op)


class Neg(E):
    def __init__(self, op, a):
        self.op, self.a = op, a
        self.t = a.t
        self.nullable = a.nullable

    def kids(self):
        return [self.a]

    def sql(self):
        r = self.a.sql()
        if isinstance(self.a, (Bin, Neg)) or r.startswith("-"):
            r = "(%s)" % r
        return self.op + r

    def ev(self, row):
        a = self.a.ev(row)
        if a is None:
            return None
        if self.op == "-":
            return wrap(-a) if self.t == "i" else -a
        if self.op == "~":
            return ~a
        return a


class Cast(E):
    """to int, bit, float, text, varchar(n) or char(n)"""

    def __init__(self, a, to, n=None):
        self.a, self.to, self.n = a, to, n
        self.t = {"int": "i", "bit": "i", "float": "f"}.get(to, "s")
        self.nullable = a.nullable

    def kids(self):
        return [self.a]

    def sql(self):
        n = "(%d)" % self.n if self.n is not None else ""
        return "CAST(%s AS %s%s)" % (self.a.sql(), self.to.upper(), n)

    def ev(self, row):
        v = self.a.ev(row)
        if v is None:
            return None
        if self.to == "int":
            return to_i(v)
        if self.to == "bit":
            return int(to_i(v) != 0)
        if self.to == "float":
            return to_f(v)
        s = to_s(v)
        if self.n is not None:
            if self.to == "char":
                if not s.isascii():
                    raise Skip           # counts bytes
                return s[:self.n].ljust(self.n)
            if self.n <= len(s):
                s = _utf(s)[:self.n].encode()
        return s


class Fn(E):
    def __init__(self, name, *args):
        self.name, self.args = name, list(args)
        n = name.upper()
        self.t = {"LEN": "i", "DATALENGTH": "i"}.get(n, "s")
        if n == "ISNULL":
            self.t = args[0].t
            self.nullable = args[1].nullable
        else:
            self.nullable = any(a.nullable for a in args)

    def kids(self):
        return self.args

    def sql(self):
        return "%s(%s)" % (self.name, ", ".join(a.sql() for a in self.args))

    def ev(self, row):
        n = self.name.upper()
        if n == "ISNULL":
            v = self.args[0].ev(row)
            if v is None:
                v = self.args[1].ev(row)
            return conv(v, self.t)
        a = [x.ev(row) for x in self.args]
        if n == "DATALENGTH":
            if a[0] is None:
                return None
            return len(a[0]) if self.args[0].t == "s" else 8
        if None in a:
            return None
        if n == "LEN":
            return chars(to_s(a[0]).rstrip(WS))
        if n in ("LEFT", "RIGHT"):
            s, k = to_s(a[0]), to_i(a[1])
            if k < 0:
                raise Err("negative length")
            if k > len(s):
                return s
            if k == 0:
                return b""
            u = _utf(s)
            return (u[:k] if n == "LEFT" else u[-k:]).encode("utf-8")
        if n == "SUBSTRING":
            s, st, k = to_s(a[0]), to_i(a[1]), to_i(a[2])
            if k < 0:
                raise Err("negative length")
            if st < 1:
                k += st - 1
                st = 1
            if k <= 0:
                return b""
            u = _utf(s)
            return u[st - 1:st - 1 + k].encode("utf-8")
        if n == "REPLACE":
            s, old, new = map(to_s, a)
            if not old:
                return s
            for x in (s, old):
                _utf(x)
            low, lo, o, i = lower(s), lower(old), b"", 0
            while True:
                j = low.find(lo, i)
                if j < 0:
                    return o + s[i:]
                o += s[i:j] + new
                i = j + len(old)
        raise AssertionError(n)


def _utf(b):
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        raise Skip


class Case(E):
    """searched: [(pred, value)]; simple: [(expr, value)] with `of'"""

    def __init__(self, whens, els=None, of=None):
        self.whens, self.els, self.of = whens, els, of
        vals = [v for _, v in whens] + ([els] if els else [])
        self.t = functools.reduce(fold, [v.t for v in vals])
        self.nullable = els is None or any(v.nullable for v in vals)

    def kids(self):
        return []

    def const(self):
        return False

    def sql(self):
        o = "CASE"
        if self.of:
            o += " " + self.of.sql()
        for w, v in self.whens:
            o += " WHEN %s THEN %s" % (w.sql(), v.sql())
        if self.els:
            o += " ELSE " + self.els.sql()
        return o + " END"

    def ev(self, row):
        for w, v in self.whens:
            if self.of:
                a, b = self.of.ev(row), w.ev(row)
                hit = a is not None and b is not None and \
                    cmp(a, b, fold(self.of.t, w.t)) == 0
            else:
                hit = w.test(row)
            if hit:
                return conv(v.ev(row), self.t)
        if self.els:
            return conv(self.els.ev(row), self.t)
        return None


class Sub(E):
    """a scalar subquery, evaluated once"""

    def __init__(self, q):
        self.q = q
        self.t = q.types()[0]
        self.nullable = True
        self.deep = 0

    def sql(self):
        return "(SELECT " * self.deep + "(%s)" % self.q.sql() + \
            ")" * self.deep

    def ev(self, row):
        rows = self.q.run().rows
        if len(rows) > 1:
            raise Err("more than one value")
        return rows[0][0] if rows else None

    def const(self):
        return False


# -------------------------------------------------------------- predicates

class P:
    def kids(self):
        return []


class Cmp(P):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def sql(self):
        return "%s %s %s" % (self.a.sql(), self.op, self.b.sql())

    def test(self, row):
        a, b = self.a.ev(row), self.b.ev(row)
        if a is None or b is None:
            # the other side is still converted, which may fail
            return False
        c = cmp(a, b, fold(self.a.t, self.b.t))
        return {"=": c == 0, "<>": c != 0, "!=": c != 0, "<": c < 0,
                "<=": c <= 0, ">": c > 0, ">=": c >= 0, "!<": c >= 0,
                "!>": c <= 0, "< =": c <= 0, "> =": c >= 0,
                "< >": c != 0}[self.op]

    def nullable(self):
        return self.a.nullable or self.b.nullable


class IsNull(P):
    def __init__(self, a, neg):
        self.a, self.neg = a, neg

    def sql(self):
        return "%s IS %sNULL" % (self.a.sql(), "NOT " if self.neg else "")

    def test(self, row):
        return (self.a.ev(row) is None) != self.neg

    def nullable(self):
        return False


class In(P):
    def __init__(self, a, items, neg=False):
        self.a, self.items, self.neg = a, items, neg
        self.t = functools.reduce(fold, [x.t for x in items], a.t)

    def sql(self):
        return "%s %sIN (%s)" % (self.a.sql(), "NOT " if self.neg else "",
                                 ", ".join(x.sql() for x in self.items))

    def test(self, row):
        a = self.a.ev(row)
        hit = False
        if a is not None:
            for x in self.items:
                v = x.ev(row)
                if v is not None and cmp(a, v, self.t) == 0:
                    hit = True
                    break
        return hit != self.neg

    def nullable(self):
        return self.a.nullable or any(x.nullable for x in self.items)


class InSub(P):
    def __init__(self, a, q, neg=False):
        self.a, self.q, self.neg = a, q, neg
        self.t = fold(a.t, q.types()[0])

    def sql(self):
        return "%s %sIN (%s)" % (self.a.sql(), "NOT " if self.neg else "",
                                 self.q.sql())

    def test(self, row):
        a = self.a.ev(row)
        hit = False
        if a is not None:
            for r in self.q.run().rows:
                if r[0] is not None and cmp(a, r[0], self.t) == 0:
                    hit = True
        return hit != self.neg

    def nullable(self):
        return self.a.nullable


class Like(P):
    """pattern given as bytes (ASCII); sets and wildcards as in T-SQL"""

    def __init__(self, a, pat, neg=False):
        self.a, self.pat, self.neg = a, pat, neg

    def sql(self):
        return "%s %sLIKE %s" % (self.a.sql(), "NOT " if self.neg else "",
                                 self.pat.sql())

    def test(self, row):
        v, p = self.a.ev(row), self.pat.ev(row)
        if v is None or p is None:
            return False
        return like(to_s(v), to_s(p)) != self.neg

    def nullable(self):
        return self.a.nullable or self.pat.nullable


def like_tokens(p):
    i, o = 0, []
    while i < len(p):
        c = p[i:i + 1]
        if c == b"%":
            o.append(("%",))
        elif c == b"_":
            o.append(("_",))
        elif c == b"[":
            j = p.find(b"]", i + 1)
            if j < 0:
                raise Skip
            body = p[i + 1:j]
            neg = body[:1] == b"^"
            if neg:
                body = body[1:]
            if not body:
                raise Skip
            st, k = set(), 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1:k + 2] == b"-":
                    lo, hi = body[k], body[k + 2]
                    if lo > hi:
                        raise Skip
                    st.update(range(lo, hi + 1))
                    k += 3
                else:
                    st.add(body[k])
                    k += 1
            low = set()
            for x in st:
                low.update(bytes([x]).lower())
                low.update(bytes([x]).upper())
            o.append(("set", low, neg))
            i = j
        else:
            o.append(("c", lower(c)[0]))
        i += 1
    return o


def like(s, p):
    toks = like_tokens(p)
    low = lower(s)
    cur = {0}
    for t in toks:
        nxt = set()
        if t[0] == "%":
            m = min(cur, default=None)
            if m is not None:
                nxt = set(range(m, len(s) + 1))
        else:
            for i in cur:
                if i >= len(s):
                    continue
                if t[0] == "_" or t[0] == "c" and low[i] == t[1] or \
                        t[0] == "set" and (s[i] in t[1]) != t[2]:
                    nxt.add(i + 1)
        cur = nxt
    return len(s) in cur


class And(P):
    op = "AND"

    def __init__(self, *ps):
        self.ps = ps

    def sql(self):
        return (" %s " % self.op).join(
            "(%s)" % p.sql() if isinstance(p, (And, Not)) else p.sql()
            for p in self.ps)

    def test(self, row):
        for p in self.ps:
            if not p.test(row):
                return False
        return True

    def nullable(self):
        return any(p.nullable() for p in self.ps)


class Or(And):
    op = "OR"

    def test(self, row):
        for p in self.ps:
            if p.test(row):
                return True
        return False


class Not(P):
    def __init__(self, p):
        self.p = p

    def sql(self):
        return "NOT (%s)" % self.p.sql()

    def test(self, row):
        return not self.p.test(row)

    def nullable(self):
        return self.p.nullable()


# ------------------------------------------------------------------ tables

class Table:
    """file: name on disk; cols: [(name, kind)]; rows: lists of bytes, which
    may be shorter than cols (the rest is NULL)."""

    def __init__(self, file, cols, rows, ref=None):
        self.file, self.cols, self.rows = file, cols, rows
        self.ref = ref or "[" + file + "]"
        self.widths = None       # of its columns, if they are fixed

    def fit(self, i, v):
        """what is in the file when v is written to column i"""
        if self.widths is None:
            return v
        if len(v) > self.widths[i]:
            raise Err("truncated")
        return v.ljust(self.widths[i])

    def data(self, delim=b",", header=True, term=b"\n"):
        o = []
        if header:
            o.append(delim.join(quote(c.encode(), delim)
                                for c, _ in self.cols))
        for r in self.rows:
            o.append(delim.join(quote(v, delim) for v in r))
        return b"".join(l + term for l in o)

    def nullable(self, i):
        return any(len(r) <= i for r in self.rows)


def quote(v, delim=b","):
    if any(c in v for c in (b'"', b"\n", b"\r")) or delim in v \
            or v[:1] in (b" ", b"\t") or v[-1:] in (b" ", b"\t"):
        return b'"' + v.replace(b'"', b'""') + b'"'
    return v


class Result:
    def __init__(self, rows, types, names, ordered=True):
        self.rows, self.types, self.names = rows, types, names
        self.ordered = ordered
        self.top = None

    def shown(self):
        n = len(self.rows)
        return n if self.top is None else min(n, self.top)


AGG = ("COUNT", "SUM", "MIN", "MAX", "AVG")


class Agg(E):
    """an aggregate; evaluated over row['#'], the rows of the group"""

    def __init__(self, name, a):
        self.name, self.a = name, a
        self.t = "i" if name == "COUNT" else a.t
        self.nullable = name != "COUNT"

    def sql(self):
        return "%s(%s)" % (self.name, self.a.sql() if self.a else "*")

    def const(self):
        return False

    top = False            # selected as it is, not part of an expression

    def ev(self, row):
        v = self.value(row)
        return v if self.top else through_text(v)

    def value(self, row):
        rows = row["#"]
        if self.name == "COUNT":
            return len(rows)
        if not rows:
            return None
        vals = []
        for r in rows:
            v = self.a.ev(r)
            if v is None:
                v = {"i": 0, "f": 0.0, "s": b""}[self.t]
            vals.append(v)
        if self.name in ("SUM", "AVG"):
            if self.t == "s":
                raise Err("sum of strings")
            s = vals[0]
            for v in vals[1:]:
                s = s + v
                if self.t == "i":
                    wrap(s)
            if self.name == "SUM":
                return s
            if self.t == "f":
                return s / len(vals)
            return arith("/", s, len(vals), "i")
        best = vals[0]
        for v in vals[1:]:
            c = cmp(v, best, self.t)
            if c < 0 and self.name == "MIN" or c > 0 and self.name == "MAX":
                best = v
        return best


class Select:
    """items: [(E, alias or None)]; src: [(Table or Select, alias, how, P)]"""

    def __init__(self, items, src=(), where=None, group=None, having=None,
                 order=None, top=None, distinct=False):
        self.items, self.src = items, list(src)
        self.where, self.group, self.having = where, group, having
        self.order, self.top, self.distinct = order, top, distinct
        self.cache = None
        self.into = None

    def types(self):
        return [e.t for e, _ in self.items]

    def names(self):
        o = []
        for e, a in self.items:
            o.append(a if a else e.name if isinstance(e, Col) else "")
        return o

    def sql(self):
        o = "SELECT "
        if self.distinct:
            o += "DISTINCT "
        if self.top is not None:
            o += "TOP %s " % self.top[0]
        o += ", ".join(e.sql() + (" AS " + a if a else "")
                       for e, a in self.items)
        if self.into:
            o += " INTO " + self.into
        for k, (s, a, how, on) in enumerate(self.src):
            ref = s.ref if isinstance(s, Table) else "(%s)" % s.sql()
            o += " %s %s" % (how if k else "FROM", ref)
            if a:
                o += " " + a
            if on is not None:
                o += " ON " + on.sql()
        if self.where is not None:
            o += " WHERE " + self.where.sql()
        if self.group:
            o += " GROUP BY " + ", ".join(e.sql() for e in self.group)
        if self.having is not None:
            o += " HAVING " + self.having.sql()
        if self.order:
            o += " ORDER BY " + ", ".join(
                t + (" DESC" if d else "") for _, t, d in self.order)
        return o

    def source_rows(self):
        if not self.src:
            return [{}]
        acc = None
        for s, a, how, on in self.src:
            key = a or (s.file if isinstance(s, Table) else "")
            rs = s.rows if isinstance(s, Table) else \
                [[through_text(v) for v in x] for x in s.run().rows]
            if acc is None:
                acc = [{key: r} for r in rs]
                continue
            nxt = []
            for l in acc:
                hit = False
                for r in rs:
                    d = dict(l)
                    d[key] = r
                    if on is None or on.test(d):
                        nxt.append(d)
                        hit = True
                if not hit and how.upper().startswith("LEFT"):
                    d = dict(l)
                    d[key] = None
                    nxt.append(d)
            acc = nxt
        return acc

    def aggregates(self):
        def has(e):
            return isinstance(e, Agg) or any(has(k) for k in e.kids())
        return any(has(e) for e, _ in self.items)

    def run(self):
        if self.cache is not None and self.epoch == STATE["epoch"]:
            return self.cache
        ordered = len(self.src) < 2
        rows = self.source_rows()
        for e, _ in self.items:
            if isinstance(e, Agg):
                e.top = not self.order
        if self.where is not None:
            rows = [r for r in rows if self.where.test(r)]
        if self.group or self.aggregates():
            ordered = False
            groups = {}
            for r in rows:
                k = tuple(group_key(e.ev(r), e.t) for e in self.group or [])
                groups.setdefault(k, []).append(r)
            if not self.group and not groups:
                groups[()] = []
            rows = []
            for g in groups.values():
                d = dict(g[0]) if g else {}
                d["#"] = g
                rows.append(d)
            if self.having is not None:
                rows = [r for r in rows if self.having.test(r)]
        if self.distinct:
            ordered = False
            seen, nxt = set(), []
            for r in rows:
                k = tuple(group_key(e.ev(r), e.t) for e, _ in self.items)
                if k not in seen:
                    seen.add(k)
                    nxt.append(r)
            rows = nxt
        for i, r in enumerate(rows):
            r["#n"] = i + 1
        if self.order:
            kv = {id(r): [e.ev(r) for e, _, _ in self.order] for r in rows}

            def c(a, b):
                for (e, _, d), x, y in zip(self.order, kv[id(a)], kv[id(b)]):
                    z = {"i": 0, "f": 0.0, "s": b""}[e.t]
                    v = cmp(z if x is None else x, z if y is None else y, e.t)
                    if v:
                        return -v if d else v
                return 0
            rows = sorted(rows, key=functools.cmp_to_key(c))
            out = [[e.ev(r) for e, _ in self.items] for r in rows]
            keys = []
            for i, r in enumerate(rows):
                keys.append(keys[-1] if i and c(rows[i - 1], r) == 0 else i)
            res = Result(out, self.types(), self.names(), True)
            res.keys = keys       # rows of one key may come in any order
        else:
            out = [[e.ev(r) for e, _ in self.items] for r in rows]
            res = Result(out, self.types(), self.names(), ordered)
        res.top = None
        if self.top is not None:
            res.top = max(self.top[1], 0)
        self.cache, self.epoch = res, STATE["epoch"]
        return res


def group_key(v, t):
    if v is None:
        v = {"i": 0, "f": 0.0, "s": b""}[t]
    if t == "s":
        return norm(v)
    return through_text(v)


class Union:
    def __init__(self, parts):
        self.parts = parts
        self.cache = None
        self.order = None          # [(index, desc)]
        self.order_text = ""

    def types(self):
        ts = [p.types() for p in self.parts]
        return [functools.reduce(fold, c) for c in zip(*ts)]

    def names(self):
        return self.parts[0].names()

    def sql(self):
        o = " UNION ALL ".join(p.sql() for p in self.parts)
        return o + self.order_text

    def run(self):
        if self.cache is not None and self.epoch == STATE["epoch"]:
            return self.cache
        rows = []
        ordered = True
        ts = self.types()
        for p in self.parts:
            r = p.run()
            ordered = ordered and r.ordered
            got = r.rows
            if r.top is not None:
                if not r.ordered and r.top < len(got):
                    raise Skip
                got = got[:r.top]
            rows += [[conv(v, t) for v, t in zip(x, ts)] for x in got]
        res = Result(rows, ts, self.names(), ordered)
        res.top = None
        if self.order:
            sort_result(res, [(lambda row, i=i: row[i], ts[i], d)
                              for i, d in self.order], rows)
        self.cache, self.epoch = res, STATE["epoch"]
        return res


def sort_result(res, by, rows):
    """by: [(row -> value, type, descending)]"""
    def c(a, b):
        for f, t, d in by:
            x, y = f(a), f(b)
            z = {"i": 0, "f": 0.0, "s": b""}[t]
            v = cmp(z if x is None else x, z if y is None else y, t)
            if v:
                return -v if d else v
        return 0
    out = sorted(rows, key=functools.cmp_to_key(c))
    res.keys = []
    for i, r in enumerate(out):
        res.keys.append(res.keys[-1] if i and c(out[i - 1], r) == 0 else i)
    res.rows = out
    res.ordered = True
