"""What single expressions mean: Q02 to Q05."""
from .. import cases, gen, sql as M
from ..gen import G
from ..sql import (And, Bin, Case, Cast, Cmp, Col, Const, Fn, In, IsNull,
                   LMAX, LMIN, Like, Neg, Not, Or, Select, Table)
from .query import fix_names, run_both


def refused(env, text, files, key, args=()):
    """The statement must fail, cleanly."""
    if env.rng.random() < .4:
        o = env.api(["make:" + text, "stepall"], files, leaks=False)
        ok = any(l[0] == "rc" and l[2] < 0 for l in cases.api_lines(o.out))
        if not ok:
            env.fail(key + " accepted (API)", "no operation failed")
    else:
        o = env.cli(text, files, ["-q"] + list(args), leaks=False)
        if o.code == 0:
            env.fail(key + " accepted", "exit status 0")
    env.count("refusals")


def split(sel, t):
    """rows the statement can evaluate, rows it must fail on"""
    good, bad = [], []
    rows = t.rows
    for row in rows:
        t.rows = [row]
        sel.cache = None
        try:
            sel.run()
            good.append(row)
        except M.Err:
            bad.append(row)
        except M.Skip:
            pass
    t.rows = good
    sel.cache = None
    return bad


def judge(env, sel, t, key, args=(), also_bad=.35):
    """The rows that evaluate give what the model says; each of the others
    alone makes the statement fail."""
    r = env.rng
    bad = split(sel, t)
    if t.rows or not bad:
        want = run_both(env, sel, {t.file: t.data()}, key, args=args)
        env.nontrivial = bool(want.rows)
    if bad and r.random() < also_bad:
        row = r.choice(bad)
        keep = t.rows
        t.rows = keep[:r.randint(0, 3)] + [row] + keep[:r.randint(0, 2)]
        sel.cache = None
        refused(env, sel.sql(), {t.file: t.data()}, key, args)
        env.nontrivial = True


# ------------------------------------------------------------- Q02 arithmetic

EDGE = [0, 1, -1, 2, 3, -3, 7, 10, 63, 64, 2**31 - 1, 2**31, -2**31,
        -2**31 - 1, 2**32, 2**52, 2**62, -2**62, 2**62 - 1, LMAX, LMIN,
        LMAX - 1, LMIN + 1, LMAX // 2, LMAX // 3, 3037000499, 3037000500,
        -3037000500, 4294967296]
ODD = [b"9223372036854775808", b"-9223372036854775809", b"99999999999999999999",
       b" 12", b"+5", b"\t7", b"0x1F", b"0XfF", b"12abc", b"1.5", b"", b"1e3",
       b"abc", b"--1", b"1 ", b"1-", b"+", b"-", b"007", b"-0", b"0x",
       b".5", b"5.", b"-.25", b"1e400", b"2.5e2", b"0.125", b"-7.75", b"1,5"]


def number(r):
    k = r.random()
    if k < .45:
        return b"%d" % r.choice(EDGE)
    if k < .55:
        return b"%d" % r.randint(LMIN, LMAX)
    if k < .7:
        return b"%d" % r.randint(-50, 50)
    if k < .8:
        return b"%g" % gen.floats(r)
    return r.choice(ODD)


def small(r):
    k = r.random()
    if k < .5:
        return Const(r.choice([0, 1, 2, 3, 7, 10, 64, LMAX, LMAX - 1, 2**31,
                               2**62]))
    return Const(r.randint(0, 20))


def intexpr(r, cols, d):
    k = r.random()
    if d <= 0 or k < .3:
        return Cast(r.choice(cols), "int") if r.random() < .75 else small(r)
    if k < .85:
        op = r.choice("+-*/%&|^+-*/%")
        a, b = intexpr(r, cols, d - 1), intexpr(r, cols, d - 1)
        z = r.random()
        if z < .2:
            a = r.choice(cols)
        elif z < .4:
            b = r.choice(cols)
        return Bin(op, a, b)
    if k < .95:
        return Neg(r.choice("-~+"), intexpr(r, cols, d - 1))
    return Cast(intexpr(r, cols, d - 1), r.choice(["bit", "int"]))


def floatexpr(r, cols, d):
    k = r.random()
    if d <= 0 or k < .3:
        return Cast(r.choice(cols), "float") if r.random() < .75 else \
            Const(gen.floats(r))
    if k < .85:
        op = r.choice("+-*/")
        a = floatexpr(r, cols, d - 1)
        b = r.choice([floatexpr, intexpr])(r, cols, d - 1)
        if r.random() < .2:
            b = r.choice(cols)
        return Bin(op, *((a, b) if r.random() < .5 else (b, a)))
    if k < .95:
        return Neg(r.choice("-+"), floatexpr(r, cols, d - 1))
    return Cast(intexpr(r, cols, d - 1), "float")


def finite(e):
    """floats the model can follow: infinities print in other ways"""
    ev = e.ev

    def go(row):
        try:
            v = ev(row)
        except OverflowError:
            raise M.Skip
        if isinstance(v, float) and not abs(v) < 1e300:
            raise M.Skip
        return v
    e.ev = go
    return e


def arith(env):
    r = env.rng
    t = Table("n.csv", [("a", "i"), ("b", "i"), ("c", "f")],
              [[number(r) for _ in range(3)]
               for _ in range(r.choice([1, 6, 12, 25]))])
    for row in t.rows:
        if r.random() < .05:
            del row[r.randint(1, 2):]
    cols = gen.columns(t, t.file)
    items = []
    for k in range(r.choice([1, 1, 2, 3])):
        f = intexpr if r.random() < .65 else floatexpr
        e = finite(f(r, cols, r.randint(1, 2)))
        items.append((e, "v%d" % k))
    sel = fix_names(Select(items, [(t, None, None, None)]))
    judge(env, sel, t, "arithmetic")
    env.count("operand_rows", len(t.rows))


def const_of(r, v):
    """a literal with the value"""
    if isinstance(v, int) and v < 0:
        return Neg("-", Const(-v)) if v > LMIN else \
            Bin("-", Neg("-", Const(LMAX)), Const(1))
    return Const(v)


def folded(env):
    """the same operations among constants, with and without a table"""
    r = env.rng
    a, b = r.choice(EDGE), r.choice(EDGE)
    x, y = const_of(r, a), const_of(r, b)
    k = r.random()
    if k < .15:
        x = Const(gen.floats(r))
    elif k < .25:
        y = Const(gen.floats(r))
    elif k < .4:
        y = Const(r.choice(ODD[:10] + ODD[10:]))
    op = r.choice("+-*/%&|^+-*/%")
    e = finite(Bin(op, x, y))
    if r.random() < .2:
        e = finite(Bin(r.choice("+-*"), e, const_of(r, r.choice(EDGE))))
    if r.random() < .2:
        e = finite(Neg("-", e))
    t = Table("n.csv", [("a", "i")], [[b"1"]] * r.randint(0, 2))
    sel = fix_names(Select([(e, "v")], [(t, None, None, None)]
                           if r.random() < .5 else []))
    files = {t.file: t.data()}
    try:
        e.ev({})
    except M.Err:
        # known when the statement is made, if it is: then rows do not matter
        if sel.src and not t.rows:
            raise M.Skip
        refused(env, sel.sql(), files, "constant arithmetic")
        env.nontrivial = True
        return
    run_both(env, sel, files, "constant arithmetic")
    env.nontrivial = True


def optypes(env):
    """every operator over every pair of types, refused or not"""
    r = env.rng
    t = Table("n.csv", [("a", "i"), ("b", "i")], [[b"7", b"2"]])
    a, b = gen.columns(t, t.file)
    mk = {"s": lambda c: c, "i": lambda c: Cast(c, "int"),
          "f": lambda c: Cast(c, "float")}
    ops = "+-*/%&|^"
    n = env.index % (len(ops) * 9 + 9)
    if n < len(ops) * 9:
        op, x, y = ops[n // 9], "sif"[n // 3 % 3], "sif"[n % 3]
        e = Bin(op, mk[x](a), mk[y](b))
    else:
        n -= len(ops) * 9
        op, x = "-~+"[n // 3], "sif"[n % 3]
        e = Neg(op, mk[x](a))
        if x == "s" and op != "+" or op == "~" and x == "f":
            e.ev = lambda row: (_ for _ in ()).throw(M.Err("type"))
    sel = fix_names(Select([(e, "v")], [(t, None, None, None)]))
    try:
        sel.run()
    except M.Err:
        refused(env, sel.sql(), {t.file: t.data()}, "operator types")
        env.nontrivial = True
        return
    run_both(env, sel, {t.file: t.data()}, "operator types")
    env.nontrivial = True


def convert(env):
    """texts as numbers in casts, comparisons and IN"""
    r = env.rng
    t = Table("n.csv", [("a", "i"), ("b", "i")],
              [[r.choice([number(r), r.choice(ODD)]), number(r)]
               for _ in range(r.randint(1, 12))])
    a, b = gen.columns(t, t.file)
    k = r.random()
    where = None
    items = [(a, None), (b, None)]
    c = r.choice([Const(r.randint(-3, 20)), Const(gen.floats(r)),
                  Const(r.choice([0, 1, 12, 31, 255, LMAX, 2**31]))])
    if k < .3:
        e = finite(Cast(a, r.choice(["int", "float", "bit"])))
        items.append((e, "v"))
    elif k < .6:
        e = finite(Cast(b, r.choice(["int", "float"])))
        where = Cmp(r.choice(["=", "<", ">=", "<>"]),
                    *((a, e) if r.random() < .5 else (e, a)))
    elif k < .8:
        where = Cmp(r.choice(["=", "<", ">=", "<>"]),
                    *((a, c) if r.random() < .5 else (c, a)))
    else:
        where = In(a, [c, Const(r.randint(0, 9))])
    sel = fix_names(Select(items, [(t, None, None, None)], where=where))
    judge(env, sel, t, "conversion")


def q02(r):
    r.rule = ("arithmetic over boundary operands (integer limits, texts that "
              "are and are not numbers): rows that evaluate are compared with "
              "exact integers and IEEE doubles, rows that cannot must make "
              "the statement fail; every operator over every pair of types")
    cases.drive(r, GENS["Q02"], [
        ("arith", "plain", r.pick(2000, 60000)),
        ("folded", "plain", r.pick(700, 20000)),
        ("convert", "plain", r.pick(900, 25000)),
        ("optypes", "plain", r.pick(162, 810)),
        ("arith", "asan", r.pick(40, 2000)),
        ("folded", "asan", r.pick(20, 800))])
    cases.known(r)


# -------------------------------------------------------------- Q03 functions

TEXTS = gen.WORDS + gen.UTF + gen.NASTY + [
    b"", b"   ", b"\t", b"ab  ", b"  ab", "日本語 テスト".encode(),
    "éé  ".encode(), "aé".encode() * 5, "😀😃😄".encode(), "ÀÉÎ".encode(),
    b"aaaaaaaa", b"abababab", b"AaAaAa", b"x" * 100, "ß".encode() * 30,
    b"aabaab", b"a", b".", b"a.b.c", b"a\\b", b"[x]"]


def text(r):
    k = r.random()
    if k < .7:
        return r.choice(TEXTS)
    return "".join(r.choice("aAbB é日😀 .") for _ in range(
        r.randint(0, 12))).encode()


LENGTHS = [0, 1, 2, 3, 4, 5, 8, 100, 2**31 - 1, 2**31, 2**32, LMAX, LMAX - 1,
           -1, -5, LMIN, LMIN + 1, -2**31]


def length(r):
    return r.choice(LENGTHS) if r.random() < .5 else r.randint(-1, 9)


def num(r, cols, v):
    """the number as a literal, or from a column"""
    return r.choice(cols) if r.random() < .5 else const_of(r, v)


def function(r, s, u, w, n, m):
    """s, u, w: string expressions; n, m: columns of numbers"""
    k = r.choice(["LEN", "LEFT", "RIGHT", "SUBSTRING", "SUBSTRING", "REPLACE",
                  "REPLACE", "DATALENGTH", "ISNULL", "CAST", "+"])
    name = k if r.random() < .6 else r.choice([k.lower(), k.title()])
    if k == "LEN" or k == "DATALENGTH":
        return Fn(name, s)
    if k in ("LEFT", "RIGHT"):
        return Fn(name, s, num(r, [n, m], length(r)))
    if k == "SUBSTRING":
        return Fn(name, s, num(r, [n, m], length(r)),
                  num(r, [m, n], length(r)))
    if k == "REPLACE":
        return Fn(name, s, u, w)
    if k == "ISNULL":
        return Fn(name, s, u)
    if k == "+":
        return Bin("+", s, u)
    return Cast(s, r.choice(["varchar", "char"]),
                r.choice([1, 2, 5, 10, 100, 300]))


def const_error(e):
    """fails when the statement is made, whatever the rows"""
    if e.const():
        try:
            e.ev({})
        except M.Err:
            return True
    return any(map(const_error, e.kids()))


def functions(env):
    r = env.rng
    rows = []
    for _ in range(r.choice([1, 5, 10, 20])):
        row = [text(r), text(r) if r.random() < .5 else r.choice(
            [b"a", b"A", b"b", b"ab", b"", "é".encode(), "日".encode(), b" "]),
            r.choice([b"", b"x", b"--", b"aa", "é".encode(), text(r)]),
            b"%d" % length(r), b"%d" % length(r)]
        rows.append(row)
    t = Table("s.csv", [("s", "s"), ("u", "s"), ("w", "s"), ("n", "i"),
                        ("m", "i")], rows)
    s, u, w, n, m = gen.columns(t, t.file)

    def st(c):
        return c if r.random() < .8 else Const(text(r))
    items = []
    for k in range(r.choice([1, 1, 2, 3])):
        e = function(r, st(s), st(u), st(w), n, m)
        if e.t == "s" and r.random() < .3:
            e = function(r, e, st(u), st(w), n, m)
        items.append((e, "v%d" % k))
    where = None
    if r.random() < .2:
        where = Cmp(r.choice(["=", "<>", "<"]), function(
            r, s, u, w, n, m), Const(r.choice([text(r), 3])))
        if where.a.t == "s":
            where.b = Const(text(r))
        else:
            where.b = Const(r.randint(0, 9))
    sel = fix_names(Select(items, [(t, None, None, None)], where=where))
    if where is not None and any(const_error(e) for e, _ in items):
        raise M.Skip
    judge(env, sel, t, "function")


def const_functions(env):
    """constant arguments, evaluated when the statement is made"""
    r = env.rng
    e = function(r, Const(text(r)), Const(text(r)), Const(text(r)),
                 const_of(r, length(r)), const_of(r, length(r)))
    t = Table("s.csv", [("s", "s")], [[b"1"]] * r.randint(0, 2))
    sel = fix_names(Select([(e, "v")], [(t, None, None, None)]
                           if r.random() < .5 else []))
    files = {t.file: t.data()}
    env.nontrivial = True
    try:
        e.ev({})
    except M.Err:
        if sel.src and not t.rows:
            raise M.Skip
        refused(env, sel.sql(), files, "constant function")
        return
    run_both(env, sel, files, "constant function")


BYTES = [b"\xff\xfe", b"a\xffb", b"\xc3", b"\xc3(", b"\xe6\x97", b"ab\x80",
         b"\xf0\x9f\x98", b"\xc0\xaf", b"\xed\xa0\x80"]


def bytewise(env):
    """-b: lengths and positions are bytes, whatever the bytes"""
    r = env.rng
    rows = []
    for _ in range(r.choice([1, 5, 10, 20])):
        rows.append([r.choice(BYTES) if r.random() < .4 else text(r),
                     b"%d" % length(r), b"%d" % length(r)])
    t = Table("s.csv", [("s", "s"), ("n", "i"), ("m", "i")], rows)
    s, n, m = gen.columns(t, t.file)
    items = []
    for k in range(r.choice([1, 1, 2, 3])):
        f = r.choice(["LEN", "LEFT", "RIGHT", "SUBSTRING", "SUBSTRING"])
        e = Fn(f, s) if f == "LEN" else \
            Fn(f, s, num(r, [n, m], length(r))) if f != "SUBSTRING" else \
            Fn(f, s, num(r, [n, m], length(r)), num(r, [m, n], length(r)))
        e.ev = lambda row, e=e: as_bytes(e, row)
        items.append((e, "v%d" % k))
    sel = fix_names(Select(items, [(t, None, None, None)]))
    bad = split(sel, t)
    files = {t.file: t.data()}
    if t.rows or not bad:
        want = sel.run()
        o = env.cli(sel.sql(), files, ["-q", "-b"])
        cases.check_cli(env, [want], o, key="byte function")
        env.nontrivial = bool(want.rows)
    if bad and r.random() < .3:
        t.rows = [r.choice(bad)]
        o = env.cli(sel.sql(), {t.file: t.data()}, ["-q", "-b"], leaks=False)
        if o.code == 0:
            env.fail("byte function accepted", "exit status 0")
        env.count("refusals")


def as_bytes(e, row):
    a = [x.ev(row) for x in e.args]
    n = e.name.upper()
    if n == "LEN":
        return len(a[0].rstrip(M.WS))
    s, k = a[0], M.to_i(a[-1])
    if k < 0:
        raise M.Err("negative length")
    if n == "LEFT":
        return s[:k]
    if n == "RIGHT":
        return s[-k:] if 0 < k < len(s) else s if k else b""
    st = M.to_i(a[1])
    if st < 1:
        k += st - 1
        st = 1
    return s[st - 1:st - 1 + k] if k > 0 else b""


def malformed(env):
    """a text that is not UTF-8: counting its characters fails or counts in
    some way, but never reads beyond it nor crashes"""
    r = env.rng
    t = Table("s.csv", [("s", "s"), ("n", "i")],
              [[r.choice(BYTES), b"%d" % length(r)]
               for _ in range(r.randint(1, 4))])
    n = r.choice(["n", "1", "2", "3", "100"])
    e = r.choice(["LEN(s)", "LEFT(s, %s)" % n, "RIGHT(s, %s)" % n,
                  "SUBSTRING(s, %s, %s)" % (n, r.choice(["n", "1", "5"])),
                  "REPLACE(s, 'a', 'b')", "s + s", "CAST(s AS CHAR(3))"])
    env.cli("SELECT %s FROM [s.csv]" % e, {t.file: t.data()}, ["-q"],
            leaks=False)
    env.nontrivial = True


def q03(r):
    r.rule = ("string functions over UTF-8 texts with lengths and positions "
              "from 0 to the integer limits, literal, from columns, nested "
              "and folded; the same on bytes with -b; malformed UTF-8 under "
              "sanitizers; compared with the reference evaluator")
    cases.drive(r, GENS["Q03"], [
        ("functions", "plain", r.pick(1700, 60000)),
        ("const_functions", "plain", r.pick(700, 20000)),
        ("bytewise", "plain", r.pick(700, 20000)),
        ("malformed", "plain", r.pick(100, 3000)),
        ("functions", "asan", r.pick(30, 2000)),
        ("const_functions", "asan", r.pick(20, 500)),
        ("bytewise", "asan", r.pick(15, 500)),
        ("malformed", "asan", r.pick(30, 1000))])
    cases.known(r)


# ------------------------------------------------------------------- Q04 LIKE

def likes(r, pats):
    """a text close to one of the patterns"""
    p = r.choice(pats)
    o = b""
    try:
        toks = M.like_tokens(p)
    except M.Skip:
        return gen.word(r, 0)
    for t in toks:
        if r.random() < .07:
            continue
        if t[0] == "%":
            o += bytes(r.choice(b"abcpP1 .x") for _ in range(
                r.choice([0, 0, 1, 2, 5])))
        elif t[0] == "_":
            o += bytes([r.choice(b"abz. 1")])
        elif t[0] == "set":
            pool = sorted(t[1]) if not t[2] and r.random() < .8 else \
                list(b"abcxyz09.")
            o += bytes([r.choice(pool)])
        else:
            c = bytes([t[1]])
            o += r.choice([c, c.upper()])
    if r.random() < .1:
        o += r.choice([b" ", b"x", b"\n"])
    return o


def pat(r, wild=True):
    o = b""
    for _ in range(r.randint(0, 6)):
        k = r.random()
        if k < .35:
            o += r.choice([b"%", b"%", b"%%", b"_", b"__"] if wild
                          else [b"%"])
        elif k < .5:
            o += r.choice([b"[a-c]", b"[^b]", b"[abx]", b"[0-9]", b"[^a-z]",
                           b"[%]", b"[_]", b"[a-]", b"[-a]", b"[.]", b"[A-C]",
                           b"[[]", b"[^0-9a]", b"[x-z0-2]", b"[\\]", b"[*]"])
        else:
            o += r.choice([b"a", b"b", b"A", b"an", b"p", b" ", b"1", b".",
                           b"*", b"(", b")", b"+", b"\\", b"?", b"$", b"|",
                           b"^", b"{", b"}", b"-", b"aa", b"ab", b"/", b"'"])
    return o


def like(env):
    r = env.rng
    utf = r.random() < .2
    pats = [pat(r, not utf) for _ in range(r.randint(1, 4))]
    rows = []
    for _ in range(r.choice([1, 8, 20, 40])):
        s = likes(r, pats)
        if utf and r.random() < .5:
            s = r.choice(gen.UTF) + s if r.random() < .5 else \
                s + r.choice(gen.UTF)
            if any(c in p for p in pats for c in (b"[", b"_")):
                s = likes(r, pats)
        rows.append([s, r.choice(pats)])
    for row in rows:
        if r.random() < .05:
            del row[1:]
    t = Table("l.csv", [("s", "s"), ("p", "s")], rows)
    s, p = gen.columns(t, t.file)
    a = s if r.random() < .85 else r.choice(
        [Bin("+", s, Const(b"x")), Fn("LEFT", s, Const(3))])
    if a is not s:
        rows[:] = [x for x in rows if x[0].isascii()]
    k = r.random()
    if k < .55:
        pr = Like(a, Const(r.choice(pats)), r.random() < .25)
    elif k < .9:
        pr = Like(a, p, r.random() < .25)
    else:
        pr = Or(*[Like(a, Const(x)) for x in (pats + pats)[:2]])
    neg = isinstance(pr, Like) and pr.neg
    if neg:
        rows[:] = [x for x in rows if len(x) == 2]
    if r.random() < .3:
        sel = Select([(s, None), (Case([(pr, Const(1))], Const(0)), "hit")],
                     [(t, None, None, None)])
    else:
        sel = Select([(s, None), (p, None)], [(t, None, None, None)],
                     where=pr)
    sel = fix_names(sel)
    split(sel, t)                 # drops the rows the model is silent about
    want = run_both(env, sel, {t.file: t.data()}, "LIKE")
    env.nontrivial = bool(want.rows)
    env.count("matches", len(want.rows))
    env.count("texts", len(t.rows))


def like_odd(env):
    """patterns outside the defined language fail or match, cleanly"""
    r = env.rng
    p = bytes(r.choice(b"%_[]^-aZ.\\*+?(){}|$ ") for _ in range(
        r.randint(0, 9)))
    t = Table("l.csv", [("s", "s"), ("p", "s")],
              [[gen.word(r, .1), p] for _ in range(3)])
    env.cli("SELECT s FROM [l.csv] WHERE s LIKE %s" % (
        M.lit(p) if r.random() < .5 else "p"), {t.file: t.data()}, ["-q"],
            leaks=False)
    env.nontrivial = True


def q04(r):
    r.rule = ("LIKE with generated patterns (literal and from a column) over "
              "texts made to match them or to miss by one character; the "
              "matching rows are those of an independent matcher")
    cases.drive(r, GENS["Q04"], [
        ("like", "plain", r.pick(2300, 80000)),
        ("like_odd", "plain", r.pick(200, 5000)),
        ("like", "asan", r.pick(40, 2000)),
        ("like_odd", "asan", r.pick(40, 2000))])
    cases.known(r)


# ------------------------------------------------------ Q05 predicates, NULLs

def rows_of(env, t, where, files, key, args=()):
    """the ids of the records a predicate lets pass, as the CLI prints them"""
    sel = "SELECT id FROM %s%s" % (t.ref, " WHERE " + where if where else "")
    o = env.cli(sel, files, ["-q"] + list(args))
    if o.code:
        env.fail(key + " refused", "exit status %d" % o.code)
    return [x[0] for x in cases.parse_csv(o.out)[1:]]


def sane(t, *parts):
    """each part can be computed for each record, on its own too"""
    rows = [{t.file: x} for x in t.rows]

    def walk(e):
        if isinstance(e, (list, tuple)):
            for x in e:
                walk(x)
        elif isinstance(e, (M.E, M.P)):
            for x in vars(e).values():
                walk(x)
            f = e.ev if isinstance(e, M.E) else e.test
            for row in rows:
                f(row)
    try:
        walk(parts)
    except M.Err:
        raise M.Skip


def id_table(r):
    t = gen.table(r, "p.csv", nulls=.5,
                  rows=r.choice([3, 8, 15, 30]))
    t.cols = [("id", "i")] + [(n if n != "id" else "id2", k)
                              for n, k in t.cols]
    t.rows = [[b"%d" % k] + row for k, row in enumerate(t.rows)]
    return t


def paren(p):
    return "(%s)" % p


def logic(env):
    """laws of AND, OR and NOT, whatever the predicates mean"""
    r = env.rng
    t = id_table(r)
    g = G(r, gen.columns(t, t.file))
    ps = [g.pred(r.randint(0, 2)) for _ in range(3)]
    sane(t, ps)
    p, q, s = (x.sql() for x in ps)
    files = {t.file: t.data()}

    def ids(w):
        return rows_of(env, t, w, files, "predicate")
    every = ids("")
    law = r.randint(0, 8)
    a, b = paren(p), paren(q)
    if law == 0:
        x, y = ids(p), ids("NOT " + a)
        if sorted(x + y) != sorted(every):
            env.fail("p, NOT p", "rows of p and of NOT p do not make up the "
                     "table: %s and %s" % (x, y))
    else:
        c = paren(s)
        pairs = {
            1: ("NOT (%s AND %s)" % (a, b), "NOT %s OR NOT %s" % (a, b)),
            2: ("NOT (%s OR %s)" % (a, b), "NOT %s AND NOT %s" % (a, b)),
            3: ("%s AND %s" % (a, b), "%s AND %s" % (b, a)),
            4: ("%s OR %s" % (a, b), "%s OR %s" % (b, a)),
            5: ("NOT (NOT %s)" % a, p),
            6: ("%s AND (%s OR %s)" % (a, b, c),
                "(%s AND %s) OR (%s AND %s)" % (a, b, a, c)),
            7: ("%s AND (%s AND %s)" % (a, b, c),
                "(%s AND %s) AND %s" % (a, b, c)),
            8: ("%s OR %s AND %s" % (a, b, c), "%s OR (%s AND %s)"
                % (a, b, c))}
        l, m = pairs[law]
        x, y = ids(l), ids(m)
        if x != y:
            env.fail("law %d" % law, "different rows:\n%s: %s\n%s: %s"
                     % (l, x, m, y))
    env.count("law_%d" % law)
    env.nontrivial = 0 < len(x) < len(every)


def where_case(env):
    """a CASE takes the branch a WHERE lets pass"""
    r = env.rng
    t = id_table(r)
    g = G(r, gen.columns(t, t.file))
    p = g.pred(r.randint(0, 2))
    sane(t, p)
    p = p.sql()
    files = {t.file: t.data()}
    x = rows_of(env, t, p, files, "predicate")
    o = env.cli("SELECT id, CASE WHEN %s THEN 'y' ELSE 'n' END c FROM %s"
                % (p, t.ref), files, ["-q"])
    if o.code:
        env.fail("CASE refused", "exit status %d" % o.code)
    y = [i for i, c in cases.parse_csv(o.out)[1:] if c == b"y"]
    if x != y:
        env.fail("CASE and WHERE", "WHERE lets %s pass, CASE %s" % (x, y))
    env.nontrivial = 0 < len(x) < len(t.rows)


def nulls(env):
    """missing fields through the model: comparisons, IS NULL, ISNULL, CASE,
    concatenation and arithmetic"""
    r = env.rng
    kinds = "".join(r.choice("ifskw") for _ in range(3))
    t = gen.table(r, "p.csv", "i" + kinds, nulls=1,
                  rows=r.choice([3, 10, 20, 40]))
    for row in t.rows:
        if r.random() < .4:
            del row[r.randint(1, 4):]
    cols = gen.columns(t, t.file)
    g = G(r, cols)
    last = r.choice(cols[1:])
    k = r.randint(0, 6)
    where = None
    if k == 0:
        where = IsNull(last, r.random() < .5)
    elif k == 1:
        # not comparing with NULL is not being different from it
        where = Cmp(r.choice(["=", "<>", "<", ">="]), last, r.choice(cols))
    elif k == 2:
        where = In(last, [r.choice(cols), Const(gen.word(r)), r.choice(cols)],
                   r.random() < .3)
    elif k == 3:
        where = g.pred(2)
    items = [(cols[0], None), (last, None)]
    if k == 4:
        items.append((Fn("ISNULL", last, r.choice(
            [r.choice(cols), Const(gen.word(r)), g.str(1)])), "v"))
    elif k == 5:
        items.append((Bin("+", last, g.str(1)), "v"))
        items.append((Bin(r.choice("+-*"), Const(1), Cast(r.choice(
            [c for c in cols if c.kind in "ik"]), "int")), "w"))
    elif k == 6:
        items.append((Case([(last, g.int(0)), (Const(gen.word(r)), g.int(0))],
                           g.int(1) if r.random() < .5 else None,
                           r.choice(cols)), "v"))
    else:
        items.append((g.case(g.any, 1), "v"))
        if any(x.t != items[-1][0].t for x in branches(items[-1][0])):
            items.pop()
    sel = fix_names(Select(items, [(t, None, None, None)], where=where))
    want = run_both(env, sel, {t.file: t.data()}, "NULL")
    env.nontrivial = any(None in x for x in want.rows) or where is not None


def branches(c):
    return [v for _, v in c.whens] + ([c.els] if c.els else [])


def rewrites(env):
    """things that say the same in other words"""
    r = env.rng
    t = id_table(r)
    cols = gen.columns(t, t.file)
    g = G(r, cols)
    files = {t.file: t.data()}
    k = r.randint(0, 4)
    if k == 0:
        a = r.choice([c for c in cols])
        items = [r.choice([r.choice(cols), Const(gen.word(r))])
                 for _ in range(r.randint(1, 5))]
        sane(t, In(a, items))
        l = In(a, items).sql()
        m = " OR ".join(Cmp("=", a, x).sql() for x in items)
    elif k == 1:
        a = g.any(1)
        sane(t, a)
        a = a.sql()
        l, m = a + " IS NOT NULL", "NOT (%s IS NULL)" % a
    elif k == 2:
        a, b = g.pair(1)
        sane(t, Cmp("=", a, b))
        op, back = r.choice([("<", ">"), ("<=", ">="), ("=", "="),
                             ("<>", "!=")])
        l, m = Cmp(op, a, b).sql(), Cmp(back, b, a).sql()
    elif k == 3:
        a, b = g.pair(1)
        sane(t, Cmp("=", a, b))
        l = Cmp("<=", a, b).sql()
        m = "%s OR %s" % (Cmp("<", a, b).sql(), Cmp("=", a, b).sql())
    else:
        a, b = g.pair(0)
        sane(t, Cmp("=", a, b))
        l = Cmp("<>", a, b).sql()
        m = "%s OR %s" % (Cmp("<", a, b).sql(), Cmp(">", a, b).sql())
    x = rows_of(env, t, l, files, "predicate")
    y = rows_of(env, t, m, files, "predicate")
    if x != y:
        env.fail("rewrite %d" % k, "%s: %s\n%s: %s" % (l, x, m, y))
    env.nontrivial = 0 < len(x) < len(t.rows)


def q05(r):
    r.rule = ("laws of the predicates (a predicate and its negation split "
              "the table, De Morgan, commutation, distribution, IN as OR, "
              "CASE as WHERE) checked between runs of the real program, and "
              "NULLs against the reference evaluator")
    cases.drive(r, GENS["Q05"], [
        ("logic", "plain", r.pick(700, 25000)),
        ("where_case", "plain", r.pick(400, 12000)),
        ("nulls", "plain", r.pick(1200, 40000)),
        ("rewrites", "plain", r.pick(500, 15000)),
        ("nulls", "asan", r.pick(40, 1500)),
        ("logic", "asan", r.pick(12, 600))])
    cases.known(r)


GENS = {
    "Q02": {"arith": arith, "folded": folded, "convert": convert,
            "optypes": optypes},
    "Q03": {"functions": functions, "const_functions": const_functions,
            "bytewise": bytewise, "malformed": malformed},
    "Q04": {"like": like, "like_odd": like_odd},
    "Q05": {"logic": logic, "where_case": where_case, "nulls": nulls,
            "rewrites": rewrites},
}
ZYG = {}
