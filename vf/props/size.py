"""No limit but memory (Q26): one thing of a case grows along the powers of
two, everything else stays small; what it should give is known in closed
form."""
import re

from .. import cases
from .. import sql as M


def near(r, top, low=1):
    """mostly at, just below or just above a power of two"""
    if r.random() < .75:
        k = r.randint(1, max(1, top.bit_length() - 1))
        n = (1 << k) + r.choice([-1, 0, 1, 1])
    else:
        n = r.randint(low, top)
    return max(low, min(n, top))


def res(rows, names, ordered=True):
    rows = [tuple(x) for x in rows]
    t = [{int: "i", bytes: "s"}[type(v)] if v is not None else "s"
         for v in (rows[0] if rows else [b""] * len(list(names)))]
    return M.Result(rows, t, list(names), ordered)


def b(s):
    return s if isinstance(s, bytes) else str(s).encode()


def csv(head, rows):
    return b",".join(map(b, head)) + b"\n" + b"".join(
        b",".join(map(b, x)) + b"\n" for x in rows)


def bracketed(text):
    return re.sub(r"(?<![\[\w/])(\w+\.csv)\b", r"[\1]", text)


def letters(r, n):
    """n characters no two windows of which look alike soon"""
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(n))


# each: (env's rng, "is it slow here") -> (text, files, results[, arguments])

def rows(r, slow):
    """records of a file"""
    n = near(r, 1 << 11 if slow else 1 << 15)
    v = [(i, i * 7 % 13, i % 5) for i in range(n)]
    f = {"t.csv": csv("abc", v)}
    k = r.randrange(7)
    if k == 0:
        return "SELECT a, b FROM t.csv", f, [res(
            [(b(x[0]), b(x[1])) for x in v], "ab")]
    if k == 1:
        return "SELECT COUNT(*) n, SUM(CAST(a AS INT)) s FROM t.csv", f, [
            res([(n, sum(x[0] for x in v))], "ns")]
    if k == 2:
        w = sorted(v, key=lambda x: (x[1], -x[0]))
        return ("SELECT a, b FROM t.csv ORDER BY CAST(b AS INT), "
                "CAST(a AS INT) DESC"), f, [res(
                    [(b(x[0]), b(x[1])) for x in w], "ab")]
    if k == 3:
        c = {}
        for x in v:
            c[x[1]] = c.get(x[1], 0) + 1
        return "SELECT b, COUNT(*) n FROM t.csv GROUP BY b", f, [res(
            [(b(x), c[x]) for x in c], "bn", False)]
    if k == 4:
        return "SELECT a FROM t.csv WHERE c = 3", f, [res(
            [(b(x[0]),) for x in v if x[2] == 3], "a")]
    if k == 5:
        t = near(r, n + 2)
        return "SELECT TOP %d a FROM t.csv" % t, f, [res(
            [(b(x[0]),) for x in v[:t]], "a")]
    return "SELECT DISTINCT b, c FROM t.csv", f, [res(
        {(b(x[1]), b(x[2])) for x in v}, "bc", False)]


def columns(r, slow):
    """columns of a file"""
    n = near(r, 130 if slow else 1030)
    k = r.randrange(6)
    if k > 3 and not slow and r.random() < .7:
        n = r.randint(400, 1030)
    m = r.randint(1, 5)
    h = ["c%d" % i for i in range(n)]
    v = [["%d_%d" % (j, i) for i in range(n)] for j in range(m)]
    f = {"t.csv": csv(h, v)}
    if k == 0:
        return "SELECT * FROM t.csv", f, [res([map(b, x) for x in v], h)]
    if k == 1:
        i = near(r, n) - 1
        return "SELECT c%d FROM t.csv WHERE c%d <> 'q'" % (i, n - 1), f, [
            res([(b(x[i]),) for x in v], [h[i]])]
    if k == 2:
        p = list(range(n))
        r.shuffle(p)
        return "SELECT %s FROM t.csv" % ", ".join(h[i] for i in p), f, [
            res([[b(x[i]) for i in p] for x in v], [h[i] for i in p])]
    if k > 3:
        g = ", ".join(h)
        return "SELECT %s FROM t.csv GROUP BY %s" % (g, g), f, [
            res([map(b, x) for x in v], h, False)]
    return "SELECT DISTINCT * FROM t.csv ORDER BY c%d DESC" % (n - 1), f, [
        res([map(b, x) for x in reversed(v)], h)]


def fields(r, slow):
    """characters of a field"""
    n = near(r, 1 << 13 if slow else 1 << 17)
    s = letters(r, n)
    t = letters(r, r.choice([n, n, max(1, n // 2)]))
    v = [(s, "1"), (t, "2"), (s, "3"), ("m", "4")]
    if s == t:
        v = v[:1]
    r.shuffle(v)
    f = {"t.csv": csv("ab", v)}
    k = r.randrange(13)
    if k == 0:
        return "SELECT a, b FROM t.csv", f, [res(
            [map(b, x) for x in v], "ab")]
    if k == 1:
        return "SELECT b FROM t.csv WHERE a = '%s'" % s.upper(), f, [res(
            [(b(x[1]),) for x in v if x[0] == s], "b")]
    if k == 2:
        p = s[:10] + "%" + s[-4:] if n > 20 else s
        return "SELECT b FROM t.csv WHERE a LIKE '%s'" % p, f, [res(
            [(b(x[1]),) for x in v if x[0] == s], "b")]
    if k == 3:
        c = {}
        for x in v:
            c[x[0]] = c.get(x[0], 0) + 1
        return "SELECT COUNT(*) n, a FROM t.csv GROUP BY a", f, [res(
            [(c[x], b(x)) for x in c], "na", False)]
    if k == 4:
        return "SELECT a FROM t.csv ORDER BY a", f, [res(
            [(b(x[0]),) for x in sorted(v)], "a")]
    if k == 5:
        return "SELECT DISTINCT a FROM t.csv", f, [res(
            {(b(x[0]),) for x in v}, "a", False)]
    if k == 6:
        f["u.csv"] = csv("ac", [(s, "yes"), ("z" * n, "no")])
        w = [(b(x[1]), b(y)) for x in v for z, y in
             ((s, "yes"), ("z" * n, "no")) if x[0] == z]
        return ("SELECT t.b, u.c FROM t.csv t JOIN u.csv u ON t.a = u.a"), \
            f, [res(w, "bc", False)]
    if k == 7:
        return "SELECT LEN(a) n FROM t.csv", f, [res(
            [(len(x[0]),) for x in v], "n")]
    if k == 8:
        i, l = near(r, n), near(r, n)
        return "SELECT SUBSTRING(a, %d, %d) s FROM t.csv" % (i, l), f, [res(
            [(b(x[0][i - 1:i - 1 + l]),) for x in v], "s")]
    if k == 9:
        l = near(r, n)
        return ("SELECT LEFT(a, %d) l, RIGHT(a, %d) r FROM t.csv" % (l, l),
                f, [res([(b(x[0][:l]), b(x[0][-l:])) for x in v], "lr")])
    if k == 10:
        return "SELECT a + b + a c FROM t.csv", f, [res(
            [(b(x[0] + x[1] + x[0]),) for x in v], "c")]
    if k == 11:
        y = r.choice(["", "X", "XYZ"])
        return "SELECT REPLACE(a, 'e', '%s') c FROM t.csv" % y, f, [res(
            [(b(x[0].replace("e", y)),) for x in v], "c")]
    return ("UPDATE t.csv SET b = a WHERE b = '1'; "
            "SELECT a, b FROM t.csv"), f, [res(
                [(b(x[0]), b(x[0] if x[1] == "1" else x[1])) for x in v],
                "ab")], ["-o"]


def quoted(r, slow):
    """characters of a quoted field, lines within it, quotes within it"""
    n = near(r, 1 << 10 if slow else 1 << 14)
    c = r.choice(["x", "\"", "\n", ",", "ab\n", "\"\""])
    s = c * n
    v = [("1", s), ("2", "z"), ("3", s + "e")]
    f = {"t.csv": b"a,b\n" + b"".join(
        b("%s,\"%s\"\n" % (x, y.replace("\"", "\"\""))) for x, y in v)}
    k = r.randrange(3)
    if k == 0:
        return "SELECT a, b FROM t.csv", f, [res(
            [map(b, x) for x in v], "ab")]
    if k == 1:
        return "SELECT b FROM t.csv WHERE a = 3", f, [res(
            [(b(v[2][1]),)], "b")]
    return "SELECT b, COUNT(*) n FROM t.csv GROUP BY b", f, [res(
        [(b(x[1]), 1) for x in v], "bn", False)]


def groups(r, slow):
    """groups, keys of a join, different records"""
    n = near(r, 1 << 10 if slow else 1 << 14)
    m = r.choice([1, 1, 2, 3])
    pre = r.choice(["", "k", "some longer key "])
    v = [("%s%d" % (pre, i), j) for j in range(m) for i in range(n)]
    if r.random() < .5:
        r.shuffle(v)
    f = {"t.csv": csv("kv", v)}
    k = r.randrange(5)
    if k == 0:
        return "SELECT k, COUNT(*) n FROM t.csv GROUP BY k", f, [res(
            [(b(pre + str(i)), m) for i in range(n)], "kn", False)]
    if k == 1:
        return "SELECT DISTINCT k FROM t.csv", f, [res(
            [(b(pre + str(i)),) for i in range(n)], "k", False)]
    if k == 2:
        f["u.csv"] = csv("kw", [(pre + str(i), i) for i in range(0, n, 2)])
        return "SELECT t.k, w FROM t.csv t JOIN u.csv u ON t.k = u.k", f, [
            res([(b(pre + str(i)), b(i)) for i in range(0, n, 2)
                 for _ in range(m)], "kw", False)]
    if k == 3:
        f["u.csv"] = csv("kw", [(pre + str(i), i) for i in range(0, n, 2)])
        return ("SELECT t.k, w FROM t.csv t LEFT JOIN u.csv u "
                "ON t.k = u.k"), f, [res(
                    [(b(pre + str(i)), None if i % 2 else b(i))
                     for i in range(n) for _ in range(m)], "kw", False)]
    return ("SELECT n, COUNT(*) c FROM (SELECT k, COUNT(*) n FROM t.csv "
            "GROUP BY k) x GROUP BY n"), f, [res([(b(m), n)], "nc")]


def matches(r, slow):
    """records of a join that share a key"""
    n, m = near(r, 64 if slow else 300), near(r, 8 if slow else 40)
    if r.random() < .5:
        n, m = m, n
    f = {"t.csv": csv("ka", [("k", i) for i in range(n)]),
         "u.csv": csv("kb", [("k", i) for i in range(m)])}
    j = r.choice(["JOIN", "LEFT JOIN"])
    if r.random() < .5:
        return ("SELECT a, b FROM t.csv t %s u.csv u ON t.k = u.k" % j), f, \
            [res([(b(i), b(o)) for i in range(n) for o in range(m)], "ab",
                 False)]
    return ("SELECT COUNT(*) n FROM t.csv t %s u.csv u ON t.k = u.k" % j), \
        f, [res([(n * m,)], "n")]


def lists(r, slow):
    """items of an IN list"""
    n = near(r, 130 if slow else 520)
    f = {"t.csv": csv("a", [(i,) for i in range(n + 5)])}
    it = [str(2 * i) for i in range(n)]
    if r.random() < .5:
        it = ["'%s'" % x for x in it]
    no = r.random() < .3
    return "SELECT a FROM t.csv WHERE a %sIN (%s)" % (
        "NOT " if no else "", ", ".join(it)), f, [res(
            [(b(i),) for i in range(n + 5)
             if (i % 2 == 0 and i < 2 * n) != no], "a")]


def subquery_list(r, slow):
    """records of an IN subquery"""
    n = near(r, 1 << 9 if slow else 1 << 13)
    f = {"t.csv": csv("a", [(i,) for i in range(9)] + [(n * 2,), (n * 2 - 2,)]),
         "u.csv": csv("b", [(2 * i,) for i in range(n)])}
    w = [i for i in list(range(9)) + [n * 2, n * 2 - 2]
         if i % 2 == 0 and i < 2 * n]
    return "SELECT a FROM t.csv WHERE a IN (SELECT b FROM u.csv)", f, [
        res([(b(i),) for i in w], "a")]


def arms(r, slow):
    """arms of a UNION"""
    n = near(r, 12 if slow else 40, 2)
    f = {"t.csv": csv("a", [(i,) for i in range(3)])}
    k = r.randrange(3)
    o = []
    w = []
    for i in range(n):
        if k == 0:
            o.append("SELECT %d v" % i)
            w.append(i)
        elif k == 1:
            o.append("SELECT CAST(a AS INT) + %d v FROM t.csv" % i)
            w += [i, i + 1, i + 2]
        else:
            o.append("SELECT COUNT(*) + %d v FROM t.csv" % i)
            w.append(3 + i)
    t = " UNION ALL ".join(o)
    if r.random() < .3:
        return t + " ORDER BY v DESC", f, [res(
            [(x,) for x in sorted(w, reverse=True)], "v")]
    return t, f, [res([(x,) for x in w], "v", False)]


def joins(r, slow):
    """files joined"""
    n = r.randint(2, 6 if slow else 12)
    f = {}
    for i in range(n):
        ks = list(range(6))
        r.shuffle(ks)
        f["t%d.csv" % i] = csv(["k", "v%d" % i],
                               [(k, "%d_%d" % (i, k)) for k in ks
                                if k != i or i > 5])
    left = r.random() < .4
    s = "SELECT t0.k, %s FROM t0.csv t0" % ", ".join(
        "v%d" % i for i in range(n))
    for i in range(1, n):
        s += " %sJOIN t%d.csv t%d ON t%d.k = t%d.k" % (
            "LEFT " if left else "", i, i, 0 if left else r.randrange(i), i)
    w = []
    for k in range(1, 6):
        if left or k >= n:
            w.append([b(k)] + [None if k == i and i <= 5 else
                               b("%d_%d" % (i, k)) for i in range(n)])
    return s, f, [res(w, ["k"] + ["v%d" % i for i in range(n)], False)]


def branches(r, slow):
    """branches of a CASE"""
    n = near(r, 65 if slow else 300)
    vs = sorted({0, n - 1, n, n // 2, near(r, n) - 1})
    f = {"t.csv": csv("a", [(i,) for i in vs])}
    simple = r.random() < .5
    s = "CASE " + ("a " if simple else "") + " ".join(
        "WHEN %s%d THEN 'r%d'" % ("" if simple else "a = ", i, i)
        for i in range(n)) + " ELSE 'none' END"
    return "SELECT a, %s c FROM t.csv" % s, f, [res(
        [(b(i), b("r%d" % i if i < n else "none")) for i in vs], "ac")]


def depth(r, slow):
    """nesting"""
    k = r.randrange(5)
    f = {"t.csv": csv("a", [(i,) for i in range(4)])}
    if k == 0:
        n = near(r, 12)
        return "SELECT %s7%s + CAST(a AS INT) v FROM t.csv" % (
            "(" * n, ")" * n), f, [res([(7 + i,) for i in range(4)], "v")]
    if k == 1:
        n = near(r, 10)
        return "SELECT %sa%s v FROM t.csv" % (
            "ISNULL(" * n, ", 'x')" * n), f, [res(
                [(b(i),) for i in range(4)], "v")]
    if k == 2:
        n = near(r, 8)
        s = "t.csv"
        for i in range(n):
            s = "(SELECT a FROM %s) x%d" % (s, i)
        return "SELECT a FROM " + s, f, [res(
            [(b(i),) for i in range(4)], "a")]
    if k == 3:
        n = near(r, 8)
        s = "SELECT a FROM t.csv WHERE a > 0"
        for i in range(n):
            s = "SELECT a FROM t.csv WHERE a IN (%s)" % s
        return s, f, [res([(b(i),) for i in range(1, 4)], "a")]
    n = near(r, 8)
    s = "a = 2"
    for i in range(n):
        s = "NOT (%s)" % s
    return "SELECT a FROM t.csv WHERE " + s, f, [res(
        [(b(i),) for i in range(4) if (i == 2) == (n % 2 == 0)], "a")]


def variables(r, slow):
    """variables, and settings of one"""
    n = near(r, 100 if slow else 520)
    if r.random() < .5:
        s = "".join("DECLARE @v%d INT = %d; " % (i, i * 3) for i in range(n))
        i, j = near(r, n) - 1, n - 1
        return s + "SELECT @v%d x, @v%d y" % (i, j), {}, [
            res([(i * 3, j * 3)], "xy")]
    s = "DECLARE @v INT = 0; " + "".join(
        "SET @v = @v + %d; " % (i % 7) for i in range(n))
    return s + "SELECT @v x", {}, [res(
        [(sum(i % 7 for i in range(n)),)], "x")]


def statements(r, slow):
    """statements of a text"""
    n = near(r, 40 if slow else 260)
    f = {"t.csv": csv("a", [("5",)])}
    o, w = [], []
    for i in range(n):
        if r.random() < .7:
            o.append("SELECT %d x" % i)
            w.append(res([(i,)], "x"))
        else:
            o.append("SELECT a, %d x FROM t.csv" % i)
            w.append(res([(b"5", i)], "ax"))
    return r.choice(["; ", "\n", ";\n"]).join(o), f, w


def control(r, slow):
    """IFs within each other, IFs in a row, turns of a loop"""
    k = r.randrange(4)
    if k == 0:
        n = near(r, 16)
        at = r.randint(0, n)
        s = "SELECT 'in' x"
        for i in range(n):
            s = "IF 1 = %d BEGIN %s END ELSE BEGIN SELECT 'out%d' x END" % (
                2 if i == at else 1, s, i)
        return s, {}, [res([(b"in" if at == n else b("out%d" % at),)], "x")]
    if k == 1:
        n = near(r, 24)
        s = " ELSE ".join("IF @v = %d SELECT 'is %d' x" % (i, i)
                          for i in range(n)) + " ELSE SELECT 'no' x"
        v = r.randint(0, n)
        return "DECLARE @v INT = %d; %s" % (v, s), {}, [res(
            [(b("is %d" % v if v < n else "no"),)], "x")]
    if k == 2:
        n = near(r, 300 if slow else 2000)
        return ("DECLARE @i INT = 0; DECLARE @s INT = 0; WHILE @i < %d BEGIN "
                "SET @i = @i + 1; SET @s = @s + @i; END SELECT @i i, @s s"
                % n), {}, [res([(n, n * (n + 1) // 2)], "is")]
    n = near(r, 40 if slow else 260)
    return ("DECLARE @i INT = 0; WHILE @i < %d BEGIN SET @i = @i + 1; "
            "SELECT @i i, a FROM t.csv END" % n), \
        {"t.csv": csv("a", [("q",)])}, [
            res([(i + 1, b"q")], "ia") for i in range(n)]


def names(r, slow):
    """characters of a name"""
    n = near(r, 200)
    a = letters(r, n)
    k = r.randrange(6)
    v = [b"1", b"2"]
    if k == 0:
        return "SELECT %s FROM t.csv WHERE %s > 0" % (a, a.upper()), {
            "t.csv": csv([a, "q"], [(1, 0), (2, 0)])}, [
                res([(x,) for x in v], [a])]
    if k == 1:
        n = near(r, 5000)
        a = letters(r, n)
        return "SELECT a [%s] FROM t.csv" % a, {
            "t.csv": csv("a", [(1,), (2,)])}, [res([(x,) for x in v], [a])]
    if k == 2:
        n = near(r, 5000)
        a = letters(r, n)
        return "DECLARE @%s INT = 4; SELECT @%s x" % (a, a.upper()), {}, [
            res([(4,)], "x")]
    if k == 3:
        a = a[:127] + "t"          # TABLE_NAME_MAX
        return "SELECT %s.a FROM t.csv %s" % (a, a), {
            "t.csv": csv("a", [(1,), (2,)])}, [res([(x,) for x in v], "a")]
    if k == 4:
        n = near(r, 250)
        a = letters(r, n)
        return "SELECT a FROM [%s.csv]" % a, {
            a + ".csv": csv("a", [(1,), (2,)])}, [res([(x,) for x in v], "a")]
    m = r.randint(1, 10)
    d = "/".join(letters(r, r.choice([3, 60, 100])) for _ in range(m))
    return "SELECT a FROM [%s/t.csv]" % d, {
        d + "/t.csv": csv("a", [(1,), (2,)])}, [res([(x,) for x in v], "a")]


def literals(r, slow):
    """characters of a string in the text"""
    n = near(r, 1 << 12 if slow else 1 << 16)
    s = letters(r, n)
    if r.random() < .4:
        q = r.randrange(n)
        s = s[:q] + "'" * r.choice([1, 2, 9]) + s[q:]
    l = "'%s'" % s.replace("'", "''")
    k = r.randrange(4)
    if k == 0:
        return "SELECT %s x" % l, {}, [res([(b(s),)], "x")]
    if k == 1:
        return ("DECLARE @v VARCHAR(%d) = %s; SELECT @v x, LEN(@v) n"
                % (len(s), l)), {}, [res([(b(s), len(s))], "xn")]
    if k == 2:
        return "SELECT a + %s x FROM t.csv" % l, {
            "t.csv": csv("a", [("1",), ("2",)])}, [
                res([(b("1" + s),), (b("2" + s),)], "x")]
    m = near(r, n)
    return "SELECT CAST(%s AS VARCHAR(%d)) x" % (l, m), {}, [
        res([(b(s[:m]),)], "x")]


def terms(r, slow):
    """terms of a condition or of a calculation"""
    n = near(r, 65 if slow else 300)
    f = {"t.csv": csv("a", [(i,) for i in range(-1, n + 1)])}
    k = r.randrange(6)
    every = range(-1, n + 1)
    if k == 0:
        return "SELECT a FROM t.csv WHERE " + " OR ".join(
            "a = %d" % i for i in range(0, n, 2)), f, [res(
                [(b(i),) for i in range(0, n, 2)], "a")]
    if k == 1:
        return "SELECT a FROM t.csv WHERE " + " AND ".join(
            "a <> %d" % i for i in range(0, n, 2)), f, [res(
                [(b(i),) for i in every
                 if i % 2 or i >= n], "a")]
    if k == 2:
        return "SELECT CAST(a AS INT) + " + " + ".join(
            str(i) for i in range(n)) + " v FROM t.csv", f, [res(
                [(i + n * (n - 1) // 2,) for i in every], "v")]
    if k == 3:
        return "SELECT " + " - ".join(
            ["CAST(a AS INT)"] * n) + " v FROM t.csv", f, [res(
                [(i * (2 - n),) for i in every], "v")]
    if k == 4:
        return "SELECT a + " + " + ".join(
            "'%d'" % (i % 10) for i in range(n)) + " v FROM t.csv", f, [res(
                [(b(str(j) + "".join(str(i % 10) for i in range(n))),)
                 for j in every], "v")]
    return "SELECT a FROM t.csv WHERE " + " OR ".join(
        "(a = %d AND a < %d)" % (i, i + i % 2) for i in range(n)), f, [res(
            [(b(i),) for i in range(1, n, 2)], "a")]


def keys(r, slow):
    """keys to group, sort or join by; aggregates; records kept apart"""
    n = near(r, 20 if slow else 70)
    h = ["c%d" % i for i in range(n)]
    m = n + 1
    # the j-th differs from its neighbours in column j only
    v = [["1" if i == j else "0" for i in range(n)] + [str(j)]
         for j in range(m)]
    r.shuffle(v)
    f = {"t.csv": csv(h + ["id"], v + v)}
    k = r.randrange(6)
    g = ", ".join(h)
    if k == 0:
        return "SELECT COUNT(*) n, %s FROM t.csv GROUP BY %s" % (g, g), f, [
            res([[2] + [b(y) for y in x[:-1]] for x in v], ["n"] + h, False)]
    if k == 1:
        w = sorted(v + v, key=lambda x: x[:-1])
        return "SELECT id FROM t.csv ORDER BY " + g, f, [res(
            [(b(x[-1]),) for x in w], ["id"])]
    if k == 2:
        return "SELECT DISTINCT %s FROM t.csv" % g, f, [res(
            [[b(y) for y in x[:-1]] for x in v], h, False)]
    if k == 3:
        f["u.csv"] = csv(h + ["it"], v)
        return "SELECT t.id, u.it FROM t.csv t JOIN u.csv u ON " + \
            " AND ".join("t.%s = u.%s" % (x, x) for x in h), f, [res(
                [(b(x[-1]), b(x[-1])) for x in v + v], ["id", "it"], False)]
    if k == 4:
        n = near(r, 20 if slow else 130)
        a = [r.choice([("COUNT(*)", 2 * m), ("SUM(CAST(id AS INT))",
                                             m * (m - 1)),
                       ("MAX(CAST(id AS INT))", m - 1),
                       ("MIN(CAST(id AS INT))", 0)]) for _ in range(n)]
        return "SELECT %s FROM t.csv" % ", ".join(
            "%s a%d" % (x[0], i) for i, x in enumerate(a)), f, [res(
                [[x[1] for x in a]], ["a%d" % i for i in range(n)])]
    w = [x for x in v if x[-1] != "0"]
    return ("UPDATE t.csv SET %s WHERE id = 0; SELECT id, %s FROM t.csv"
            % (", ".join("%s = 'n%d'" % (x, i) for i, x in enumerate(h)), g)
            ), f, [res(
                [[b(x[-1])] + [b("n%d" % i) if x[-1] == "0" else b(y)
                               for i, y in enumerate(x[:-1])]
                 for x in v + v], ["id"] + h)], ["-o"]


def separators(r, slow):
    """characters of a delimiter and of a record terminator"""
    n, m = near(r, 31), near(r, 31)      # DELIM_LEN_MAX
    d = "d" + "".join(r.choice("|;~#") for _ in range(n - 1)) + ">"
    t = "<" + "".join(r.choice("|;~#") for _ in range(m - 1)) + "e"
    v = [("k%d" % i, i * 5) for i in range(near(r, 40))]
    k = r.randrange(3)
    if k == 0:
        return "SELECT a, b FROM t.csv", {"t.csv": b("\n".join(
            d.join(map(str, x)) for x in [("a", "b")] + v) + "\n")}, [res(
                [map(b, x) for x in v], "ab")], ["-s", d, "-S", ","]
    if k == 1:
        return "SELECT a, b FROM t.csv", {"t.csv": csv("ab", v)}, [res(
            [map(b, x) for x in v], "ab")], ["-S", d], ("delim", d)
    return "SELECT a, b FROM t.csv", {"t.csv": csv("ab", v)}, [res(
        [map(b, x) for x in v], "ab")], ["-R", t], ("term", t)


def copies(r, slow):
    """tables made and used by one text"""
    n = near(r, 16 if slow else 70)
    f = {"t.csv": csv("a", [(i,) for i in range(3)])}
    k = r.randrange(3)
    if k == 0:
        s = "".join("SELECT CAST(a AS INT) + %d a INTO [x%d.csv] FROM %s; "
                    % (1, i, "t.csv" if i == 0 else "[x%d.csv]" % (i - 1))
                    for i in range(n))
        return s + "SELECT a FROM [x%d.csv]" % (n - 1), f, [res(
            [(b(i + n),) for i in range(3)], "a")]
    if k == 1:
        s = "".join("SELECT a, '%d' b INTO #x%d FROM t.csv; " % (i, i)
                    for i in range(n))
        i = near(r, n) - 1
        return s + "SELECT a, b FROM #x%d" % i, f, [res(
            [(b(j), b(i)) for j in range(3)], "ab")]
    n = min(n, 20)
    s = " UNION ALL ".join("SELECT a FROM (SELECT a FROM t.csv) x%d" % i
                           for i in range(n))
    return s, f, [res([(b(j),) for _ in range(n) for j in range(3)], "a",
                      False)]


def changed(r, slow):
    """records updated or deleted"""
    n = near(r, 1 << 10 if slow else 1 << 14)
    v = [(i, i % 3) for i in range(n)]
    f = {"t.csv": csv("ab", v)}
    k = r.randrange(3)
    x = r.randrange(3)
    if k == 0:
        return ("DELETE FROM t.csv WHERE b = %d; SELECT a, b FROM t.csv" % x
                ), f, [res([(b(i), b(j)) for i, j in v if j != x], "ab")], \
            ["-o"]
    if k == 1:
        return ("UPDATE t.csv SET b = a + 'u' WHERE b = %d; SELECT a, b FROM "
                "t.csv" % x), f, [res(
                    [(b(i), b("%du" % i if j == x else j)) for i, j in v],
                    "ab")], ["-o"]
    return ("SELECT a, b INTO [n.csv] FROM t.csv WHERE b <> %d; "
            "SELECT COUNT(*) n FROM [n.csv]; SELECT a FROM [n.csv]" % x
            ), f, [res([(sum(j != x for _, j in v),)], "n"),
                   res([(b(i),) for i, j in v if j != x], "a")], []


def numbers(r, slow):
    """integers about the powers of two"""
    o, w = [], []
    for i in range(r.randint(1, 12)):
        k = r.randint(0, 62)
        a = (1 << k) + r.choice([-1, 0, 1])
        if a >= 1 << 63:
            a -= 1
        if r.random() < .4:
            a = -a
        c = r.choice([0, 1, -1, a >> 1, -a, 2])
        for op, x in r.sample([("+", a + c), ("-", a - c), ("*", a * c)], 1):
            if -(1 << 63) < x < 1 << 63:
                o.append("CAST(CAST(%s AS INT) %s CAST(%s AS INT) AS "
                         "VARCHAR(30))" % ("'%d'" % a, op, "'%d'" % c))
                w.append(x)
    f = {"t.csv": csv(["c%d" % i for i in range(len(w) or 1)],
                      [w or [0]])}
    if not w:
        return "SELECT 1 x", {}, [res([(1,)], "x")]
    if r.random() < .5:
        return "SELECT " + ", ".join(
            "%s x%d" % (x, i) for i, x in enumerate(o)), {}, [res(
                [[b(x) for x in w]], ["x%d" % i for i in range(len(w))])]
    return "SELECT " + ", ".join(
        "CAST(c%d AS INT) + 0 x%d, -CAST(c%d AS INT) y%d" % (i, i, i, i)
        for i in range(len(w))) + " FROM t.csv WHERE " + " AND ".join(
            "CAST(c%d AS INT) = %d" % (i, x) for i, x in enumerate(w)), f, [
                res([[y for x in w for y in (x, -x)]],
                    [p + str(i) for i in range(len(w)) for p in "xy"])]


DIMS = [rows, columns, fields, quoted, groups, matches, lists, subquery_list,
        arms, joins, branches, depth, variables, statements, control, names,
        literals, terms, keys, separators, copies, changed, numbers]
NO_THREADS = {copies, changed, statements, control}


def sized(env):
    r = env.rng
    d = r.choice(DIMS + [columns, fields, rows])
    t = d(r, env.variant != "plain")
    text, files, want = bracketed(t[0]), t[1], t[2]
    args = list(t[3]) if len(t) > 3 else []
    env.timeout = 120
    if r.random() < .3:
        args += ["-P", r.choice(
            ["2", "3", "16"] + ["1024"] * (d not in (arms, copies)))]
    if d not in NO_THREADS and r.random() < .15:
        args += ["-t"]
    o = env.cli(text, files, args)
    if len(t) > 4:
        what, x = t[4]
        out = o.out
        x = b(x)
        if what == "delim":
            cases.check_cli(env, want, o, delim=x, key=d.__name__)
        else:
            if not out.endswith(x):
                env.fail(d.__name__, "the last record has no terminator")
            o = o._replace(out=out.replace(x, b"\n"))
            cases.check_cli(env, want, o, key=d.__name__)
    else:
        cases.check_cli(env, want, o, key=d.__name__)
    env.count("sized by " + d.__name__)
    env.count("characters", len(text))
    env.nontrivial = True


def handle(env):
    """statements, resets, steps and variables of one API handle"""
    r = env.rng
    slow = env.variant != "plain"
    k = r.randrange(4)
    ops, want = [], []
    if k == 0:
        n = near(r, 20 if slow else 130)
        ops = []
        for i in range(n):
            ops += ["make:SELECT %d x" % i, "stepall", "reset"]
            want.append(res([(i,)], "x"))
        files = {}
    elif k == 1:
        n = near(r, 300 if slow else 4000)
        files = {"t.csv": csv("a", [(i,) for i in range(n)])}
        ops = ["make:SELECT a FROM t.csv", "stepall"]
        want = [res([(b(i),) for i in range(n)], "a")]
    elif k == 2:
        n = near(r, 20 if slow else 70)
        files = {"t.csv": csv("a", [(i,) for i in range(5)])}
        for i in range(n):
            ops += ["make:SELECT a, %d n FROM t.csv WHERE a > 2" % i,
                    "stepall"]
            if r.random() < .3:
                ops += ["reset"]
            if r.random() < .2:
                ops += ["renew"]
            want.append(res([(b"3", i), (b"4", i)], "an"))
    else:
        n = near(r, 20 if slow else 100)
        files = {"t.csv": csv("a", [(7,)])}
        ops = ["make:" + "; ".join("SELECT a, %d n FROM t.csv" % i
                                   for i in range(n))]
        for i in range(n):
            ops += ["stepall"]
            want.append(res([(b"7", i)], "an"))
    env.timeout = 120
    o = env.api(list(map(bracketed, ops)), files)
    cases.check_api(env, want, o, key="handle")
    env.count("operations", len(ops))
    env.nontrivial = True


def q26(r):
    r.rule = ("one quantity of a case near a power of two, up to what the "
              "counts say, the others small; what it gives is known in "
              "closed form; every case counts")
    cases.drive(r, GENS["Q26"], [
        ("sized", "plain", r.pick(900, 30000)),
        ("handle", "plain", r.pick(60, 2000)),
        ("sized", "asan", r.pick(60, 3000)),
        ("handle", "asan", r.pick(10, 400))])
    cases.known(r)


GENS = {"Q26": {"sized": sized, "handle": handle}}
ZYG = {}
