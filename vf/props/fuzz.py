"""Anything at all: no input makes it crash, corrupt memory or hang (Q12)."""
import os
import re

from .. import cases, gen, sql as M
from . import engine, talk

TOKEN = re.compile(
    r"'(?:[^']|'')*'|\[[^\]]*\]|@?\w+(?:\.\d+)?|<>|!=|<=|>=|\+=|-=|\s+|.",
    re.S)
WORDS = """SELECT FROM WHERE GROUP BY ORDER HAVING UNION ALL DISTINCT TOP AS ON
JOIN LEFT INNER OUTER AND OR NOT IN LIKE IS NULL BETWEEN EXISTS CASE WHEN THEN
ELSE END CAST CONVERT COUNT SUM MIN MAX AVG UPDATE DELETE SET INTO DECLARE IF
WHILE BEGIN BREAK CONTINUE PRINT INSERT VALUES DROP TABLE int varchar char
float bit text ISNULL NULLIF COALESCE LEN LEFT RIGHT SUBSTRING REPLACE UPPER
LOWER LTRIM RTRIM ROUND ABS FLOOR CEILING POWER ROW_NUMBER OVER PARTITION DESC
ASC PERCENT WITH CROSS FULL RIGHT APPLY ESCAPE RETURN GOTO EXEC DATALENGTH
CHARINDEX REPLICATE REVERSE STRING_AGG __stdin __1 GETDATE DAY MONTH YEAR
* , ( ) . ; = < > <= >= <> != + - / % & | ^ ~ += -= *= /= %= : ' " [ ]""".split()
LITERALS = ["0", "1", "-1", "2147483647", "2147483648", "9223372036854775807",
            "9223372036854775808", "-9223372036854775808", "1e400", "1e-400",
            "0x", "0xff", ".5", "5.", "1.7976931348623157e308", "''", "' '",
            "'a'", "'%'", "'_'", "'[a-c]'", "'[^'", "'['", "']'", "'\u00e9'",
            "N'x'", "''''", "NULL", "@x", "@@x", "@", "#t", "[t.csv]", "[]",
            "[ ]", "\"q\"", "t", "*", "a.*", "x.*", "-- c", "/* c */", "/*",
            "$", "1.2.3", "00000000000000000000000000000001", "count(*)",
            "sum(1)", "(select 1)", "(select 1, 2)", "case when 1=1 then 1 end",
            "cast('' as int)", "cast(1 as varchar(0))", "top 0", "top -1",
            "top 9999999999999999999", "order by 0", "order by 99", "group by 1",
            "union all select 1", "exists (select 1)", "where exists (select 1)",
            "in ()", "in (null)", "in (select 1)", "having 1 = 1", "distinct",
            "round(1.5, 400)", "left('a', -1)", "substring('abc', -1, 99)",
            "replicate('ab', 99)", "replace('a', '', 'b')", "declare @x int = 1;",
            "while 1 = 2 begin select 1 end", "if 1 = 1 select 2 else select 3"]


def alter(r, text, own, n):
    toks = TOKEN.findall(text)
    for _ in range(n):
        if not toks:
            toks = ["SELECT"]
        i = r.randrange(len(toks))
        k = r.random()
        if k < .14:
            del toks[i]
        elif k < .24:
            toks[i:i] = [toks[i]]
        elif k < .34:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k < .5:
            toks[i] = r.choice(WORDS)
        elif k < .62:
            toks[i:i + 1] = [toks[i], " ", r.choice(WORDS), " "]
        elif k < .78:
            toks[i] = r.choice(LITERALS)
        elif k < .84:
            toks[i:i] = [" ", r.choice(LITERALS), " "]
        elif k < .9:
            j = min(len(toks), i + r.randint(1, 12))
            p = r.randrange(len(toks) + 1)
            part = toks[i:j]
            if r.random() < .5:
                del toks[i:j]
                p = min(p, len(toks))
            toks[p:p] = part
        elif k < .94:
            toks[i] = r.choice(own)
        elif k < .96:
            toks = toks[:i]
        elif k < .98:
            j = r.randint(i, min(len(toks), i + 8))
            toks[i:j] = ["("] + toks[i:j] + [")"]
        else:
            c = toks[i]
            p = r.randrange(len(c) + 1)
            toks[i] = c[:p] + chr(r.choice([1, 7, 9, 10, 13, 34, 39, 44, 59,
                                            91, 93, 127, 0xe9, 0x20ac,
                                            0xdc80, 0xdcff])) + c[p:]
    return "".join(toks)


def ended(env, o, mode):
    """every way to end is fine but these"""
    ok = (0, 1, 87) if mode == "cli" else (0, 87)
    if o.code not in ok:
        env.fail("exit status", "%s" % o.code)
    env.count("accepted" if o.code == 0 else "refused")


def sources(env):
    for _ in range(5):
        try:
            return talk.capture(env)
        except M.Skip:
            pass
    raise M.Skip


def mutate(r, data, n):
    """bytes changed, lost, added and moved"""
    b = bytearray(data)
    for _ in range(n):
        i = r.randrange(len(b) + 1)
        j = min(len(b), i + r.choice([1, 1, 1, 2, 5, 20, 200]))
        k = r.random()
        if k < .2:
            b[i:i + 1] = bytes([r.randrange(256)])
        elif k < .4:
            b[i:i] = r.choice([b'"', b'""', b"\0", b"\n", b"\r", b"\r\n", b",",
                               b"\n\n", b"\xff", b"\xc3", b"\xe2\x82\xac",
                               b" ", b"\t", b"-", b"9" * 30, b"\xef\xbb\xbf",
                               b'"a""b"', b'"a\nb"', b',"', b'",', b"\x1a"])
        elif k < .5:
            del b[i:j]
        elif k < .6:
            p = r.randrange(len(b) + 1)
            b[p:p] = b[i:j]
        elif k < .66:
            b[i:i] = b"x" * r.choice([50, 255, 256, 1023, 1024, 1025, 4095,
                                      4096, 4097, 70000])
        elif k < .7:
            del b[i:]
        elif k < .74:
            b = bytearray(bytes(b).replace(b"\n", r.choice(
                [b"\r\n", b"\r", b"\n\n", b"", b"\0"])))
        elif k < .8:
            b[i:i] = b"," * r.choice([1, 3, 300])
        elif k < .84:
            b = bytearray(bytes(b).replace(b",", r.choice(
                [b";", b"\t", b"|", b",,", b'","', b"\x01\x02"])))
        elif k < .88 and b.endswith(b"\n"):
            del b[-1:]
        elif k < .92:
            ls = bytes(b).split(b"\n")
            a, z = sorted((r.randrange(len(ls) + 1), r.randrange(len(ls) + 1)))
            b = bytearray(b"\n".join(ls[:z] + ls[a:]))
        elif k < .94:
            b = bytearray(bytes(b) * r.choice([2, 40]))
        elif k < .96:
            b = bytearray()
        else:
            b[i:j] = bytes(r.randrange(256) for _ in range(j - i))
    # a record of N fields costs ASan's string checks N^2
    return bytes(b[:80000])


def run_text(env, s, files, imports, stdin=b"", opts=()):
    """every way to end is fine but being stopped, or not at all"""
    r = env.rng
    s = s.replace("\0", "")
    args = ["-q"] + list(opts)
    for x in (["-t"], ["-C"], ["-L"], ["-d"], ["-p"], ["-h"], ["-H"], ["-o"],
              ["--strict"], ["-b"], ["-W"], ["-P", "2"], ["-A"], ["-v"],
              ["--stable"], ["-s", ";"], ["-S", "ab"], ["-R", "|"],
              ["--in-std", "ALL"], ["--in-std", "NONE"], ["--in-std", "WEAK"],
              ["--out-std", "ALL"], ["--out-std", "NONE"]):
        if r.random() < .05:
            args += x
    loop = "while" in s.lower()
    if r.random() < .3 and not opts and not stdin:
        ops = ["import:" + x for x in imports]
        ops += r.choice([["make:" + s, "stepall"], ["exec:" + s],
                         ["make:" + s, "fields", "type", "text", "stepall"],
                         ["make:" + s, "step:1", "reset"],
                         ["make:" + s, "execall"]])
        ops += ["reset", "exec:SELECT 1 AS c"]
        args, mode = ops, "api"
    else:
        args += talk.imported(imports) + ["-c", s]
        mode = "cli"
    try:
        o = env.exec(mode, args, files, stdin=stdin, leaks=False, sane=True,
                     timeout=20)
    except cases.Violation as v:
        if v.key == "hang" and loop:
            env.count("loops_without_end")
            raise M.Skip
        raise
    # 87: what the statement was refused with has leaked
    if o.code not in ((0, 1, 87) if mode == "cli" else (0, 87)):
        env.fail("exit status", "%s" % o.code)
    if mode == "api" and b"rc exec" not in o.out.rstrip(b"\n").split(b"\n")[-1]:
        env.fail("unfinished", "the last call is not reported")
    env.count("accepted" if o.code == 0 else "refused")
    env.nontrivial = True


def text(env):
    """statements with tokens changed, added, lost and moved"""
    r = env.rng
    s, n, files, imports = sources(env)
    own = TOKEN.findall(s)
    s = alter(r, s, own, r.choice([1, 1, 1, 2, 3, 5, 8]))
    run_text(env, s, files, imports)


HERE = os.path.dirname(os.path.abspath(__file__))


def corpus():
    with open(os.path.join(HERE, "corpus.sql")) as f:
        return [l for l in f.read().split("\n") if l]


def exotic(env):
    """statements of the dialect that fql knows in part, if at all"""
    r = env.rng
    ss = corpus()
    s = r.choice(ss)
    if r.random() < .3:
        s += r.choice([" ", "; ", "\n"]) + r.choice(ss)
    if r.random() < .8:
        own = TOKEN.findall(s) + TOKEN.findall(r.choice(ss))
        s = alter(r, s, own, r.choice([1, 1, 2, 4]))
    files = {"t.csv": b"a,b\n1,x\n2,y\n1,z\n", "u.csv": b"k,c\n1,p\n2,q\n"}
    run_text(env, s, files, ["x=5"][:r.random() < .3],
             stdin=b"a,b\n1,2\n" if "__stdin" in s else b"")


def contents(env):
    """sound statements, and files that are not"""
    r = env.rng
    s, n, files, imports = sources(env)
    if not files:
        raise M.Skip
    f = r.choice(sorted(files))
    files[f] = mutate(r, files[f], r.choice([1, 1, 2, 4, 10]))
    run_text(env, s, files, imports)


def schema_text(r):
    """rows `name' or `name,width,char'"""
    odd = r.random() < .4
    w = r.random() < .6 or odd
    ls = []
    for i in range(r.choice([0, 1, 2, 2, 3, 6] if odd else [1, 2, 2, 3])):
        n = "abcdef"[i]
        if odd and r.random() < .3:
            n = r.choice(["a", "", '"q ""x"""', "a" * 300, "a,b", "*",
                          "default", "[x]", "'", "__rec"])
        n += ("," + (r.choice(["", "1", "0", "-1", "x", "99999",
                              "99999999999999999999", "1.5"])
                    if odd and r.random() < .3 else r.choice("1234"))) * w
        n += ("," + (r.choice(["", " ", "0", "ab", "\n", '"', "char", "int"])
                     if r.random() < .5 and odd else "")) * w
        ls.append(n)
    if odd and r.random() < .3:
        ls.insert(0, r.choice(["name", "name,width,char", "", "x,y,z", "a"]))
    return "\n".join(ls + [""][:r.random() < .9]).encode()


def schema(env):
    """schemas that make sense, some sense, or none"""
    r = env.rng
    t = r.choice([b"a,b\n1,x\n2,y\n1,z\n", b"1  x\n2  yy\n3", b"", b"1",
                  b"a" * 5000 + b"\n", b"\n\n\n"])
    d = schema_text(r)
    if r.random() < .25:
        d = mutate(r, d, r.choice([1, 2, 5]))
    name = r.choice(["s.txt", "default", "default", "t.csv", "s"])
    files = {"t.csv": t, "sch/" + name: d}
    s = r.choice(["SELECT * FROM [t.csv]", "SELECT a FROM [t.csv]",
                  "SELECT [a,b], b FROM [t.csv] ORDER BY b",
                  "SELECT a, COUNT(*) FROM [t.csv] GROUP BY a",
                  "SELECT x.a FROM [t.csv] x JOIN [t.csv] y ON x.a = y.a",
                  "UPDATE [t.csv] SET a = 1 WHERE a = 2",
                  "DELETE FROM [t.csv] WHERE a = 1",
                  "SELECT __1, __rec FROM [t.csv]",
                  "SELECT * INTO [n.csv] FROM [t.csv]"])
    if "JOIN" in s:
        files["t.csv"] = t[:200]
    opts = ["--schema-path", r.choice(["sch", "sch", "./sch"])
            if r.random() < .9 else r.choice([".", "", "nowhere", "t.csv"])]
    stem = r.choice([name, name.rsplit(".")[0]])
    k = r.random()
    if k < .5:
        s = s.replace("[t.csv]", "[%s].[t.csv]" % stem)
    elif k < .9:
        opts += ["--schema", stem]
    else:
        x = r.choice(["default", "", "..", "sch/" + name, "delimited",
                      "noheader", "."])
        if r.random() < .5:
            opts += ["--schema", x]
        else:
            s = s.replace("[t.csv]", "[%s].[t.csv]" % x)
    run_text(env, s, files, [], opts=opts)


def piece(r):
    """a few bytes, some of them halves of characters"""
    if r.random() < .3:
        # all of what is left of one
        c = r.choice([b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80"])
        return c[1:] if r.random() < .6 else c[:-1]
    return b"".join(r.choice([
        b"a", b"b", b" ", b"xy", b"\xc3\xa9", b"\xe2\x82\xac",
        b"\xf0\x9f\x98\x80", b"\xc3", b"\xa9", b"\xe2\x82", b"\xac",
        b"\xf0\x9f", b"\x80\x80\x80", b"\x80", b"\xff", b"\xf8\x88"])
        for _ in range(r.choice([0, 1, 1, 2, 3, 3, 5, 8, 30])))


def halves(env):
    """functions of text that holds halves of characters"""
    r = env.rng
    t = [(piece(r), piece(r), r.choice([b"0", b"1", b"2", b"3", b"5", b"-1",
                                        b"9", b"30"]))
         for _ in range(r.choice([1, 1, 2, 4]))]
    if r.random() < .3:
        t = [(a + b"z" * 40, b, c) for a, b, c in t]

    def lit():
        return "'%s'" % piece(r).decode("utf-8", "surrogateescape")

    def num():
        return r.choice(["0", "1", "1", "2", "2", "3", "4", "5", "8", "n",
                         "LEN(a)", "LEN(a) - 1", "LEN(a + b)"])

    def ex(d):
        k = r.random()
        if d == 0 or k < .25:
            return r.choice(["a", "b", "a + b", "a + ''", "b + a", lit()])
        x = ex(d - 1)
        if k < .5:
            return "%s(%s, %s)" % (r.choice(["LEFT", "RIGHT", "RIGHT"]), x,
                                   num())
        if k < .62:
            return "SUBSTRING(%s, %s, %s)" % (x, num(), num())
        if k < .74:
            return "REPLACE(%s, %s, %s)" % (x, ex(0), ex(0))
        if k < .86:
            return "CAST(%s AS %s(%s))" % (x, r.choice(["VARCHAR", "CHAR"]),
                                           r.choice("123458"))
        return "%s + %s" % (x, ex(d - 1))

    def cond():
        return r.choice(["%s LIKE %s", "%s = %s", "%s < %s"]) % (ex(1), ex(0))

    e = ex(r.choice([1, 1, 2, 3]))
    if r.random() < .4:
        # a text in memory of its own, cut near where it ends
        e = "%s(%s, %s)" % (r.choice(["LEFT", "RIGHT"]),
                            r.choice(["a + ''", "b + ''", "a + b",
                                      "REPLACE(a, 'q', '')", lit()]),
                            r.choice(["1", "1", "2", "2", "3", "LEN(a)"]))
    s = r.choice(["SELECT %s FROM [t.csv]", "SELECT %s FROM [t.csv]",
                  "SELECT LEN(%s) FROM [t.csv]",
                  "SELECT %s c FROM [t.csv] WHERE " + cond().replace("%", "%%"),
                  "SELECT a FROM [t.csv] WHERE %s LIKE '%%" + "a%%'",
                  "SELECT %s c FROM [t.csv] ORDER BY c",
                  "SELECT %s, COUNT(*) FROM [t.csv] GROUP BY b",
                  "UPDATE [t.csv] SET a = %s",
                  "SELECT %s"]) % e
    if r.random() < .1:
        s = "DECLARE @x VARCHAR(%s) = %s; SELECT @x, LEN(@x), RIGHT(@x, 1)" % (
            r.choice("1235"), lit())
    files = {"t.csv": b"a,b,n\n" + b"".join(b",".join(x) + b"\n" for x in t)}
    run_text(env, s, files, [])


def options(env):
    """options that make sense, some sense, or none"""
    r = env.rng
    v = lambda: r.choice(["", "0", "1", "-1", "2", "x", "99999999999999999999",
                          ",", "\n", "\\n", "'", '"', "a" * 300, "ALL", "none",
                          "=", "a=", "=b", "a=b", "a=b=c", "@x=1", "2=3",
                          "\u00e9", "\xff", "nowhere/x", "--", "-", "t.csv"])
    opts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        o = r.choice(["-s", "-S", "-R", "-P", "-D", "--in-std", "--out-std",
                      "--schema", "--schema-path", "-h", "-H", "-W", "-t",
                      "-C", "-L", "-o", "-p", "-v", "-b", "-A", "-d", "--stable",
                      "--strict", "--parse-only", "-Z", "--nothing", "-",
                      "--", "-hHW", "-sS", "--import", "--threading=1"])
        opts.append(o)
        if r.random() < .7:
            opts.append(v())
    s, n, files, imports = sources(env)
    run_text(env, s, files, imports, opts=opts)


def q12(r):
    r.rule = ("statements and files changed at random, statements of parts of"
              " the dialect that are not supported, schemas and options that "
              "make no sense; no crash, report of a sanitizer or hang may come"
              " of it; non-trivial: it was run and came to an end")
    cases.drive(r, GENS["Q12"], [
        ("text", "plain", r.pick(400, 20000)),
        ("text", "asan", r.pick(100, 6000)),
        ("exotic", "asan", r.pick(120, 6000)),
        ("contents", "plain", r.pick(300, 15000)),
        ("contents", "asan", r.pick(100, 6000)),
        ("schema", "asan", r.pick(70, 4000)),
        ("halves", "asan", r.pick(250, 10000)),
        ("options", "plain", r.pick(150, 5000)),
        ("options", "asan", r.pick(50, 3000))])
    cases.known(r)


GENS = {"Q12": {"text": text, "exotic": exotic, "contents": contents,
                "schema": schema, "halves": halves, "options": options}}
ZYG = {}
