"""The same text, written and given in other ways (Q25)."""
import os
import re

from .. import cases, run
from ..cases import Via
from . import engine, io

TOKEN = re.compile(
    r"'(?:[^']|'')*'|\[[^\]]*\]|\"[^\"]*\"|[@#]?\w+(?:\.\d+)?|\.\d+"
    r"|<>|!=|<=|>=|!<|!>|[-+*/%&|^]=|\s+|.", re.S)

# words that name nothing
KEYWORDS = set("""SELECT FROM WHERE GROUP BY ORDER HAVING UNION ALL DISTINCT TOP
AS ON JOIN LEFT INNER OUTER AND OR NOT IN LIKE IS NULL BETWEEN EXISTS CASE WHEN
THEN ELSE END CAST COUNT SUM MIN MAX AVG UPDATE DELETE SET INTO DECLARE IF WHILE
BEGIN INT VARCHAR CHAR FLOAT BIT TEXT ISNULL LEN RIGHT SUBSTRING REPLACE DESC ASC
PERCENT BIGINT SMALLINT TINYINT REAL ESCAPE""".split())


def recase(r, w):
    k = r.random()
    return w.lower() if k < .35 else w.upper() if k < .6 else w.title() \
        if k < .75 else "".join(r.choice([c.lower(), c.upper()]) for c in w)


def comment(r):
    s = "".join(r.choice(["x", " ", "'", ";", "SELECT", "[", "\"", "--", "*",
                          "1", "END", "\u00e9"]) for _ in range(r.randint(0, 5)))
    if r.random() < .5:
        return "--" + s + "\n"
    return "/*" + s.replace("*/", "*") + ("\n" if r.random() < .2 else "") + \
        " */"


def space(r, rough):
    o = r.choice([" ", " ", "  ", "\n", "\t", "\r\n", " \n "])
    if r.random() < rough:
        o += comment(r) + r.choice(["", " ", "\n"])
    return o


def relaid(r, text, rough):
    """other case of keywords, other white space, comments"""
    toks = TOKEN.findall(text)
    out = []
    for i, t in enumerate(toks):
        before = toks[i - 1] if i else ""
        if t.isspace():
            out.append(space(r, rough))
            continue
        if i and not before.isspace() and before != "#" and \
                before not in ("@", "$") and t not in (".",) and \
                before != "." and r.random() < .2:
            out.append(space(r, rough))
        if t.upper() in KEYWORDS and before != "." and r.random() < .8:
            t = recase(r, t)
        out.append(t)
    s = "".join(out)
    if r.random() < .3:
        s = space(r, rough) + s
    if r.random() < .3:
        s += r.choice([";", " ; ", "\n", " ;;", "--", " -- x", "/**/"])
    return s


class Given(Via):
    def __init__(self, env, ways):
        self.env, self.r = env, env.rng
        self.rough = self.r.choice([0, .1, .4])
        self.way = self.r.choice(ways)
        self.again = self.r.random() < .8

    def text(self, sql):
        return relaid(self.r, sql, self.rough) if self.again else sql

    def run(self, mode, args, stdin):
        if mode != "cli":
            return Via.run(self, mode, args, stdin)
        r = self.r
        i = args.index("-c")
        text = self.text(args[i + 1])
        if self.way == "typed" and self.again and \
                not re.search(r"[\t\r]", args[i + 1]):
            text = text.replace("\t", " ").replace("\r\n", "\n")
        rest = args[:i] + args[i + 2:]
        way = self.way
        if stdin or "\0" in text:
            way = "-c"
        if way == "typed" and not run.can_type():
            way = "piped"
        if way == "typed" and re.search(r"[\x00-\x09\x0b-\x1f\x7f]", text):
            way = "piped"
        self.env.count("given " + way)
        if way == "-c":
            k = r.random()
            return (["-c", text] + rest if k < .3 else
                    rest + ["-c" + text] if k < .5 and text else
                    rest + ["--command=" + text] if k < .7 else
                    rest + ["-c", text]), stdin
        b = text.encode("utf-8", "surrogateescape")
        if way == "file":
            d = self.env.dir({"q.sql": b})
            p = os.path.join(d, "q.sql")
            k = r.random()
            return ([p] + rest if k < .3 else rest + ["--", p] if k < .5
                    else rest + [p]), stdin
        if way == "piped":
            return rest, b
        return rest, run.Typed(b + b"\n\x04")


def given(env, ways=("-c", "-c", "file", "file", "piped")):
    env.via = Given(env, ways)
    names = engine.CARRY
    n = env.rng.choice(names)
    env.count("of " + n)
    env.timeout = 30
    engine.BASE[n](env)


def typed(env):
    """at a terminal"""
    given(env, ["typed"])


def long_text(env):
    """of some thousand characters, in a few lines or many"""
    from .. import sql as M
    r = env.rng
    n = r.choice([1, 20, 200, 600])
    want, o = [], []
    for i in range(n):
        o.append("%d" % i)
    size = r.choice([0, 100, 900, 1023, 1024, 1025, 2047, 2048, 2049, 3000,
                     4095, 4096, 5000, 9000])
    s = "SELECT '%s' a" % ("x" * size)
    for x in o:
        s += r.choice([",", ", ", ",\n", ",\n\n"]) + x + " c"
    v = Given(env, ["-c", "file", "piped", "typed", "typed", "typed"])
    v.again = False
    env.via = v
    res = env.cli(s, {}, ["-q"])
    if res.code != 0:
        env.fail("refused", "exit status %d" % res.code)
    try:
        got = cases.parse_csv(res.out)
    except ValueError as e:
        env.fail("csv", str(e))
    if got[1:] != [(b"x" * size,) + tuple(x.encode() for x in o)]:
        env.fail("long text", "not the record asked for")
    env.count("characters", len(s))
    env.nontrivial = True


def typed_size(env):
    """lines whose length adds up to what a buffer might hold, more or less"""
    r = env.rng
    size = r.choice([1024, 1024, 1024, 2048, 4096, 512]) + r.randint(-3, 3)
    # every line is kept with the line feed in front of it
    lines, left, n = [], size, 0
    while left:
        w = r.randint(12, 68)
        if left - w - 1 < 14:
            w = left - 1 if left <= 69 else left // 2
        lines.append(w)
        left -= w + 1
    out = []
    for i, w in enumerate(lines):
        t = ("select " if not i else "") + "%d" % i + \
            ("," if i + 1 < len(lines) else "")
        k = r.random()
        out.append(t + " " * (w - len(t)) if k < .8 else
                   " " * (w - len(t)) + t)
    s = "\n".join(out)
    assert len(s) + 1 == size
    v = Given(env, ["typed"])
    v.again = False
    env.via = v
    res = env.cli(s, {}, ["-q", "-h"])
    if res.code != 0:
        env.fail("refused", "exit status %d" % res.code)
    want = ",".join(str(i) for i in range(len(lines))).encode()
    if res.out.split(b"\n")[0].strip() != want:
        env.fail("typed text", "not the record asked for")
    env.count("characters", len(s))
    env.nontrivial = True


def q25(r):
    r.rule = ("statements of every kind with the case of their keywords, "
              "white space and comments changed, given by option, file, "
              "standard input or typed at a terminal, against the model; "
              "non-trivial: as in the property the statement is from")
    cases.drive(r, GENS["Q25"], [
        ("given", "plain", r.pick(1200, 50000)),
        ("typed", "plain", r.pick(80, 3000)),
        ("long_text", "plain", r.pick(60, 2000)),
        ("given", "asan", r.pick(40, 2500)),
        ("typed", "asan", r.pick(20, 800)),
        ("long_text", "asan", r.pick(30, 800)),
        ("typed_size", "plain", r.pick(15, 300)),
        ("typed_size", "asan", r.pick(40, 800))])
    cases.known(r)


GENS = {"Q25": {"given": given, "typed": typed, "long_text": long_text,
                "typed_size": typed_size}}
ZYG = {}
