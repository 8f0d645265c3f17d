"""Programs: variables and control flow (Q19), new tables (Q22)."""
import re

from .. import cases, gen, sql as M
from ..gen import G
from ..prog import (SIZES, Block, Declare, If, Into, Program, Set, Show, Variable,
                    While, World, run_program)
from ..sql import Agg, And, Bin, Cast, Cmp, Const, IsNull, Not, Or, Select, Sub
from .change import change, look, view, some_table, spelled
from .query import fix_names

WORDS = ["x", "y", "n", "total", "name_1", "Abc", "i", "zz", "Value", "k2"]
TYPES = ["int", "int", "int", "float", "varchar", "varchar", "text", "bit",
         "bigint", "smallint", "char", "real"]


def recased(r, n):
    return r.choice([n, n, n.upper(), n.lower()])


class Writer:
    """writes programs; keeps which variables are in sight"""

    def __init__(self, r, world):
        self.r, self.w = r, world
        self.scopes = [[]]
        self.tables = list(world.tables)
        self.budget = r.randint(4, 14)
        self.counter = 0
        self.reserved = []      # counters of the loops around

    def seen(self):
        # a name means the innermost variable of that name
        by = {}
        for s in self.scopes:
            for v in s:
                by[v.name.lower()] = v
        return [v for n, v in by.items() if n not in self.reserved]

    def fresh(self):
        used = {v.name.lower() for v in self.seen()}
        if len(self.scopes) > 1 and self.r.random() < .3:
            used = {v.name.lower() for v in self.scopes[-1]}
        used |= set(self.reserved)
        c = [n for n in WORDS if n.lower() not in used]
        if c:
            return self.r.choice(c)
        self.counter += 1
        return "v%d" % self.counter

    def refs(self):
        acc = []
        for v in self.seen():
            x = v.ref()
            x.name = recased(self.r, x.name)
            acc.append(x)
        return acc

    def g(self, cols=()):
        return G(self.r, list(cols), self.refs())

    def expr(self, t, d=2):
        g = self.g()
        if self.tables and self.r.random() < .15:
            s = self.subquery(t)
            if s is not None:
                return s
        if t == "i":
            return self.r.choice([g.int, g.int, g.int, g.float])(d)
        if t == "f":
            return self.r.choice([g.float, g.float, g.int])(d)
        return self.r.choice([g.str, g.str, g.str, g.int])(d)

    def subquery(self, t):
        r = self.r
        tb = r.choice(self.tables)
        cols = gen.columns(tb, tb.file)
        g = self.g(cols)
        w = g.pred(1) if r.random() < .7 else None
        src = [(tb, None, None, None)]
        if t == "i" or r.random() < .3:
            return Sub(fix_names(Select([(Agg("COUNT", None), "n")], src,
                                        where=w)))
        c = [x for x in cols if x.kind == "s"]
        if t == "s" and c:
            q = fix_names(Select([(r.choice(c), None)], src, where=w))
            q.top = ("1", 1)
            return Sub(q)
        return None

    def cond(self):
        r = self.r
        g = self.g()
        k = r.random()
        if k < .15 and self.tables:
            return Cmp(r.choice(["=", ">", "<", "<>", ">="]),
                       self.subquery("i"), Const(r.randint(0, 8)))
        if k < .25:
            vs = self.refs()
            if vs:
                return IsNull(r.choice(vs), r.random() < .5)
        return g.pred(r.choice([1, 1, 2]))

    def variable(self):
        r = self.r
        to = r.choice(TYPES)
        n = None
        if to in ("varchar", "char"):
            n = r.choice([1, 2, 3, 5, 8, 20])
        return Variable(self.fresh(), to, n)

    def declare(self, n=None):
        r = self.r
        what = []
        for _ in range(n or r.choice([1, 1, 1, 2, 3])):
            v = self.variable()
            # an initial value cannot mention what is declared beside it
            self.reserved.append(v.name.lower())
            what.append((v, self.expr(v.t) if r.random() < .75 else None))
        del self.reserved[-len(what):]
        self.scopes[-1] += [v for v, _ in what]
        return Declare(what)

    def set(self):
        r = self.r
        vs = self.seen()
        if not vs:
            return self.declare(1)
        v = r.choice(vs)
        op = ""
        if r.random() < .4:
            op = "+" if v.t == "s" else \
                r.choice("+-*" if v.t == "f" else "+-*|&^")
        if op and op in "|&^":
            return Set(v, self.g().int(r.choice([1, 2])), op)
        return Set(v, self.expr(v.t, r.choice([1, 2])), op)

    def show(self):
        r = self.r
        k = r.random()
        if k < .6 or not self.tables:
            vs = self.refs()
            items = [(r.choice(vs) if vs and r.random() < .6 else
                      self.expr(r.choice("ifs"), 1), "c%d" % i)
                     for i in range(r.randint(1, 3))]
            return Show(fix_names(Select(items)))
        if r.random() < .3:
            return view(r, self.tables, self.refs())
        return look(r, r.choice(self.tables), self.refs())

    def block(self, depth, n=None, tail=()):
        body = [self.stmt(depth) for _ in range(n or self.r.choice(
            [1, 1, 2, 3]))]
        b = Block(body + list(tail), self.r)
        if len(b.body) == 1 and self.r.random() < .5 and \
                not isinstance(b.body[0], (Declare, Block)):
            b.bare = True
        return b

    def branch(self, depth, **kw):
        self.scopes.append([])
        b = self.block(depth, **kw)
        self.scopes.pop()
        return b

    def cond_if(self, depth):
        c = self.cond()
        yes = self.branch(depth + 1)
        no = None
        if self.r.random() < .5:
            if self.r.random() < .3 and depth < 3:
                no = self.cond_if(depth + 1)
            else:
                no = self.branch(depth + 1)
            # ELSE belongs to the last IF: do not leave one open
            if yes.bare:
                yes.bare = False
        return If(c, yes, no)

    def loop(self, depth):
        r = self.r
        v = Variable(self.fresh(), "int")
        pre = Declare([(v, Const(r.randint(-2, 2)))])
        self.scopes[-1].append(v)
        top = r.randint(0, 5)
        c = Cmp("<", v.ref(), Const(top))
        if r.random() < .3:
            c = And(c, self.cond()) if r.random() < .7 else c
        # nobody else may set the counter
        self.scopes[-1].remove(v)
        self.reserved.append(v.name.lower())
        body = self.branch(depth + 1, tail=[Set(v, Const(1), "+")])
        self.reserved.pop()
        self.scopes[-1].append(v)
        return Block([pre, While(c, body)], r, False)

    def stmt(self, depth=0):
        r = self.r
        self.budget -= 1
        k = r.random()
        if depth >= 4 or self.budget < 0:
            k *= .6
        if k < .2:
            return self.declare()
        if k < .42:
            return self.set()
        if k < .6:
            return self.show()
        if k < .8:
            return self.cond_if(depth)
        if k < .93:
            return self.loop(depth)
        return self.other(depth)

    def other(self, depth):
        # BEGIN and END alone open no scope
        return Block([self.stmt(depth + 1) for _ in range(
            self.r.choice([1, 2, 2]))], self.r)


class Changing(Writer):
    """programs that also change tables"""

    def other(self, depth):
        if self.r.random() < .8 and self.tables:
            return change(self.r, self.r.choice(self.tables), self.tables,
                          self.refs())
        return Writer.other(self, depth)


def program(env, kind=Writer):
    r = env.rng
    w = World([some_table(r, "t.csv")] if r.random() < .7 else [])
    if w.tables and r.random() < .3:
        w.tables.append(some_table(r, "u.csv"))
    wr = kind(r, w)
    stmts = [wr.stmt() for _ in range(r.randint(2, 7))]
    stmts.append(wr.show())
    run_program(env, Program(stmts, r), w, ["-P", "3"]
                if r.random() < .1 else (), "program")
    env.nontrivial = w.counts.get("variables_set", 0) + \
        w.counts.get("loop_turns", 0) + \
        w.counts.get("branches_taken", 0) > 1


class Imported(Declare):
    """DECLARE of a variable that has been imported: it has its value"""

    def __init__(self, v, value):
        Declare.__init__(self, [(v, None)])
        self.value = value

    def run(self, w):
        w.step()
        self.what[0][0].store(self.value)
        w.count("variables_imported")


def imported(env):
    """variables from outside (-D), declared again or not"""
    r = env.rng
    w = World([some_table(r, "t.csv")] if r.random() < .5 else [])
    wr = Writer(r, w)
    opts, stmts = [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        v = Variable(wr.fresh(), "text")
        to = r.choice(TYPES)
        value = r.choice([b"5", b"-17", b"0", b"240"]) if \
            SIZES[to] == "i" else r.choice([b"2.5", b"-0.25", b"7"]) if \
            SIZES[to] == "f" else G(r, []).str(0).ev({})
        if not value or b"=" in value or value != value.strip():
            continue
        sp = r.choice(["", "", "@"])
        opts += [r.choice(["-D", "--declare"]),
                 sp + v.name + "=" + value.decode()]
        if r.random() < .6:
            new = wr.variable()
            new.to, new.t, new.name = to, SIZES[to], recased(r, v.name)
            if to not in ("varchar", "char"):
                new.n = None
            elif new.n is None:
                new.n = 4
            stmts.append(Imported(new, value))
            v = new
        else:
            v.store(value)
        wr.scopes[-1].append(v)
    stmts += [wr.stmt() for _ in range(r.randint(1, 5))]
    stmts.append(wr.show())
    run_program(env, Program(stmts, r), w, opts, "imported")
    env.nontrivial = bool(opts)


def programs_changing(env):
    program(env, Changing)


def q19(r):
    r.rule = ("random programs of DECLARE, SET, IF, ELSE, WHILE, BEGIN and "
              "SELECT (and UPDATE, DELETE), what they print and the files "
              "they leave compared with a reference interpreter; "
              "non-trivial: at least two of variables set, turns of loops, "
              "branches taken")
    cases.drive(r, GENS["Q19"], [
        ("program", "plain", r.pick(3000, 80000)),
        ("programs_changing", "plain", r.pick(1000, 40000)),
        ("imported", "plain", r.pick(300, 10000)),
        ("program", "asan", r.pick(60, 3000))])
    cases.known(r)


GENS = {"Q19": {"program": program, "imported": imported,
                "programs_changing": programs_changing}}
ZYG = {}
