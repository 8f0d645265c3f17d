"""SELECT over one table: Q01 to Q05."""
import random

from .. import cases, gen, sql as M
from ..gen import G
from ..sql import (And, Bin, Case, Cast, Cmp, Col, Const, Fn, In, IsNull,
                   Like, Neg, Not, Or, Select, Table)


def fix_names(sel):
    """header names as the file spells them"""
    class N:
        pass
    names = gen.names_of(sel)
    sel.names = lambda: names
    return sel


def again(fn):
    """the generator with its query in the body of a loop: the same plan is
    run several times, and may select other rows each time"""
    def f(env):
        env.again = True
        return fn(env)
    return f


def by_turn(r, sel, v):
    """the selects in it depend on a variable"""
    n = 0
    for p in getattr(sel, "parts", [sel]):
        if "sql" in p.__dict__:
            continue
        for t, _, _, _ in p.src:
            if isinstance(t, (Select, M.Union)):
                n += by_turn(r, t, v)
        if not p.src or r.random() < .5:
            continue
        c = Cmp(r.choice(["=", "<>", "<", ">"]), v.ref(),
                Const(r.randint(0, 2)))
        p.where = c if p.where is None else r.choice([And, Or, Or])(
            *r.sample([p.where, c], 2))
        n += 1
    return n


def run_again(env, sel, files, key, args):
    from ..prog import Variable, World
    r = env.rng
    World([])
    v = Variable("turn", "int")
    if r.random() < .6:
        env.count("queries_by_turn", bool(by_turn(r, sel, v)))
    text = sel.sql()
    n = r.choice([2, 2, 3])
    v.store(0)
    want = []
    for i in range(n):
        v.store(i)
        want.append(sel.run())
        sel.cache = None
    text = "DECLARE @turn int = 0 WHILE @turn < %d BEGIN %s; " \
        "SET @turn += 1 END" % (n, text)
    o = env.cli(text, files, ["-q"] + list(args))
    cases.check_cli(env, want, o, key=key + " again")
    env.count("turns", n)
    return max(want, key=lambda w: len(w.rows))


def run_both(env, sel, files, key="result", api=.3, args=()):
    """Through the CLI, sometimes through the API"""
    pre = []
    if env.rng.random() < .15:          # pipes that few records fill
        args = list(args) + ["-P", "2"]
        pre = ["set:pipe_factor=2"]
    if getattr(env, "again", False):
        return run_again(env, sel, files, key, args)
    want = sel.run()
    text = sel.sql()
    if env.rng.random() < api:
        o = env.api(pre + ["make:" + text, "stepall"], files)
        cases.check_api(env, [want], o, key)
    else:
        o = env.cli(text, files, ["-q"] + list(args))
        cases.check_cli(env, [want], o, key=key)
    return want


def scan(env):
    r = env.rng
    t = gen.table(r, nasty=.1)
    g = G(r, gen.columns(t, "t.csv"))
    sel = Select(gen.select_items(r, g), [(t, None, None, None)],
                 where=g.pred(3) if r.random() < .75 else None)
    sel = fix_names(sel)
    if r.random() < .15:
        sel.top = (str(n := r.choice([0, 1, 2, 5, 100])), n)
    for s in sel.src:
        pass
    want = run_both(env, sel, {t.file: t.data()})
    env.nontrivial = bool(want.rows)
    env.count("rows_in", len(t.rows))


def star(env):
    r = env.rng
    t = gen.table(r, nasty=.2, nulls=.2)
    al = r.choice([None, "x", "tt"])
    key = al or t.file
    cols = gen.columns(t, key)
    items, text = [], []
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < .6:
            items += [(c, None) for c in cols]
            text.append("*" if al is None or r.random() < .5 else al + ".*")
        else:
            c = r.choice(cols)
            q = al + "." if al and r.random() < .5 else ""
            a = r.choice(["", "", "foo"])
            items.append((c, a or None))
            text.append(q + c.sql() + (r.choice([" ", " AS "]) + a if a
                                       else ""))
    g = G(r, cols)
    sel = fix_names(Select(items, [(t, al, None, None)],
                           where=g.pred(1) if r.random() < .5 else None))
    sql = "SELECT %s FROM %s%s" % (", ".join(text), t.ref,
                                   " " + al if al else "")
    if sel.where is not None:
        sql += " WHERE " + sel.where.sql()
    sel.sql = lambda: sql
    want = run_both(env, sel, {t.file: t.data()})
    env.nontrivial = bool(want.rows)


def no_table(env):
    r = env.rng
    g = G(r, [])
    items = [(g.any(r.randint(0, 3)), "c%d" % k)
             for k in range(r.randint(1, 4))]
    sel = fix_names(Select(items))
    want = run_both(env, sel, {})
    env.nontrivial = bool(want.rows)


def with_twins(r, t):
    """some names of the header occur again further right, spelled the same
    or in other letter case"""
    n = len(t.cols)
    for i in r.sample(range(n - 1), r.randint(1, n - 1)):
        j = r.randint(i + 1, n - 1)
        name = t.cols[i][0]
        t.cols[j] = (r.choice([name, name.upper(), name.swapcase()]),
                     t.cols[j][1])
    M.changed()


def first_ones(t, alias, r=None):
    """the columns that a name stands for: (columns, names of others)"""
    acc, seen = [], set()
    for c in gen.columns(t, alias):
        low = c.plain.lower()
        if low in seen:
            continue
        seen.add(low)
        if r and r.random() < .3:
            c.plain = r.choice([c.plain.upper(), c.plain.lower()])
            c.name = gen.ident(c.plain)
        acc.append(c)
    return acc


def twins(env):
    """a name that several columns have stands for the first of them"""
    from ..prog import Delete, Program, Update, World, run_program, typed_expr
    from .change import some_table
    r = env.rng
    t = some_table(r, "t.csv", nasty=0)
    with_twins(r, t)
    al = r.choice([None, "x"])
    cols = first_ones(t, al or t.file, r)
    g = G(r, cols)
    env.count("twins", len(t.cols) - len(cols))
    if r.random() < .6:
        if r.random() < .4:
            items = [(c, None) for c in gen.columns(t, al or t.file)]
            sel = fix_names(Select(items, [(t, al, None, None)],
                                   where=g.pred(2)))
            head = "SELECT %s FROM %s %s WHERE " % (
                r.choice(["*", "%s.*" % al if al else "*"]), t.ref, al or "")
            sel.sql = lambda: head + sel.where.sql()
        else:
            sel = fix_names(Select(gen.select_items(r, g),
                                   [(t, al, None, None)],
                                   where=g.pred(2) if r.random() < .5
                                   else None))
        want = run_both(env, sel, {t.file: t.data()})
        env.nontrivial = bool(want.rows)
        return
    w = World([t])
    was = [list(x) for x in t.rows]
    src = [(t, al, None, None)] if al else None
    where = g.pred(2) if r.random() < .7 else None
    if r.random() < .3:
        s = Delete(t, al or t.file, where, al or t.ref, src)
    else:
        s = Update(t, al or t.file, [
            (c.idx, c.name, "", typed_expr(r, g, c.kind))
            for c in r.sample(cols, r.randint(1, min(2, len(cols))))],
            where, al or t.ref, src)
    run_program(env, Program([s], r), w, [], "twins")
    env.nontrivial = t.rows != was


def q01(r):
    r.rule = ("a random table and a random SELECT (expressions, predicates,"
              " stars, aliases, TOP) run through the CLI or the API and"
              " compared, header and rows in order, with the reference"
              " evaluator; non-trivial: rows came out and the case differs"
              " from all others")
    cases.drive(r, GENS["Q01"], [
        ("scan", "plain", r.pick(5000, 150000)),
        ("star", "plain", r.pick(1500, 40000)),
        ("no_table", "plain", r.pick(700, 20000)),
        ("scan_again", "plain", r.pick(600, 20000)),
        ("twins", "plain", r.pick(900, 20000)),
        ("twins", "asan", r.pick(30, 1000)),
        ("scan", "asan", r.pick(80, 4000)),
        ("scan_again", "asan", r.pick(30, 1000))])
    cases.known(r)


GENS = {"Q01": {"scan": scan, "star": star, "no_table": no_table, "twins": twins,
                "scan_again": again(scan)}}
ZYG = {}
