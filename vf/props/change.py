"""UPDATE, DELETE and SELECT INTO, programs: Q10, Q11, Q19, Q22."""
from .. import cases, gen, sql as M
from ..gen import G
from ..prog import (Block, Declare, Delete, If, Into, Program, Set, Show,
                    Update, Variable, While, World, bare_ok, check_files,
                    run_program, typed_expr)
from ..sql import And, Bin, Cast, Cmp, Const, In, InSub, Or, Select, Sub
from .query import again, fix_names
from .relational import extra, flip, join_key, of


def some_table(r, file, rows=None, nulls=.3, nasty=.15, names=None):
    kinds = "ksw" + "".join(r.choice("ifskw") for _ in range(r.randint(0, 2)))
    kinds = "".join(r.sample(kinds, len(kinds)))
    return gen.table(r, file, kinds, rows=rows, nulls=nulls, nasty=nasty,
                     names=names or r.sample(gen.NAMES, len(kinds)))


def spelled(r, t):
    """a name by which the table can be referred to"""
    if gen.REF_ONLY:
        return t.ref
    base = t.file.rsplit(".", 1)[0]
    return r.choice([t.ref, base, "[" + base + "]", t.ref])


def where(r, g, t, others=()):
    k = r.random()
    if k < .12:
        return None
    if k < .25 and others:
        o = r.choice(others)
        a = g.col("kw")
        if a is not None:
            cols = [c for c in gen.columns(o, o.file) if c.kind == a.kind]
            if cols:
                c = r.choice(cols)
                g2 = G(r, gen.columns(o, o.file))
                q = fix_names(Select([(c, None)], [(o, None, None, None)],
                                     where=g2.pred(1) if r.random() < .6
                                     else None))
                return InSub(a, q)
    if k < .35 and g.col("k") is not None:
        return Cmp("=", g.col("k"), Const(r.randint(0, 6)))
    if k < .4:
        return Cmp(*r.choice([("=", Const(1), Const(2)),
                              ("=", Const(1), Const(1))]))
    return g.pred(r.choice([1, 1, 2]))


def change(r, t, others=(), vars=()):
    """an UPDATE or a DELETE of the table"""
    form = r.random()
    al = None
    src = None
    target = spelled(r, t)
    if form < .35:
        al = r.choice(["x", "tt", "q"])
        src = [(t, al, None, None)]
        target = r.choice([al, al, t.ref])
    elif form < .5:
        src = [(t, None, None, None)]
        target = t.ref
    key = al or t.file
    cols = gen.columns(t, key, bool(al) and r.random() < .5)
    g = G(r, cols, vars)
    w = where(r, g, t, others)
    if r.random() < .35:
        return Delete(t, key, w, ("FROM " if not al and r.random() < .4
                                  and not src else "") + target, src)
    idx = r.sample(range(len(t.cols)), r.randint(1, min(3, len(t.cols))))
    sets = []
    for i in idx:
        k = t.cols[i][1]
        name = gen.ident(t.cols[i][0])
        if al and r.random() < .3:
            name = al + "." + name
        if k in "i" and r.random() < .25:
            sets.append((i, name, r.choice("+-*&|^"), Const(r.randint(0, 9))))
        elif k == "s" and r.random() < .25:
            sets.append((i, name, "+", Const(gen.word(r, nasty=.2))))
        elif r.random() < .15 and k in "sw":
            sets.append((i, name, "", Const(gen.word(r, nasty=.6)
                                            if k == "s" else b"cd")))
        else:
            sets.append((i, name, "", typed_expr(r, g, k)))
    return Update(t, key, sets, w, target, src)


def look(r, t, vars=()):
    """a SELECT that shows what the table is now"""
    cols = gen.columns(t, t.file)
    g = G(r, cols, vars)
    k = r.random()
    ref = (t, None, None, None)
    if k < .5:
        items = [(c, None) for c in cols]
        sel = fix_names(Select(items, [ref]))
        if r.random() < .5:
            text = "SELECT * FROM %s" % spelled(r, t)
            sel.sql = lambda: text
        return Show(sel)
    if k < .65:
        return Show(fix_names(Select([(M.Agg("COUNT", None), "n")], [ref],
                                     where=g.pred(1) if r.random() < .5
                                     else None)))
    if k < .8:
        q = fix_names(Select([(M.Agg("COUNT", None), "n")], [ref]))
        return Show(fix_names(Select([(Sub(q), "m")])))
    if k < .9:
        inner = fix_names(Select([(c, None) for c in cols], [ref]))
        out = [M.Col("z", i, c.name, c.kind, True, c.t) for i, c in
               enumerate(cols)]
        for c, o in zip(out, cols):
            c.plain = o.plain
        return Show(fix_names(Select([(c, None) for c in out],
                                     [(inner, "z", None, None)])))
    return Show(fix_names(Select(gen.select_items(r, g), [ref],
                                 where=g.pred(1))))


def view(r, ts, vars=()):
    """a SELECT that reads tables in several places"""
    def whole(t):
        return (t, None, None, None)

    def part(t):
        cols = gen.columns(t, t.file)
        g = G(r, cols, vars)
        q = Select([(r.choice(of(cols, "ksw")), None)], [whole(t)])
        k = r.random()
        if k < .4:
            q.where = where(r, g, t, ts)
        elif k < .5:
            n = fix_names(Select([(M.Agg("COUNT", None), "n")],
                                 [whole(r.choice(ts))]))
            q.where = Cmp(r.choice("<>"), Sub(n), Const(r.randint(0, 9)))
        return q

    def union():
        u = M.Union([fix_names(part(r.choice(ts)))
                     for _ in range(r.choice([2, 2, 3]))])
        names = u.parts[0].names()
        u.names = lambda: names
        return u

    k = r.random()
    if k < .3:
        return Show(union())
    if k < .5:
        u = union() if r.random() < .6 else fix_names(part(r.choice(ts)))
        e = getattr(u, "parts", [u])[0].items[0][0]
        c = M.Col("z", 0, e.name, e.kind, True, u.types()[0])
        c.plain = e.plain
        src = [(u, "z", None, None)]
        if r.random() < .3:
            return Show(fix_names(Select([(c, None), (M.Agg("COUNT", None),
                                                      "n")], src,
                                         group=[c])))
        return Show(fix_names(Select([(c, None)], src)))
    if k < .8:
        a, b = r.choice(ts), r.choice(ts)
        how = r.choice(["JOIN", "JOIN", "LEFT JOIN"])
        ca = gen.columns(a, "x", True)
        cb = gen.columns(b, "y", True, how != "JOIN")
        on = join_key(r, ca, cb)
        if r.random() < .3:
            on = And(on, extra(r, ca, cb))
        elif r.random() < .3 and how == "JOIN":
            on = extra(r, ca, cb)
        return Show(fix_names(Select(
            [(r.choice(ca), None), (r.choice(cb), None)],
            [(a, "x", "FROM", None), (b, "y", how, on)])))
    t = r.choice(ts)
    cols = gen.columns(t, t.file)
    c = r.choice(of(cols, "ksw"))
    if k < .9:
        return Show(fix_names(Select([(c, None), (M.Agg("COUNT", None), "n")],
                                     [whole(t)], where=where(
                                         r, G(r, cols, vars), t, ts),
                                     group=[c])))
    return Show(fix_names(Select([(c, None)], [whole(t)], distinct=True,
                                 where=where(r, G(r, cols, vars), t, ts))))


def one_change(env):
    r = env.rng
    t = some_table(r, "t.csv")
    u = some_table(r, "u.csv")
    w = World([t, u])
    s = change(r, t, [u, t])
    p = Program([s], r)
    args = ["-t"] if r.random() < .15 else []
    n = [list(x) for x in t.rows]
    run_program(env, p, w, args, "change")
    env.nontrivial = n != t.rows


def changes(env):
    r = env.rng
    ts = [some_table(r, "t.csv")]
    if r.random() < .5:
        ts.append(some_table(r, "u.csv"))
    w = World(ts)
    stmts = []
    for _ in range(r.randint(2, 5)):
        t = r.choice(ts)
        stmts.append(change(r, t, ts) if r.random() < .65 else
                     view(r, ts) if r.random() < .4 else look(r, t))
    p = Program(stmts, r)
    run_program(env, p, w, (), "changes")
    env.nontrivial = w.counts.get("rows_updated", 0) + \
        w.counts.get("rows_deleted", 0) > 0


def turns(r, w, body):
    """(statements that run body twice or more)"""
    v = body.v
    return [Declare([(v, Const(0))]),
            While(Cmp("<", v.ref(), Const(r.choice([2, 2, 3]))),
                  Block(body.stmts + [Set(v, Const(1), "+")], r))]


class Body:
    def __init__(self):
        self.v = Variable("turn", "int")
        self.stmts = []


def changes_again(env):
    """changes in a loop: the same plan over a file that has changed"""
    r = env.rng
    ts = [some_table(r, "t.csv")]
    if r.random() < .5:
        ts.append(some_table(r, "u.csv"))
    w = World(ts)
    b = Body()
    for _ in range(r.randint(1, 3)):
        t = r.choice(ts)
        if b.stmts and r.random() < .4:
            b.stmts.append(look(r, t, [b.v.ref()]) if r.random() < .6
                           else view(r, ts, [b.v.ref()]))
            continue
        s = change(r, t, ts, [b.v.ref()])
        b.stmts.append(s)
        if r.random() < .5 and not s.src:
            # other records each time
            c = Cmp(r.choice(["=", "<>", "<"]), b.v.ref(),
                    Const(r.randint(0, 2)))
            s.where = c if s.where is None else r.choice([And, Or])(
                *r.sample([c, s.where], 2))
    run_program(env, Program(turns(r, w, b), r), w,
                ["-t"] if r.random() < .1 else (), "changes again")
    env.nontrivial = w.counts.get("rows_updated", 0) + \
        w.counts.get("rows_deleted", 0) > 0


def keyed(r, file, al, unique):
    names = [n + "_" + al for n in ("k", "w", "s", "n")]
    t = gen.table(r, file, "kwsi", nulls=.2, names=names,
                  rows=r.choice([0, 1, 3, 6, 12, 25]))
    if unique:
        ks = [b"%d" % i for i in range(7)]
        r.shuffle(ks)
        t.rows = t.rows[:7]
        for x, k in zip(t.rows, ks):
            x[0] = k
    return t


def join_cond(r, key, left, cols, kind):
    """the condition of a join, and whether it is an equality of keys"""
    ps = [] if kind == "loop" else [key]
    if kind == "loop" or r.random() < .35:
        for _ in range(r.choice([1, 1, 2])):
            ps.append(extra(r, left, cols))
    r.shuffle(ps)
    return ps[0] if len(ps) == 1 else And(*ps)


def change_join(env):
    """UPDATE and DELETE of the left side of joins"""
    r = env.rng
    t = keyed(r, "t.csv", "a", False)
    ca = gen.columns(t, "a", True)
    src, scope, ts = [(t, "a", None, None)], [ca], [t]
    n = r.choice([1, 1, 1, 2, 2, 3])
    outer = False
    forced = r.random() < .1
    for k in range(n):
        al = "bcd"[k]
        u = keyed(r, "uvw"[k] + ".csv", al, r.random() < .8)
        if r.random() < .08:
            u.rows = []
        ts.append(u)
        left = [c for cs in scope for c in cs]
        cols = gen.columns(u, al, True)
        key = Cmp("=", *flip(r, scope[0 if r.random() < .7 else -1][0],
                             cols[0]))
        h = r.random()
        how = r.choice(["JOIN", "INNER JOIN", "join"])
        if h < .35 and not forced:
            how = r.choice(["LEFT JOIN", "LEFT OUTER JOIN"])
            on = join_cond(r, key, left, cols, "key")
            cols = gen.columns(u, al, True, True)
            outer = True
        elif h < .45 and not outer:
            # no hash key: nested loops
            on = join_cond(r, key, left, cols, "loop")
        elif h < .5 and not outer:
            how, on = ",", None
        else:
            on = join_cond(r, key, left, cols, "key")
        src.append((u, al, how, on))
        scope.append(cols)
    every = [c for cs in scope for c in cs]
    g = G(r, every)
    k = r.random()
    cond = None if k < .3 else Cmp("=", r.choice(of(every, "k")),
                                   Const(r.randint(0, 6))) if k < .6 \
        else g.pred(r.choice([1, 1, 2]))
    own = False
    if r.random() < .35:
        s = Delete(t, "a", cond, "a", src)
    else:
        own = r.random() < .4
        go = G(r, ca)
        idx = r.sample(range(4), r.randint(1, 3))
        sets = []
        for i in idx:
            name = r.choice(["", "a."]) + gen.ident(t.cols[i][0])
            k = t.cols[i][1]
            cb = r.choice(scope[1:])
            if own:
                e = typed_expr(r, go, k)
            elif r.random() < .5:
                e = cb[i] if k == "s" or not cb[i].nullable else \
                    typed_expr(r, g, k)
            else:
                e = typed_expr(r, g, k)
            sets.append((i, name, "", e))
        s = Update(t, "a", sets, cond, "a", src)
    s.ambiguous = False
    w = World(ts)
    stmts = [s, look(r, t)] if r.random() < .3 else [s]
    if getattr(env, "again", False):
        b = Body()
        b.stmts = stmts
        if isinstance(s, Update) and not own:
            raise M.Skip
        p = Program(turns(r, w, b), r)
    else:
        p = Program(stmts, r)
    rows = [list(x) for x in t.rows]
    # which of several matches counts is not said
    from ..prog import matches
    if isinstance(s, Update):
        matches(s)
        if s.ambiguous and not own:
            raise M.Skip
    run_program(env, p, w, ["-C"] if forced else (), "change by join")
    env.count("joins_left" if outer else "joins_inner")
    env.nontrivial = rows != t.rows


def q10(r):
    r.rule = ("random UPDATE and DELETE statements, alone, in sequence with"
              " SELECTs between them, and over joins; what is printed and"
              " every file afterwards are compared with the model; "
              "non-trivial: a table changed")
    cases.drive(r, GENS["Q10"], [
        ("one_change", "plain", r.pick(2400, 60000)),
        ("changes", "plain", r.pick(1600, 50000)),
        ("change_join", "plain", r.pick(1200, 40000)),
        ("changes_again", "plain", r.pick(500, 20000)),
        ("change_join_again", "plain", r.pick(250, 10000)),
        ("changes_again", "asan", r.pick(20, 1000)),
        ("change_join_again", "asan", r.pick(15, 600)),
        ("one_change", "asan", r.pick(40, 2000)),
        ("changes", "asan", r.pick(40, 2000)),
        ("change_join", "asan", r.pick(25, 1200))])
    cases.known(r)


GENS = {"Q10": {"one_change": one_change, "changes": changes,
                "change_join": change_join, "changes_again": changes_again,
                "change_join_again": again(change_join)}}
ZYG = {}
