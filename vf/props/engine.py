"""How statements are executed: threads (Q13), pipes (Q14)."""
from .. import cases, gen
from . import change, control, query, relational, scalar

BASE = {}
for _m in (query, scalar, relational, change, control):
    for _q, _g in _m.GENS.items():
        for _n, _f in _g.items():
            BASE[_q + " " + _n] = _f

# what threads and pipes carry; constant folding and the like are left out
CARRY = ["Q01 scan", "Q01 star", "Q05 nulls", "Q06 join", "Q06 join",
         "Q07 grouped", "Q07 totals", "Q07 distinct", "Q07 group_join",
         "Q08 order", "Q08 order_join", "Q08 top", "Q09 union",
         "Q09 derived", "Q09 derived_join", "Q09 in_subquery",
         "Q09 scalar_subquery", "Q10 one_change", "Q10 changes",
         "Q10 change_join", "Q09 subquery_anywhere", "Q09 subquery_anywhere",
         "Q19 program", "Q19 programs_changing", "Q19 imported"]


JOINS = ("Q06 join", "Q07 group_join", "Q08 order_join", "Q09 derived_join",
         "Q10 change_join", "Q09 scalar_subquery")


def carry(env, cli, api, big=0):
    """a case of another property, run with these options"""
    r = env.rng
    n = r.choice(CARRY)
    env.count("of " + n)
    env.options = (cli, api)
    env.timeout = 30
    gen.SCALE = 1
    env.again = r.random() < .2
    if r.random() < big:
        gen.SCALE = r.choice([2, 4]) if n in JOINS else r.choice([4, 10, 30])
        env.count("large")
    try:
        BASE[n](env)
    finally:
        gen.SCALE = 1


def factor(r):
    return r.choice([2, 2, 3, 4, 5, 7, 8, 16, 64, 1000])


def threaded(env, big=.15):
    r = env.rng
    cli, api = ["-t"], ["set:threading=1"]
    if r.random() < .6:
        n = factor(r)
        cli += ["-P", str(n)]
        api += ["set:pipe_factor=%d" % n]
    carry(env, cli, api, big)


def threaded_small(env):
    threaded(env, 0)


def q13(r):
    r.rule = ("statements of every kind, executed with a thread for each "
              "process of the plan, with random delays at every lock, wait, "
              "signal and pipe function, against the model; ThreadSanitizer "
              "builds alongside; non-trivial: as in the property the "
              "statement is from")
    cases.drive(r, GENS["Q13"], [
        ("threaded", "plain", r.pick(1200, 40000)),
        ("threaded_small", "stress", r.pick(500, 25000)),
        ("threaded_small", "tsan", r.pick(250, 12000)),
        ("threaded_small", "stress-tsan", r.pick(60, 5000))],
        names=ZYG["Q13"])
    cases.known(r)


def piped(env):
    r = env.rng
    k = r.random()
    n = (r.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 31, 32, 33, 64])
         if k < .7 else r.choice([2, 3]) if k < .8 else
         r.choice([-2147483648, -1, 0, 1, 1023, 1024, 1025, 100000,
                   2147483647]))
    carry(env, ["-P", str(n)], ["set:pipe_factor=%d" % n], .2)


def q14(r):
    r.rule = ("statements of every kind over tables shorter and longer than "
              "the pipes, executed with pipes from two records up, through "
              "the CLI and stepping, against the model; non-trivial: as in "
              "the property the statement is from")
    cases.drive(r, GENS["Q14"], [
        ("piped", "plain", r.pick(3500, 100000)),
        ("piped", "asan", r.pick(80, 5000))])
    cases.known(r)


GENS = {"Q13": {"threaded": threaded, "threaded_small": threaded_small},
        "Q14": {"piped": piped}}
ZYG = {"Q13": ("plain", "stress", "tsan", "stress-tsan")}
