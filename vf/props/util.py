"""The monitors of the util layer, of fields and of the signal cleanup."""
from .. import mon
from ..mon import Job


def _map(kind, name):
    def check(r):
        ex = ["-DKIND=%d" % kind]
        slow = 2 if kind == 3 else 1
        q = 16000 // slow
        mon.jobs(r, [
            Job(name, "plain", r.pick(q, q * 20), ["mon_map.c"], extra=ex),
            Job(name, "asan", r.pick(3200 // slow, 60000 // slow),
                ["mon_map.c"], extra=ex),
            Job(name, "msan", r.pick(3200 // slow, 60000 // slow),
                ["mon_map.c"], extra=ex)])
    return check


def hashmap(r):
    r.rule = ("one round: a random history of set/get/has/clear/remove over a"
              " random universe of keys (random properties, growth limits and"
              " element sizes, FNV collisions included), every answer compared"
              " with a reference model; counted when its operations differ"
              " from every other round's")
    _map(0, "hashmap")(r)
    _map(1, "set")(r)


def multimap(r):
    r.rule = ("one round: a random history of set/get/clear over multi-valued"
              " keys compared with a reference model; counted when its"
              " operations differ from every other round's")
    _map(2, "multimap")(r)


def compositemap(r):
    r.rule = ("one round: a random history over composite keys of a random"
              " arity compared with a reference model; counted when its"
              " operations differ from every other round's")
    _map(3, "compositemap")(r)


def _simple(name, srcs, rule, plain, asan, **kw):
    def check(r):
        r.rule = rule + ("; counted when its operations differ from every"
                         " other round's")
        mon.jobs(r, [
            Job(name, "plain", r.pick(plain, plain * 30), srcs, **kw),
            Job(name, "asan", r.pick(asan, asan * 30), srcs, **kw),
            Job(name, "msan", r.pick(asan, asan * 30), srcs, **kw)])
    return check


vec = _simple("vec", ["mon_vec.c"],
              "one round: a random history of vector operations against a"
              " reference array", 60000, 30000)
flex = _simple("flex", ["mon_flex.c"],
               "one round: a random history of flex operations against"
               " reference arrays", 60000, 20000)
fifo = _simple("fifo", ["mon_fifo.c"],
               "one round: a random single-threaded history of fifo"
               " operations against a reference queue", 60000, 30000)
node = _simple("node", ["mon_node.c"],
               "one round: a random history of list operations against a"
               " reference list", 100000, 40000)
dgraph = _simple("dgraph", ["mon_dgraph.c"],
                 "one round: a random forest, consumed into others and"
                 " pruned, traversed and compared with a reference walk",
                 60000, 20000, min_events=4)
string = _simple("string", ["mon_string.c"],
                 "one round: a random history of string operations against a"
                 " reference buffer, or of string view comparisons against"
                 " their definition", 60000, 30000)
helpers = _simple("util", ["mon_util.c"],
                  "one round: random inputs to the number parsers, counters,"
                  " searches and directory listings against their definition",
                  30000, 10000)
field = _simple("field", ["mon_field.c"],
                "one round: random fields and variables of every type pair"
                " converted and compared with reference conversions",
                20000, 8000, lib=["field.c", "variable.c"])
sig = _simple("sig", ["mon_sig.c"],
              "one round: temporary files registered, dropped and removed in"
              " a random order, then a signal or an exit; the files that are"
              " left compared with those that should be",
              12000, 1200, lib=["fqlsig.c"], min_events=1)


def fifo_mt(r):
    r.rule = ("one round: producers, consumers and a closing thread (one"
              " fifo, two fifos waited for together, or a ring of tokens);"
              " every element accounted for; counted by the order in which"
              " the elements arrived, so equal interleavings count once")
    one = ["mon_fifo_mt.c"]
    mon.jobs(r, [
        Job("fifo_mt", "plain", r.pick(6000, 120000), one),
        Job("fifo_mt_stress", "plain", r.pick(1600, 30000), one, stress=True,
            timeout=800),
        Job("fifo_mt_stress2", "plain", r.pick(800, 16000), one, stress=True,
            envx={"STRESS_RATE": "3", "STRESS_US": "20"}, timeout=800),
        Job("fifo_mt_stress", "tsan", r.pick(1200, 24000), one, stress=True,
            timeout=800)])
