#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide a property
check.py <property> replay <file>      show a recorded violation again"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import build, core  # noqa: E402


def table():
    from vf.props import (api, change, control, engine, fuzz, given, io, made, query, refuse, relational as rel, scalar,
                          size, special, talk, util)
    return {
        "Q01": query.q01, "Q02": scalar.q02, "Q03": scalar.q03,
        "Q04": scalar.q04, "Q05": scalar.q05, "Q06": rel.q06, "Q07": rel.q07, "Q08": rel.q08,
        "Q09": rel.q09, "Q10": change.q10, "Q11": refuse.q11, "Q23": refuse.q23, "Q13": engine.q13,
        "Q12": fuzz.q12, "Q14": engine.q14, "Q15": io.q15, "Q16": api.q16, "Q17": io.q17, "Q18": io.q18,
        "Q24": special.q24, "Q25": given.q25, "Q26": size.q26, "Q27": made.q27, "Q28": made.q28, "Q20": talk.q20, "Q22": talk.q22, "Q21": io.q21, "Q19": control.q19,
        "U01": util.hashmap, "U02": util.multimap, "U03": util.compositemap,
        "U04": util.vec, "U05": util.flex, "U06": util.fifo,
        "U07": util.fifo_mt, "U08": util.node, "U09": util.dgraph,
        "U10": util.string, "U11": util.helpers, "U12": util.field,
        "U13": util.sig,
    }


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    if prop == "setup":
        for v in ("plain", "asan"):
            print(build.zygote(v))
        return 0
    if len(sys.argv) > 3 and sys.argv[2] == "replay":
        d = json.load(open(sys.argv[3]))["replay"]
        if d["kind"] == "mon":
            from vf import mon
            return mon.replay(d)
        from vf import cases
        return cases.replay(d)
    tier = (sys.argv[2] if len(sys.argv) > 2
            else os.environ.get("VERIF_TIER", "quick"))
    r = core.Run(prop, tier)
    try:
        table()[prop](r)
    except build.BuildError as e:
        print("error: the build failed\n%s" % e)
        return 2
    except core.CheckError as e:
        print("error: %s" % e)
        r.finish()
        return 1 if r.viol else 2
    except Exception:
        traceback.print_exc()
        r.finish()
        return 1 if r.viol else 2
    return r.finish()


if __name__ == "__main__":
    sys.exit(main())
