"""The checks, one function per property."""
import os
import re

import gen
import vm
from vm import *


def run_vm(c, scens, **kw):
    """Run suites of tests with the tool and let the specification judge what it printed."""
    got = c.suites(scens)
    recs, replays = [], {}
    for s in scens:
        g = got[s.id]
        r = s.spec()
        seen = printed(g["out"])
        r.update(log=seen[:5000], clean=g["exit"] == 0, catalog=s.catalog(), kept=s.kept(g))
        recs.append(r)
        replays[s.id] = g
    c.samples.append({"files": {k: v for k, v in got[scens[0].id]["files"].items() if k.endswith(".burn")}, "printed": got[scens[0].id]["out"][:500]})
    n = sum(len(r["log"]) for r in recs)
    c.notes["printed_values_and_outcomes"] = c.notes.get("printed_values_and_outcomes", 0) + n
    v = c.judge("TraceVM", recs, replays, key=lambda r: r["id"].removeprefix("known/"), **kw)
    cut = {}
    for r in recs:
        m = re.match('"limit", (\\d+), {(.*)}', v[r["id"]][1])
        for x in re.findall('"(.*?)"', m.group(2)) if m else ["none"]:
            cut[x] = cut.get(x, 0) + 1
    c.notes["runs_by_limit_met"] = cut
    c.notes["values_judged"] = c.notes.get("values_judged", 0) + sum(int(re.search("\\d+", v[r["id"]][1]).group()) for r in recs)
    return v


def known(c, *keys):
    """one scenario for each listed defect of the interpreter, judged to its end"""
    out = []
    for k in keys:
        s = gen.defect(k)
        s.id, s.whole = "known/" + k, True
        out.append(s)
    return out


def many(c, quick, thorough):
    return thorough if c.thorough else quick


def wild(c, quick=50, thorough=600, **w):
    """programs that are read but not run, of every shape"""
    return [gen.wild(c.rng, "read%d" % i, w, maxdepth=c.rng.choice([2, 3, 5])) for i in range(many(c, quick, thorough))]


def shapes(c):
    """all bodies up to a size, each a script"""
    c.notes["every_body_up_to"] = n = many(c, 3, 4)
    all_of = [b for k in range(1, n + 1) for b in gen.shapes(k)]
    c.notes["bodies"] = len(all_of)
    return [Scenario("shapes%d" % i, gen.ONE(), [("s%d" % j, b) for j, b in enumerate(all_of[i:i + 150])], [], kind="burn", quiet=True)
            for i in range(0, len(all_of), 150)]


def jumps(c):
    """the jumps Compile derives, against the body read as nested statements"""
    c.model("MC_Script", cfg=many(c, "MC_Script", "MC_Script_deep"), what="compiled bodies in step with the nested reading, every body up to a size and every outcome of its conditions")


def machine(c):
    """the interpreter of the specification on its own"""
    c.model("MC_VM", cfg=many(c, "MC_VM", "MC_VM_deep"), what="properties of the interpreter over every short test, with a call and a test that follows")
    if c.thorough:
        c.model("MC_VM", cfg="MC_VM", what="the same for shorter tests, and that every run ends")


def store(c, whole=False):
    """the record store on its own"""
    c.model("MC_Db", cfg=many(c, "MC_Db" if whole else "MC_Db_quick", "MC_Db_deep"), what="every history of the record store, each operation against what it means")


def S01(c):
    r = c.rng
    jumps(c)
    w = {"if": 7, "loop": 1, "exit": 1}
    s = [gen.program(r, "if%d" % i, weights=w, maxdepth=r.choice([2, 3, 4, 6])) for i in range(many(c, 250, 1500))]
    s += [gen.nest(r, "nest%d" % d, d) for d in range(1, many(c, 13, 25))]
    s += known(c, "nested-if-skipped", "branch-flag") + wild(c, **{"if": 9}) + shapes(c)
    run_vm(c, s)


def S02(c):
    r = c.rng
    jumps(c)
    w = {"if": 2, "loop": 5, "exit": 4}
    s = [gen.program(r, "loop%d" % i, weights=w, maxdepth=r.choice([2, 3, 4])) for i in range(many(c, 110, 700))]
    s += [gen.record_loop(r, "rec%d" % i) for i in range(many(c, 80, 500))]
    s += [gen.nest_loops(r, "nest%d" % i, i % 7 + 1) for i in range(many(c, 28, 140))]
    s += [gen.long_loop(r, "long%d" % i, n) for i, n in enumerate([1, 2, 10, 55, 120] + ([300, 500] if c.thorough else []))]
    s += shapes(c) + wild(c, **{"loop": 8, "exit": 5, "nav": 4}) + known(c, "loop-scope", "exit-before-inner-loop", "exit-outside-loop", "exit-flag")
    run_vm(c, s)


def S03(c):
    r = c.rng
    machine(c)
    s = [gen.call_tree(r, "tree%d" % i, i % 9) for i in range(many(c, 150, 900))]
    s += [gen.recursion(r, "rec%d" % i, r.choice([1, 1, 2, 3, 5, 8, 20])) for i in range(many(c, 50, 300))]
    s += [gen.program(r, "prog%d" % i, nscripts=r.choice([1, 2, 4]), weights={"call": 4}, maxdepth=3)
          for i in range(many(c, 80, 500))]
    s += [gen.stored_calls(r, "stored%d" % i, r.choice([2, 2, 3, 4, 6])) for i in range(many(c, 60, 500))]
    s += [gen.stored_calls(r, "stored-many%d" % n, n) for n in [20, 60, 140] + many(c, [], [200, 250] * 3)]
    s += known(c, "unknown-script") + wild(c, call=8)
    run_vm(c, s)


def S04(c):
    r = c.rng
    s = [gen.variables(r, "var%d" % i) for i in range(many(c, 350, 3000))]
    s += known(c, "truth-value", "stale-variables") + wild(c, set=9)
    run_vm(c, s)


def D(c, w, *keys, quick=150, thorough=1200, sizes=(3, 8, 20, 40)):
    r = c.rng
    store(c, c.prop == "D01")
    s = known(c, *keys)
    s += [gen.data(r, "ops%d" % i, r.choice(sizes), w) for i in range(many(c, quick, thorough))]
    s += [gen.crowd(r, "crowd%d" % i, n) for i, n in enumerate([300 if c.prop in ("D02", "D04") else 30] + [12, 14, 17, 20, 24, 30, 40] + ([20, 130, 260, 400] if c.thorough else []))]
    run_vm(c, s + wild(c, 40, 400, **{"show" if k == "read" else k: v for k, v in w.items()}))


def D01(c): D(c, {}, "empty-go-last", "empty-go-next", "empty-read", "empty-set")
def D02(c): D(c, {"new": 10, "layout": 5})
def D03(c): D(c, {"setf": 12, "read": 8, "layout": 3}, "field-of-other-occurrence")
def D04(c): D(c, {"nav": 14, "layout": 3, "new": 7})
def D05(c): D(c, {"find": 7, "all": 2, "new": 8, "setf": 6})
def D06(c): D(c, {"layout": 10, "find": 3})


def E(c, what, *keys, quick=200, thorough=2000):
    run_vm(c, known(c, *keys) + [gen.expressions(c.rng, "e%d" % i, what) for i in range(many(c, quick, thorough))]
           + wild(c, 60, 800, set=6, show=6, exit=3, **{"if": 2}))


def E01(c):
    c.model("MC_Calc", cfg=many(c, "MC_Calc", "MC_Calc_deep"), what="calculations as trees against the row of tokens, with few, all and more parentheses")
    E(c, ["number", "chain", "chain", "deep"], "negative-zero")
def E02(c): E(c, ["compare"], "number-order", "text-order", "truth-value")
def E03(c): E(c, ["text", "text", "compare"], "text-literal")
def E04(c): E(c, ["call", "call", "tcall", "ccall"], "call-position", "call-arguments", "get-account", "abs-single-precision")


def T01(c): run_vm(c, [gen.asserting(c.rng, "a%d" % i) for i in range(many(c, 250, 2500))]
                   + [gen.deep_assert(c.rng, "deep%d" % i, 1 + i % 40) for i in range(many(c, 40, 200))] + wild(c, **{"assert": 8}))
def T02(c):
    machine(c)
    run_vm(c, known(c, "after-failure", "leftovers", "stale-variables") + [gen.suite(c.rng, "s%d" % i, c.rng.choice([2, 2, 3, 4, 7])) for i in range(many(c, 150, 1500))])
def T03(c): run_vm(c, [gen.command_line(c.rng, "c%d" % i, i % 9) for i in range(many(c, 250, 2500))])


from relations import R01, R02  # noqa: E402
from lang import L01, L02, L03, L04  # noqa: E402
from format import *  # noqa: E402,F403

READY = ["S01", "S02", "S03", "S04", "T01", "T02", "T03", "D01", "D02", "D03", "D04", "D05", "D06", "E01", "E02", "E03", "E04",
         "L01", "L02", "L03", "L04", "F01", "F02", "F03", "F04", "F05", "F06", "N01", "A01", "A02", "R01", "R02"]
CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[1:].isdigit() and callable(v) and (k in READY or k in os.environ.get("BURN_MORE", "").split(","))}
