"""Checks of the relationship graph and of related values."""
import os

import gen
from vm import *


def graph(r):
    """edges over numbered occurrences, in some order, some of them twice or turned"""
    n = r.choice([2, 3, 4, 6, 9, 15, 30])
    kind = r.randrange(5)
    name = r.sample(range(0, 400), n)
    edges = []
    if kind == 0:                                           # anything
        edges = [r.sample(range(n), 2) for _ in range(r.randrange(n * 2))]
    elif kind == 1:                                         # a tree or several
        edges = [[k, r.randrange(k)] for k in range(1, n) if r.random() < .9]
    elif kind == 2:                                         # a ring with chords
        edges = [[k, (k + 1) % n] for k in range(n)] + [r.sample(range(n), 2) for _ in range(r.randrange(3))]
    elif kind == 3:                                         # a grid: many paths of equal length
        w = r.choice([2, 3, 5])
        edges = [[k, k + 1] for k in range(n - 1) if (k + 1) % w] + [[k, k + w] for k in range(n - w)]
    else:                                                   # two parts
        h = n // 2 + 1
        edges = [r.sample(range(h), 2) for _ in range(n)] + ([r.sample(range(h, n), 2) for _ in range(n)] if n - h > 1 else [])
    edges = [e for e in edges if e[0] != e[1]]
    if edges:
        edges += [r.choice(edges)[::r.choice([1, -1])] for _ in range(r.randrange(4))]
    r.shuffle(edges)
    ask = [[a, b] for a in range(n) for b in range(n) if a != b]
    return [[name[a], name[b]] for a, b in edges], [[name[a], name[b]] for a, b in (ask if n < 7 else r.sample(ask, 40))]


def R01(c):
    r = c.rng
    c.model("MC_Paths", cfg="MC_Paths_deep" if c.thorough else "MC_Paths", what="breadth-first search answers what the specification allows, on every graph")
    scens = []
    for n in (2, 3, 4):                                     # every graph of up to four occurrences
        pairs = [[a, b] for a in range(1, n + 1) for b in range(1, a)]
        for m in range(1 << len(pairs)):
            e = [p if r.random() < .5 else p[::-1] for k, p in enumerate(pairs) if m >> k & 1]
            r.shuffle(e)
            scens.append({"id": "all%d.%d" % (n, m), "op": "relpath", "edges": e, "q": [[a, b] for a in range(1, n + 1) for b in range(1, n + 1) if a != b]})
    for i in range(3000 if c.thorough else 500):
        e, q = graph(r)
        scens.append({"id": "g%d" % i, "op": "relpath", "edges": e, "q": q})
    got = c.drive("relpath", scens)
    if got is None:
        return
    recs, replays = [], {}
    for s in scens:
        if s["id"] not in got:
            continue
        g = got[s["id"]]
        paths = g["res"].get("paths", [])
        recs.append({"id": s["id"], "edges": s["edges"], "asked": [q + [p] for q, p in zip(s["q"], paths)], "status": g["status"]})
        replays[s["id"]] = {"scenario": s, "observed": g}
    c.notes["questions"] = sum(len(x["asked"]) for x in recs)
    c.samples.append(recs[-1])
    c.judge("TracePaths", recs, replays)


CMP = {"==": "Equal", "!=": "NotEqual", "<": "Less", "<=": "LessEqual", ">": "Greater", ">=": "GreaterEqual", "x": "Cartesian"}


class Linked:
    """A schema with relationships, operations that fill it, and questions."""

    def __init__(self, sid, tables, occs, layouts, rels, ops, asked, whole=False, rng=None):
        self.id, self.ops, self.asked, self.whole = sid, ops, asked, whole
        self.rels = rels                                    # (occ, field, operator, occ, field)
        self.schema = Schema(tables, occs, layouts, rng, [(a, f, CMP[o], b, g) for a, f, o, b, g in rels])

    def spec(self):
        def one(o):
            if o["k"] == "new":
                return {"k": "new"}
            e = o["e"][0][1]
            if o["k"] == "layout":
                return {"k": "layout", "n": codes(e)}
            return dict({"k": o["k"], "v": value_json(e)}, **({"o": o["o"], "f": o["f"]} if o["k"] == "setf" else {}))
        return {"id": self.id, "S": self.schema.spec(), "rels": [dict(a=a, fa=f, op=o, b=b, fb=g) for a, f, o, b, g in self.rels],
                "ops": [one(o) for o in self.ops], "whole": self.whole}


def linked(r, sid):
    """mostly inside the limits, sometimes not"""
    bold = r.random() < .15
    nt = r.choice([1, 2, 3, 5])
    tables = [("t%d" % k, ["f%d" % j for j in range(1, r.choice([2, 3, 5]) + 1)]) for k in range(1, nt + 1)]
    no = r.choice([2, 2, 3, 4, 6])
    occs = [("o%d" % k, r.randrange(1, nt + 1)) for k in range(1, no + 1)]
    layouts = [("l%d" % k, k) for k in range(1, no + 1)]
    chained = r.random() < .6                               # one match field each, so that chains can be followed
    match = [r.randrange(1, len(tables[t - 1][1]) + 1) for _, t in occs]
    field = lambda o: match[o - 1] if chained else r.randrange(1, len(tables[occs[o - 1][1] - 1][1]) + 1)
    rels, pairs = [], set()
    for k in range(2, no + 1):
        if r.random() < .9:
            pairs.add((k, r.choice([k - 1, k - 1, r.randrange(1, k)])))
    while r.random() < .35 and no > 2:
        a, b = r.sample(range(1, no + 1), 2)
        pairs.add((max(a, b), min(a, b)))
    for a, b in r.sample(sorted(pairs), len(pairs)):
        a, b = b, a                                         # a file lists a relationship first with its smaller occurrence
        rels.append((a, field(a), r.choice(["==", "==", "!=", "<=", ">=", "<", ">", "x"]), b, field(b)))
    texts = r.random() < .4
    pool = r.choice([["ash", "oak", "elm"], ["a", "b", "c", "d", "e", "f"]]) if texts else r.choice([[1, 2, 3], [11, 22, 33, 44], [10.5, 20.5], [100, 200, 300, 400, 500, 600]])
    if bold:
        pool = ["a", "ab", "b", "zz"] if texts else [5, 10, 100, 7.5, 9]
    ops = []
    count = {}
    for _ in range(r.choice([3, 6, 12, 20, 20, 60])):
        o = r.randrange(1, no + 1)
        n = count[occs[o - 1][1]] = count.get(occs[o - 1][1], 0) + 1
        if n ** (no - 1) > 500000:                          # the code keeps a record once per way to it
            break
        ops += [s_layout(layouts[o - 1][0]), s_new()]
        for f in range(1, len(tables[occs[o - 1][1] - 1][1]) + 1):
            if r.random() < .97:
                ops.append(s_setf(o, f, lit(r.choice(pool))))
    full = {occs[int(o["e"][0][1][1:]) - 1][1] for o in ops if o["k"] == "layout"}
    held = [l for l in layouts if occs[l[1] - 1][1] in full]
    for _ in range(r.randrange(5)):
        ops += [s_layout(r.choice(held)[0]), s_nav(r.choice(["first", "last", "next", "previous", r.randrange(6)]))]
    if r.random() < .7:
        ops.append(s_layout(r.choice(layouts)[0]))
    cur = 1
    for o in ops:
        if o["k"] == "layout":
            cur = int(o["e"][0][1][1:])
    asked = [(o, f) for o in range(1, no + 1) if o != cur for f in range(1, len(tables[occs[o - 1][1] - 1][1]) + 1)]
    return Linked(sid, tables, occs, layouts, rels, ops, asked, rng=r)


def restriction(k):
    """one scenario for each known restriction of the code, judged whole"""
    T = [("t1", ["f1", "f2"]), ("t2", ["f1", "f2"]), ("t3", ["f1", "f2"])]
    O, L = [("o1", 1), ("o2", 2), ("o3", 3)], [("l1", 1), ("l2", 2), ("l3", 3)]

    def rec(o, *vs):
        return [s_layout("l%d" % o), s_new()] + [s_setf(o, f + 1, lit(v)) for f, v in enumerate(vs)]
    if k == "less-inclusive":
        rels, ops, ask = [(1, 1, "<", 2, 1)], rec(2, 5, 1) + rec(2, 6, 2) + rec(1, 5, 0), [(2, 2)]
    elif k == "mirrored-operator":
        rels, ops, ask = [(1, 1, "<=", 2, 1)], rec(1, 7, 1) + rec(1, 3, 2) + rec(2, 5, 0), [(1, 2)]
    elif k == "order-of-texts":
        rels, ops, ask = [(1, 1, "<=", 2, 1)], rec(2, 10, 1) + rec(2, 9, 2) + rec(1, 8, 0), [(2, 2)]
    else:
        rels, ops, ask = [(1, 1, "==", 2, 1), (2, 2, "==", 3, 1)], rec(3, 5, 1) + rec(3, 6, 2) + rec(2, 5, 6) + rec(1, 5, 0), [(3, 2)]
    return Linked("known/" + k, T, O, L, rels, ops, ask, whole=True)


def R02(c):
    r = c.rng
    scens = [linked(r, "s%d" % i) for i in range(3000 if c.thorough else 500)]
    scens += [restriction(k) for k in ("less-inclusive", "mirrored-operator", "order-of-texts", "second-hop-field")]
    drives = []
    for s in scens:
        path = os.path.join(c.tmp, s.id.replace("/", ".") + ".fmp12")
        with open(path, "wb") as f:
            f.write(stored(s.schema, [], r))
        body = source_of(s.ops, s.schema.names, r)
        names = s.schema.names
        drives.append({"id": s.id, "op": "related", "path": path, "test": "test T:\n  script: [\n    define T() {\n%s\n    }\n  ]\nend test;\n" % body,
                       "asked": [[names["occs"][o - 1], names["fields"][o - 1][f - 1]] for o, f in s.asked]})
    got = c.drive("related", drives)
    if got is None:
        return
    recs, replays = [], {}
    for s, d in zip(scens, drives):
        if s.id not in got:
            continue
        g = got[s.id]
        seen = g["res"].get("answers", [])

        def answer(a):
            return {"t": "R", "s": "panic"} if a == "panic" else {"t": "none"} if not a else value(a[0])
        rec = s.spec()
        rec.update(asked=[[o, f, answer(a)] for (o, f), a in zip(s.asked, seen)], status=g["status"])
        recs.append(rec)
        replays[s.id] = {"test": d["test"], "asked": d["asked"], "rels": s.rels, "observed": g, "occs": s.schema.occs}
        os.unlink(d["path"])
    c.samples.append({"test": drives[0]["test"], "rels": scens[0].rels})
    v = c.judge("TraceRelated", recs, replays, key=lambda x: x["id"].removeprefix("known/"))
    n = [re.findall(r"\d+", v[x["id"]][1])[:2] for x in recs]
    c.notes["answers_judged"] = sum(int(x[0]) for x in n)
    c.notes["of_them_values"] = sum(int(x[1]) for x in n)
    met = {}
    for x in recs:
        for k in re.findall(r'"([a-z-]+)"', (re.search("{(.*?)}", v[x["id"]][1]) or [""])[0]):
            met[k] = met.get(k, 0) + 1
    c.notes["scenarios_by_limit_met"] = met
