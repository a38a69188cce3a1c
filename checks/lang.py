"""Checks of the burn language: sources in, compiled scripts and schemas out."""
import src


def chars(s):
    return list(s)


def steps_seen(steps):
    return [{"op": x["op"] if isinstance(x["op"], str) else str(x["op"]), "args": [chars(a) for a in x["args"]]} for x in steps]


def script_seen(s):
    return {"name": s["name"], "args": [chars(a) for a in s["args"]], "steps": steps_seen(s["steps"])}


def run_scripts(c, sources):
    """sources: [(id, text)] of script blocks"""
    got = c.tool([{"id": i, "op": "script", "src": s} for i, s in sources])
    recs, replays = [], {}
    for i, s in sources:
        if i not in got:
            continue
        g = got[i]
        seen = [script_seen(x) for x in sorted(g["res"]["schema"]["scripts"], key=lambda x: x["id"])] if g["status"] == "done" else [{"name": "?" + g["status"], "args": [], "steps": []}]
        recs.append({"id": i, "src": chars(s), "seen": seen})
        replays[i] = {"source": s, "observed": g}
    c.samples.append({"source": sources[0][1][:1500]})
    c.notes["source_characters"] = c.notes.get("source_characters", 0) + sum(len(s) for _, s in sources)
    return c.judge("TraceSource", recs, replays)


def run_sources(c, sources):
    """sources: [(id, text)] of whole burn sources"""
    got = c.tool([{"id": i, "op": "compile", "src": s} for i, s in sources])
    recs, replays = [], {}
    for i, s in sources:
        if i not in got:
            continue
        g = got[i]
        f = g["res"].get("schema")
        if g["status"] != "done" or f is None:
            seen = {"tables": ["?" + g["status"]], "lists": [], "occs": [], "rels": [], "scripts": [], "tests": []}
        else:
            order = lambda k: sorted(f[k], key=lambda x: x["id"])
            seen = {"tables": [x["name"] for x in order("tables")], "lists": [x["name"] for x in order("lists")],
                    "occs": [[x["name"], x["table_name"]] for x in order("occs")],
                    "rels": [[x["n1"], x["n2"]] for x in order("rels")],
                    "scripts": [script_seen(x) for x in order("scripts")],
                    "tests": [{"name": x["name"], "script": script_seen(x["script"])} for x in f["tests"]]}
        recs.append({"id": i, "src": chars(s), "seen": seen})
        replays[i] = {"source": s, "observed": g}
    c.samples.append({"source": sources[0][1][:1500]})
    c.notes["source_characters"] = c.notes.get("source_characters", 0) + sum(len(s) for _, s in sources)
    return c.judge("TraceTop", recs, replays)


def L01(c):
    r = c.rng
    out = []
    for i in range(1200 if c.thorough else 170):
        g = src.Source(r, maxdepth=r.choice([1, 2, 3, 4]))
        out.append(("src%d" % i, g.block([r.choice(src.WORDS) + str(k) for k in range(r.choice([1, 1, 1, 2, 4]))], r.choice([None, None, 1, 4]))))
    for d in range(1, 40 if c.thorough else 18):          # nesting to a given depth, around one step
        s = "assert(d);"
        for k in range(d):
            w = r.randrange(4)
            s = ("loop {%s}" % s if w == 0 else "if(c%d){%s}" % (k, s) if w == 1 else
                 "if (c) { assert(1); } else {%s}" % s if w == 2 else "if(a) {} elif(b(1,2)) {%s exit_loop_if(x);} else{}" % s)
        out.append(("deep%d" % d, "define deep() {%s}" % s))
    out += [("long_" + k, s) for k, s in src.long_scripts(r)]
    run_scripts(c, out)


def L02(c):
    r = c.rng
    c.model("MC_Args", what="argument scan against cuts by position: every text of up to 7 characters over 7 symbols")
    out = []
    texts = [t for n in range(0, 8 if c.thorough else 6) for t in src.plain_arg_texts(n)]
    r.shuffle(texts)
    for i in range(0, len(texts), 40):
        out.append(("all%d" % i, "define f() {%s}" % " ".join("%s(%s);" % (r.choice(["assert", "set_variable", "exit_script"]), t) for t in texts[i:i + 40])))
    c.notes["exhaustive_argument_texts"] = len(texts)
    for i in range(900 if c.thorough else 120):
        g = src.Source(r)
        body = "".join(r.choice(["set_variable", "set_field", "assert", "exit_loop_if"]) + src.args(r, r.choice([1, 2, 3, 5, 9])) + ";" + g.gap() for _ in range(r.choice([1, 4, 8])))
        if r.random() < .3:
            body += "if%s{%s}" % (src.args(r, 1), "elif".join([""] * 1) + "show_custom_dialog%s;" % src.args(r, 2))
        out.append(("args%d" % i, "define g%s {%s}" % (src.args(r) if r.random() < .3 else "()", body)))
    out += [("long_" + k, s) for k, s in src.long_scripts(r) if k in ("args", "arg", "parens", "blanks")]
    run_scripts(c, out)


def L03(c):
    r = c.rng
    out = []
    for i in range(900 if c.thorough else 130):
        out.append(("top%d" % i, src.Source(r, maxdepth=2).program(size=r.choice([0, 1, 2]))))
    for i, k in enumerate("tolrse"):                       # many of one kind
        out.append(("many" + k, src.Source(r, maxdepth=1).program(25, 1, k)))
        out.append(("crowd" + k, src.crowd(r, k, 1100 if c.thorough else 270)))
        out.append(("pair" + k, src.Source(r, maxdepth=1).program(9, 1, k + r.choice("tolrse"))))
    run_sources(c, out)


def run_refused(c, sources):
    """sources: [(id, text, class expected or "")]; some are given as test files"""
    got = c.tool([{"id": i, "op": "tests" if i.startswith("t") else "compile", "src": s} for i, s, _ in sources])
    recs, replays = [], {}
    for i, s, e in sources:
        g = got[i]
        recs.append({"id": i, "src": chars(s), "expect": e, "failed": g["exit"] not in (0, "hang"), "made": g["made"]})
        replays[i] = {"source": s, "observed": g}
    c.samples.append({"source": sources[0][1][:1500]})
    v = c.judge("TraceRefused", recs, replays)
    for x in ("refused", "compiled", "open"):
        c.notes[x] = sum(1 for _, m in v.values() if x in m)


def L04(c):
    r = c.rng
    c.model("MC_Top", cfg="MC_Top_deep" if c.thorough else "MC_Top", what="rows of words the machine refuses are exactly the rows that are no sound source")
    out, kinds = [], {}
    for i in range(4000 if c.thorough else 420):
        what, s = src.flawed(r)
        kinds[what] = kinds.get(what, 0) + 1
        out.append((("flaw%d" if i % 5 else "tflaw%d") % i, s, "refused"))
    for i in range(300 if c.thorough else 50):
        out.append((("sound%d" if i % 5 else "tsound%d") % i, src.Source(r, maxdepth=2).program(size=r.choice([0, 1, 2])), "compiled"))
    for i in range(40 if c.thorough else 5):               # every place where a source can stop
        g = src.Source(r, maxdepth=1)
        s = g.program(r.choice([1, 2]), 1, "toolrse")
        while len(s) > 220:
            s = g.program(1, 1, "toolrse")
        out += [("stop%d.%d" % (i, k), s[:k], "") for k in range(1, len(s) + 1)]
    c.notes["flaws"] = kinds
    run_refused(c, out)
