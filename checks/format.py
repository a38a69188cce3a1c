"""Checks of the fmp12 format: chunk streams, files, codecs."""
import fmp


def chunk_record(i, scen, wrote, got):
    g = got["res"]
    seen = [[c[0], c[1], c[2], c[3], c[4], [int(p) for p in path], off] for c, off, path in g.get("chunks", [])]
    return {"id": i, "bytes": scen["bytes"], "from": scen["from"], "to": scen["to"], "seen": seen, "wrote": wrote,
            "end": g.get("end", got["status"]) if got["status"] == "done" else got["status"]}


def F01(c):
    r = c.rng
    c.model("MC_Chunks", cfg="MC_Chunks_deep" if c.thorough else "MC_Chunks", what="whatever is written with any code is read back, with its extent, key, payload and effect on the path")
    scens, wrote = [], {}

    def add(i, data, n, lead=None):
        lead = r.randrange(20, 60) if lead is None else lead   # a sector begins 20 bytes before its chunks
        b = [r.randrange(256) for _ in range(lead)] + data
        scens.append({"id": i, "op": "chunks", "bytes": b + [0] * 4, "from": lead, "to": len(b), "base": r.randrange(lead - 19)})
        wrote[i] = n
    # every code byte, before every kind of second byte, with and without open directories
    second = [0, 1, 2, 3, 64, 127, 128, 129, 200, 253, 254, 255] if not c.thorough else list(range(256))
    for code in range(256):
        for s in second:
            add("code%d.%d" % (code, s), [32, 7, code, s] + [r.choice([0, 1, 1, 2]) for _ in range(800)], -1, 23)
            scens[-1]["to"] = 26        # only this chunk counts
    for i in range(900 if c.thorough else 180):
        cs = fmp.stream(r, r.choice([1, 3, 10, 40]))
        add("stream%d" % i, [b for x in cs for b in x], len(cs))
    for code in fmp.CODES:
        for late in ([False, True] if code < 64 else [False]):
            for k in range(6 if c.thorough else 2):
                cs = [fmp.random_chunk(r, 32), fmp.random_chunk(r, 40), fmp.random_chunk(r, code, late, 1200)] + fmp.stream(r, 3)
                add("kind%d.%d.%d" % (code, late, k), [b for x in cs for b in x], len(cs))
    for code in (7, 15, 23, 31):                           # data that fills the sector
        for n in (2047, 3999, 4001, 4050, 4065):
            cs = [fmp.random_chunk(r, 32), fmp.random_chunk(r, code, False, length=n)] + [fmp.random_chunk(r, 128)]
            add("filled%d.%d" % (code, n), [b for x in cs for b in x], len(cs))
    for i in range(200 if c.thorough else 40):             # a code outside the format stops it
        cs = fmp.stream(r, r.choice([0, 2, 6]))
        bad = r.choice([x for x in range(256) if (x & 63 if x >= 192 else x) not in fmp.CODES])
        add("bad%d" % i, [b for x in cs for b in x] + [bad] + [r.randrange(256) for _ in range(9)], -1)
    got = c.drive("chunks", scens)
    if got is None:
        return whole_files(c)
    recs, replays = [], {}
    for s in scens:
        if s["id"] in got:
            recs.append(chunk_record(s["id"], s, wrote[s["id"]], got[s["id"]]))
            replays[s["id"]] = {"scenario": s, "observed": got[s["id"]]}
    c.samples.append({"bytes": scens[-1]["bytes"]})
    c.judge("TraceChunks", recs, replays)


# ---------------------------------------------------------------- whole files
def utf8(s):
    return list(s.encode())


def schema_rows(f):
    order = lambda k: sorted(f[k], key=lambda x: x["id"])
    return {
        "tables": [[t["id"], utf8(t["name"]), [[x["id"]] + [utf8(x[k]) for k in ("name", "desc", "type", "acc", "user")]
                                               for x in sorted(t["fields"], key=lambda x: x["id"])]] for t in order("tables")],
        "occs": [[o["id"], utf8(o["name"]), o["table"]] for o in order("occs")],
        "rels": [[x["id"], x["t1"], x["f1"], x["t2"], x["f2"], x["cmp"]] for x in order("rels")],
        "layouts": [[x["id"], utf8(x["name"]), x["occ"]] for x in order("layouts")],
        "sources": [[x["id"]] + [utf8(x[k]) for k in ("name", "user", "type", "path", "file")] for x in order("sources")],
        "scripts": [[s["id"], utf8(s["name"]), [[x["op"], x["idx"], [utf8(a) for a in x["args"]]] for x in s["steps"]]] for s in order("scripts")],
    }


def relocated(r, blob, start=2):
    """the same file with its sectors elsewhere, and as the specification reads it"""
    n = len(blob) // 4096
    sectors = [blob[k * 4096:(k + 1) * 4096] for k in range(n)]
    link = lambda k: int.from_bytes(sectors[k][8:12], "big")
    order, k = [], start
    while k:
        order.append(k)
        k = link(k)
    spare = r.choice([0, 0, 5])
    places = list(range(3, n + spare))
    if r is not None:
        r.shuffle(places)
    new = dict(zip(order[1:], places))
    new[start] = start
    new[0] = 0
    last = n + spare - 1
    out = bytearray(bytes(4096 * (last + 1)))
    out[:8192] = blob[:8192]
    out[4096 + 8:4096 + 12] = last.to_bytes(4, "big")
    spec = [[0, []] for _ in range(last)]
    for k in order:
        s = bytearray(sectors[k])
        s[8:12] = new[link(k)].to_bytes(4, "big")
        out[new[k] * 4096:(new[k] + 1) * 4096] = s
        spec[new[k] - 1] = [new[link(k)], list(bytes(s[20:]).rstrip(b"\0")) + [0] * 8]
    return bytes(out), spec


def samples(c):
    """FileMaker's own files, as they are and with their sectors elsewhere"""
    import os
    out = []
    for name in ("sample",):
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", name + ".fmp12"), "rb") as f:
            blob = f.read()
        for k in range(6 if c.thorough else 2):
            moved, spec = relocated(c.rng, blob)
            out.append(("%s%d" % (name, k), moved if k else blob, spec))
            if not k:
                plain = [[0, []] for _ in range(len(blob) // 4096 - 1)]
                i = 2
                while i:
                    s = blob[i * 4096:(i + 1) * 4096]
                    nxt = int.from_bytes(s[8:12], "big")
                    plain[i - 1] = [nxt, list(s[20:].rstrip(b"\0")) + [0] * 8]
                    i = nxt
                out[-1] = (out[-1][0], blob, plain)
    return out


def run_files(c, cats, parts):
    """cats: [(id, Catalog, room)]; the decompiler's schema of each file"""
    import os
    scens, specs = [], {}
    files = [(i, *cat.w.file(room), cat.counts) for i, cat, room in cats]
    files += [(i, blob, spec, []) for i, blob, spec in samples(c)]
    for i, blob, spec, counts in files:
        path = os.path.join(c.tmp, i + ".fmp12")
        with open(path, "wb") as f:
            f.write(blob)
        specs[i] = (spec, counts)
        scens.append({"id": i, "op": "decompile", "path": path})
    got = c.tool(scens)
    recs, replays = [], {}
    for s in scens:
        i = s["id"]
        if i not in got:
            continue
        g = got[i]
        seen = schema_rows(g["res"]["schema"]) if g["status"] == "done" else {}
        recs.append({"id": i, "sectors": specs[i][0], "wrote": specs[i][1], "status": g["status"], "parts": parts, "seen": seen})
        replays[i] = {"sectors": specs[i][0], "observed": g}
        os.unlink(s["path"])
    c.notes["sectors"] = sum(len(x["sectors"]) for x in recs)
    c.samples.append({"sectors": recs[0]["sectors"][:2]})
    return c.judge("TraceFile", recs, replays)


def whole_files(c):
    """for want of the functions themselves: files with a bit of everything"""
    r = c.rng
    cats = [("all%d" % i, fmp.Catalog(r, tables=r.choice([1, 3, 6]), fields=r.choice([1, 4]), occs=r.choice([1, 4, 9]), rels=r.choice([0, 3, 8]),
                                      layouts=r.choice([0, 3]), sources=r.choice([0, 2]), scripts=r.choice([0, 2]), steps=8, calc_depth=1),
             r.choice([None, 400, 900])) for i in range(300)]
    run_files(c, cats, ["tables", "occs", "rels", "layouts", "sources", "scripts"])


def F02(c):
    r = c.rng
    cats = []
    for i in range(1500 if c.thorough else 300):
        big = r.random() < .15
        cats.append(("tab%d" % i, fmp.Catalog(r, tables=r.choice([0, 1, 2, 5, 40 if big else 8]), fields=r.choice([0, 1, 4, 9]),
                                             occs=r.choice([0, 0, 2]), layouts=r.choice([0, 1])), r.choice([None, None, 300, 700, 1500])))
    cats.append(("manytables", fmp.Catalog(r, tables=255, fields=1, other=0), 2500))
    cats.append(("manyfields", fmp.Catalog(r, tables=1, fields=380, other=0), r.choice([None, 900])))
    cats.append(("manysectors", fmp.Catalog(r, tables=60, fields=14, other=0), 30))
    run_files(c, cats, ["tables"])


def F03(c):
    r = c.rng
    cats = []
    for i in range(1500 if c.thorough else 300):
        cats.append(("rel%d" % i, fmp.Catalog(r, tables=r.choice([1, 3, 6]), fields=r.choice([0, 2]), occs=r.choice([0, 1, 2, 4, 9, 25]),
                                             rels=r.choice([0, 1, 3, 8, 20]), layouts=r.choice([0, 1, 3, 10])), r.choice([None, None, 400, 900])))
    cats.append(("manyoccs", fmp.Catalog(r, tables=3, occs=255, rels=60, other=0), None))
    cats.append(("manyrels", fmp.Catalog(r, tables=1, occs=30, rels=255, other=0), 1500))
    cats.append(("manylayouts", fmp.Catalog(r, tables=1, occs=2, layouts=380, other=0), 2000))
    run_files(c, cats, ["occs", "rels", "layouts"])


def F04(c):
    r = c.rng
    cats = []
    for i in range(1500 if c.thorough else 300):
        cats.append(("scr%d" % i, fmp.Catalog(r, tables=r.choice([0, 1]), fields=1, scripts=r.choice([1, 2, 3, 6]), steps=r.choice([1, 4, 9, 30]), calc_depth=1),
                     r.choice([None, None, 1200])))
    for i in range(0, 220, 8):                             # every documented code, and the gaps
        cats.append(("codes%d" % i, fmp.Catalog(r, scripts=2, steps=40, known=list(range(max(1, i), i + 8)), calc_depth=0), None))
    cats.append(("manyscripts", fmp.Catalog(r, scripts=255, steps=2, calc_depth=0, other=0), None))
    for k in range(3):
        cats.append(("manysteps%d" % k, fmp.Catalog(r, scripts=1, steps=384, calc_depth=0, other=0), r.choice([None, 1300])))
    run_files(c, cats, ["scripts"])


def F05(c):
    r = c.rng
    cats = []
    for i in range(1500 if c.thorough else 300):
        cats.append(("calc%d" % i, fmp.Catalog(r, scripts=r.choice([1, 2]), steps=r.choice([4, 12, 20]), known=[141, 141, 103, 68], calc_depth=r.choice([0, 1, 2, 4])), r.choice([None, 1500])))
    run_files(c, cats, ["scripts"])


def F06(c):
    r = c.rng
    cats = []
    for i in range(1200 if c.thorough else 250):
        cats.append(("src%d" % i, fmp.Catalog(r, tables=r.choice([0, 1, 3]), fields=r.choice([0, 2]), sources=r.choice([0, 1, 2, 5, 9]), scripts=r.choice([0, 1])), r.choice([None, None, 400, 900])))
    run_files(c, cats, ["sources"])


# ------------------------------------------------------------------ encodings
def halves(n):
    return [n >> 16, n & 65535]


def N01(c):
    r = c.rng
    c.model("MC_Codec", cfg="MC_Codec_deep" if c.thorough else "MC_Codec", what="encodings of numbers, code points and index names lose nothing")
    batches = []                # (id, calls to the code, what the specification compares)

    def add(i, kind, args, show):
        batches.append((i, [[kind, a] for a in args], [[kind, show(a)] for a in args]))
    same = lambda a: a
    for k in range(0, 65536, 4096):
        add("int%d" % k, "int", range(k, k + 4096), halves)
    edge = [1 << k for k in range(32)] + [(1 << k) - 1 for k in range(33)] + [256 ** 3 + 1, 0xfffefdfc, 0x80000000, 0x01020304]
    add("edges", "int", [x for x in edge if x < 1 << 32], halves)
    for k in range(60 if c.thorough else 12):
        add("ints%d" % k, "int", [r.randrange(1 << r.randrange(1, 33)) for _ in range(1500)], halves)
        add("read%d" % k, "getint", [[r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(r.choice([1, 2, 4]))] for _ in range(1500)], same)
    for b in range(256):
        add("read1.%d" % b, "getint", [[b]] + [[b, x] for x in range(256)], same)
    add("dirs", "path", range(384), same)
    add("wide-path-number", "path", [384, 385, 500, 511, 512, 1000, 5000, 32895], same)
    add("getdirs", "getpath", [[x] for x in range(256)] + [[m, x] for m in (128, 252) for x in range(256)], same)
    cps = lambda s: [ord(x) for x in s]
    points = [chr(x) for x in range(0x3000)] + [chr(r.choice([r.randrange(0x3000, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)])) for _ in range(4000)] \
        + [chr(x) for x in (0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff)]
    for k in range(0, len(points), 2000):
        add("points%d" % k, "text", points[k:k + 2000], cps)
    for k in range(40 if c.thorough else 8):
        add("texts%d" % k, "text", ["".join(r.choice(points) if r.random() < .5 else chr(r.randrange(256)) for _ in range(r.randrange(40))) for _ in range(300)], cps)
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ _"
    add("names", "name", [""] + [a for a in letters] + [a + b for a in letters for b in letters], cps)
    for k in range(40 if c.thorough else 8):
        add("names%d" % k, "name", ["".join(r.choice(letters) for _ in range(r.choice([3, 10, 31, 100, 257]))) for _ in range(100)], cps)
    scens = [{"id": i, "op": "codec", "calls": calls} for i, calls, _ in batches]
    got = c.drive("codec", scens)
    if got is None:
        return whole_files(c)
    recs, replays = [], {}
    for i, calls, shown in batches:
        if i not in got:
            continue
        res = got[i]["res"].get("r", [])
        def seen(k, kind):
            if k >= len(res) or not isinstance(res[k], list):
                return []
            if kind == "int":
                return [res[k][0], halves(res[k][1])]
            return [halves(res[k][0])] if kind == "getint" else res[k]
        recs.append({"id": i, "calls": [[kind, x, seen(k, kind)] for k, (kind, x) in enumerate(shown)]})
        replays[i] = {"calls": calls[:40], "observed": res[:40]}
    c.notes["calls"] = sum(len(x["calls"]) for x in recs)
    c.samples.append({"calls": [b[1][0] for b in batches[:20]]})
    c.judge("TraceCodec", recs, replays)


# ------------------------------------------------------------------ assembler
ROOM = 4075 - 846             # what the sector holds besides the start-up values
def compile_and_read(c, i, text, name="x"):
    """compile a source with the tool and decompile what it assembled"""
    import json
    import os
    import shutil
    import tempfile
    from core import command, schema_of
    work = tempfile.mkdtemp(prefix="asm.", dir=c.tmp)
    os.mkdir(os.path.join(work, "inspect_output"))
    with open(os.path.join(work, name + ".burn"), "w") as f:
        f.write(text)
    rec = {"id": i, "status": "panic"}
    try:
        one = command(c.plain, ["-c", name + ".burn", "--no-testing"], work)
        with open(os.path.join(work, "inspect_output", "test_compile"), "rb") as f:
            rec["json"] = f.read()
        rec["compiled"] = schema_of(json.loads(rec["json"]))
        with open(os.path.join(work, name + ".fmp12"), "rb") as f:
            rec["bytes"] = f.read()
        two = command(c.plain, ["-d", name + ".fmp12", "--no-testing"], work)
        with open(os.path.join(work, "inspect_output", "test_decompile"), "rb") as f:
            rec["back_json"] = f.read()
        rec["back"] = schema_of(json.loads(rec["back_json"]))
        rec["status"] = "done" if one[0] == 0 and two[0] == 0 else "exit %s %s" % (one[0], two[0])
    except (FileNotFoundError, ValueError, KeyError, TypeError, AttributeError) as e:
        rec["status"] = "no result: %r" % e
    shutil.rmtree(work, ignore_errors=True)
    return rec


def room_for(tables, occs):
    """bytes of catalog that tables and occurrences take"""
    return sum(25 + 2 * len(t) for t in tables) + sum(20 + 2 * len(o) for o in occs)


def some_names(r, n):
    import src
    out = []
    for _ in range(n):
        w = r.choice(src.WORDS + ["Table", "ZebraQuiz", "jackdaws_love", "x", "_", "fgvkbw", "mPhoNYq"])
        w += r.choice(["", "", "_x", "%d" % r.randrange(99), "A" * r.choice([1, 2, 30, 80])])
        out.append(w.ljust(r.choice([98, 99, 100]), "k") if r.random() < .03 else w)
    return out


def catalog_source(r, tables, occs, scripts):
    import src
    g = src.Source(r, maxdepth=1)
    parts = {"t": [g.table(x) for x in tables], "o": [g.occ(x, r.choice(tables or ["nothing"])) for x in occs],
             "s": [g.scripts([x], 1) for x in scripts]}
    order = ["t"] * len(tables) + ["o"] * len(occs) + ["s"] * len(scripts)
    r.shuffle(order)
    return g.gap() + "".join(parts[k].pop(0) + g.gap1() for k in order)


def A01(c):
    import concurrent.futures
    r = c.rng
    c.model("MC_Assembled", cfg="MC_Assembled_deep" if c.thorough else "MC_Assembled", what="what is assembled from a small schema reads back and leaves no directory open")
    jobs = []
    for i in range(700 if c.thorough else 150):
        tables, occs = some_names(r, r.choice([0, 1, 2, 5, 12, 40, 70])), some_names(r, r.choice([0, 1, 2, 5, 20, 50]))
        while room_for(tables, occs) > ROOM:
            (tables if len(tables) > len(occs) else occs).pop()
        scripts = ["s%d" % k for k in range(r.choice([0, 1, 2, 7]))]
        name = r.choice(["x", "schema", "a_b", "Quarterly-Report_2024", "v1.2", "n" * 60, "x.burn", "x.burn.", "my schema", ".x", "..x", ".x.burn", "Größe", "日本", "X", "a" * 200, "fmp12", "y.fmp12"])
        jobs.append(("asm%d" % i, catalog_source(r, tables, occs, scripts), name, tables, occs, scripts))
    for n in range(0, 80, 9):                              # one kind only
        jobs.append(("tables%d" % n, catalog_source(r, ["t%d" % k for k in range(n)], [], []), "x", ["t%d" % k for k in range(n)], [], []))
        jobs.append(("occs%d" % n, catalog_source(r, [], ["o%d" % k for k in range(n)], []), "x", [], ["o%d" % k for k in range(n)], []))
    c.plain                                                # builds it once
    for i in range(30 if c.thorough else 8):               # up to the last byte
        tables, occs = [], []
        while room_for(tables, occs) < ROOM - 200:
            r.choice([tables, occs]).extend(some_names(r, 1))
        while (left := ROOM - i // 2 - room_for(tables, occs)) < 30:   # the last name may have come too close
            (tables if len(tables) > len(occs) else occs).pop()
        if left % 2:
            tables.append("f" * ((left - 25) // 2))
        else:
            occs.append("f" * ((left - 20) // 2))
        jobs.append(("full%d" % i, catalog_source(r, tables, occs, []), "x", tables, occs, []))
        c.notes.setdefault("bytes_left", []).append(ROOM - room_for(tables, occs))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda j: compile_and_read(c, j[0], j[1], j[2]), jobs))
    cps = lambda s: [ord(x) for x in s]
    recs, replays = [], {}
    for (i, text, name, tables, occs, scripts), g in zip(jobs, got):
        b = g.get("bytes", b"")
        b = b + bytes(5 * 4096 - len(b)) if len(b) < 5 * 4096 else b
        body = lambda k: b[k * 4096 + 20:(k + 1) * 4096]
        s = g.get("compiled", {"tables": [], "occs": [], "scripts": [], "layouts": []})
        rows = lambda k: [[x["id"], cps(x["name"])] for x in sorted(s[k], key=lambda x: x["id"])]
        end = b.find(b"/", 3082)
        recs.append({"id": i, "status": g["status"], "next": [int.from_bytes(b[k * 4096 + 8:k * 4096 + 12], "big") for k in range(1, len(b) // 4096)],
                     "bytes": list(body(2).rstrip(b"\0")) + [0] * 16, "pad": 8, "outside": sum(map(bool, body(1) + body(3) + body(4) + b[5 * 4096:])),
                     "src": {"tables": rows("tables"), "occs": rows("occs"), "layouts": len(s["layouts"]), "scripts": len(s["scripts"])},
                     "names": {"tables": [cps(x) for x in tables], "occs": [cps(x) for x in occs], "scripts": len(scripts)},
                     "seen": sorted(x["id"] for x in g["back"]["tables"]) if "back" in g else [],
                     "header": list(b[3082:end + 1]) if 0 <= end < 4096 else [], "name": list(name.encode())})
        replays[i] = {"source": text, "name": name, "status": g["status"], "catalog": recs[-1]["bytes"]}
    c.samples.append({"source": jobs[3][1][:1200]})
    c.judge("TraceAssembled", recs, replays)


# ------------------------------------------------------------------ same again
def observe(c, args, wants, files):
    """one run of the tool on given files: digests of what it wrote, and the
    order of the entries of each listing"""
    import hashlib
    import json
    import os
    import shutil
    import tempfile
    from core import command, schema_of
    work = tempfile.mkdtemp(prefix="same.", dir=c.tmp)
    os.mkdir(os.path.join(work, "inspect_output"))
    for name, blob in files.items():
        os.makedirs(os.path.dirname(os.path.join(work, name)), exist_ok=True)
        with open(os.path.join(work, name), "wb") as f:
            f.write(blob)
    code, out, err = command(c.plain, args, work)
    res, orders, status = [], [], "done" if code == 0 else "exit %s" % code
    for w in wants:
        try:
            with open(os.path.join(work, w), "rb") as f:
                blob = f.read()
            res.append(hashlib.sha256(blob).hexdigest())
            if w.startswith("inspect"):
                s = schema_of(json.loads(blob))
                orders += [[x["id"] for x in s[k]] for k in ("tables", "occs", "rels", "layouts", "lists", "sources", "scripts")]
                orders += [[f["id"] for f in t["fields"]] for t in s["tables"]]
        except (FileNotFoundError, ValueError, KeyError, TypeError, AttributeError) as e:
            status = "no result %r" % e
            res.append("")
    shutil.rmtree(work, ignore_errors=True)
    return status, res, orders


def A02(c):
    import concurrent.futures
    import src
    r = c.rng
    c.plain
    jobs = []                                              # (id, [args of each run], wants, files)
    for i in range(300 if c.thorough else 60):
        while True:
            tables, occs = some_names(r, r.choice([0, 3, 12])), some_names(r, r.choice([0, 3, 12]))
            if room_for(tables, occs) < ROOM - 700:
                break
        scripts = ["s%d" % k for k in range(r.choice([0, 2, 9, 40]))]
        text = catalog_source(r, tables, occs, scripts) + src.Source(r, maxdepth=1).program(r.choice([0, 4, 9]), 1, "lrs")
        runs = [["-c", "x.burn", "--no-testing"]] * (8 if c.thorough else 5)
        jobs.append(("comp%d" % i, runs, ["x.fmp12", "inspect_output/test_compile"], {"x.burn": text.encode()}))
        jobs.append(("compafter%d" % i, runs[:2] + [["-c", "e.burn", "-c", "x.burn", "--no-testing"], ["-c", "sub/x.burn", "--no-testing"],
                                                    ["-t", "t.burn", "-c", "x.burn", "--no-testing"]], ["x.fmp12"],
                     {"x.burn": text.encode(), "sub/x.burn": text.encode(), "e.burn": r.choice([b"", b"\n", b" \t\n"]), "t.burn": src.Source(r, maxdepth=2).program(4, 2).encode()}))
        jobs.append(("comptwice%d" % i, runs[:2] + [["-c", "x.burn", "-c", "x.burn", "--no-testing"]] * 2, ["x.fmp12", "inspect_output/test_compile"], {"x.burn": text.encode()}))
    for i in range(200 if c.thorough else 60):
        cat = fmp.Catalog(r, tables=r.choice([0, 5, 30]), fields=r.choice([0, 4]), occs=r.choice([0, 5, 25]), rels=r.choice([0, 5]), layouts=r.choice([0, 5]),
                          scripts=r.choice([0, 4, 12]), steps=12, calc_depth=1, sources=r.choice([0, 5]))
        blob, _ = cat.w.file(None)
        runs = [["-d", "x.fmp12", "--no-testing"]] * (8 if c.thorough else 5) + [["-d", "x.fmp12", "-d", "x.fmp12", "--no-testing"]]
        other, _ = fmp.Catalog(r, tables=r.choice([1, 7]), fields=3, occs=r.choice([1, 6]), rels=r.choice([0, 3]), layouts=2, scripts=r.choice([1, 5]), steps=9,
                               calc_depth=1, sources=r.choice([0, 2])).w.file(r.choice([None, 900]))
        jobs.append(("decoafter%d" % i, [["-d", "x.fmp12", "--no-testing"], ["-d", "y.fmp12", "-d", "x.fmp12", "--no-testing"], ["-d", "sub/x.fmp12", "--no-testing"],
                                         ["-t", "t.burn", "-d", "x.fmp12", "--no-testing"]],
                     ["inspect_output/test_decompile"], {"x.fmp12": blob, "sub/x.fmp12": blob, "y.fmp12": other, "t.burn": src.Source(r, maxdepth=2).program(3, 1).encode()}))
        jobs.append(("deco%d" % i, runs, ["inspect_output/test_decompile"], {"x.fmp12": blob}))
    for name, blob, _ in samples(c):
        jobs.append((name, [["-d", "x.fmp12", "--no-testing"]] * 8, ["inspect_output/test_decompile"], {"x.fmp12": blob}))
    work = [(j[0], args, j[2], j[3]) for j in jobs for args in j[1]]
    r.shuffle(work)                                        # the runs for one input are some time apart
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        seen = list(ex.map(lambda w: observe(c, *w[1:]), work))
    by = {}
    for w, s in zip(work, seen):
        by.setdefault(w[0], []).append(s)
    recs, replays = [], {}
    for i, runs, wants, files in jobs:
        got = by[i]
        bad = [s for s, _, _ in got if s != "done"]
        recs.append({"id": i, "status": bad[0] if bad else "done", "runs": [x for _, x, _ in got], "orders": [o for _, _, os in got for o in os]})
        replays[i] = {"runs": runs, "results": recs[-1], "source": files.get("x.burn", b"").decode()}
    c.samples.append({"runs": recs[0]["runs"]})
    c.judge("TraceSame", recs, replays)
