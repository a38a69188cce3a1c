"""Scenarios for the interpreter: their representation, their rendering as the
steps the real interpreter runs and as the trees the specification reads, and
the translation of what was observed."""
import os
import re
import unicodedata
from fractions import Fraction

import fmp

from core import codes, number_json, value, LIM

# ---------------------------------------------------------------- calculations
# A calculation is a list of tokens, as in spec/Calc.tla.
CMP = ["==", "!=", "<", "<=", ">", ">="]


def lit(x):
    """a literal: int, Fraction or str"""
    return [("val", x)]


def var(n):
    return [("var", n)]


def fld(o, f):
    """occurrence and field by number, from 1"""
    return [("fld", o, f)]


def op(a, o, b):
    return a + [("op", o)] + b


def par(e):
    return [("lp",)] + e + [("rp",)]


def fn(name, *args):
    out = [("fn", name), ("lp",)]
    for i, a in enumerate(args):
        if i:
            out.append(("comma",))
        out += a
    return out + [("rp",)]


def account():
    return [("fn", "Get"), ("lp",), ("name", "AccountName"), ("rp",)]


def decimal(x):
    """plain decimal notation of a dyadic rational"""
    x = Fraction(x)
    s, x = ("-", -x) if x < 0 else ("", x)
    whole, frac = divmod(x.numerator, x.denominator)
    out = str(whole)
    if frac:
        out += "."
        r = Fraction(frac, x.denominator)
        while r:
            r *= 10
            out += str(int(r))
            r -= int(r)
    return s + out


SPACES = ["", " ", "  ", "\t", "\n", " \t "]


def literal(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    return '"%s"' % x if isinstance(x, str) else decimal(x)


def text_of(tokens, names, rng=None):
    """source text; spacing is free between symbols"""
    out = []
    for t in tokens:
        k = t[0]
        if k == "val":
            s = literal(t[1])
        elif k in ("var", "fn", "name"):
            s = t[1]
        elif k == "fld":
            s = names["occs"][t[1] - 1] + "::" + names["fields"][t[1] - 1][t[2] - 1]
        elif k == "op":
            s = t[1]
        else:
            s = {"lp": "(", "rp": ")", "comma": ","}[k]
        out.append(s)
    if rng is None:
        return " ".join(out)
    style = rng.randrange(4)
    if style == 0:
        return "".join(out)
    if style == 1:
        return " ".join(out)
    text = ""
    for i, s in enumerate(out):
        if i and style == 2:
            text += rng.choice(["", " "])
        elif i:
            gap = rng.choice(SPACES)
            if gap[:1] in ("\t", "\n") and tokens[i - 1][0] in ("val", "var", "fn", "name"):
                gap = " " + gap                 # only a space ends a word
            text += gap
        text += s
    return text


def value_json(x):
    if isinstance(x, bool):
        return {"t": "B", "b": x}
    if isinstance(x, str):
        return {"t": "T", "c": codes(x)}
    return number_json(x)


def tokens_json(tokens):
    out = []
    for t in tokens:
        k = t[0]
        if k == "val":
            out.append({"k": "val", "v": value_json(t[1])})
            if isinstance(t[1], str):
                out[-1]["a"] = any(unicodedata.category(c)[0] == "L" or c.isdecimal() for c in t[1])
        elif k == "fld":
            out.append({"k": "fld", "o": t[1], "f": t[2]})
        elif len(t) == 2:
            out.append({"k": k, "s": t[1]})
        else:
            out.append({"k": k})
    return out


# ------------------------------------------------------------------ statements
def st(k, **kw):
    return dict(k=k, **kw)


def s_set(v, e): return st("set", v=v, e=e)
def s_setf(o, f, e): return st("setf", o=o, f=f, e=e)
def s_if(arms, els=None): return st("if", arms=arms, els=els)
def s_loop(b): return st("loop", b=b)
def s_exit(e): return st("exit", e=e)
def s_call(e): return st("call", e=lit(e) if isinstance(e, str) else e)
def s_assert(e): return st("assert", e=e)
def s_nav(e, x=None): return st("nav", e=lit(e) if isinstance(e, (str, int)) else e, x=x)
def s_new(): return st("new")
def s_find(): return st("find")
def s_pfind(): return st("pfind")
def s_all(): return st("all")
def s_layout(e): return st("layout", e=lit(e) if isinstance(e, str) else e)
def s_show(e): return st("show", e=e)


TRUE = op(lit(1), "==", lit(1))
FALSE = op(lit(1), "==", lit(2))


def body_json(b, names):
    """the statements as spec/Script.tla reads them; w: their arguments as texts"""
    out = []
    for s in b:
        k = s["k"]
        T = lambda e: list((text_of(e, names).replace("\n", " ") if k == "assert" else text_of(e, names)).encode())
        j = {"k": k}
        if k == "if":
            j["arms"] = [{"c": tokens_json(c), "b": body_json(x, names), "w": T(c)} for c, x in s["arms"]]
            j["els"] = [] if s["els"] is None else [body_json(s["els"], names)]
        elif k == "loop":
            j["b"] = body_json(s["b"], names)
        else:
            j["w"] = ([list(s["v"].encode())] if k == "set" else [T([("fld", s["o"], s["f"])])] if k == "setf" else []) + [T(e) for e in calcs(s)]
            for f in ("v", "o", "f"):
                if f in s:
                    j[f] = s[f]
            if "e" in s:
                j["e"] = tokens_json(s["e"])
            if k == "nav":
                j["x"] = [] if s["x"] is None else [tokens_json(s["x"])]
        out.append(j)
    return out


def steps_of(b, names, rng=None):
    """the instruction list the interpreter runs"""
    out = []
    T = lambda e: text_of(e, names, rng)

    def emit(o, *args):
        out.append({"op": o, "args": list(args)})

    def go(b):
        for s in b:
            k = s["k"]
            if k == "set":
                emit("SetVariable", s["v"], T(s["e"]))
            elif k == "setf":
                emit("SetField", names["occs"][s["o"] - 1] + "::" + names["fields"][s["o"] - 1][s["f"] - 1], T(s["e"]))
            elif k == "if":
                for i, (c, x) in enumerate(s["arms"]):
                    emit("If" if i == 0 else "ElseIf", T(c))
                    go(x)
                if s["els"] is not None:
                    emit("Else")
                    go(s["els"])
                emit("EndIf")
            elif k == "loop":
                emit("Loop")
                go(s["b"])
                emit("EndLoop")
            elif k == "exit":
                emit("ExitLoopIf", T(s["e"]))
            elif k == "call":
                emit("PerformScript", T(s["e"]))
            elif k == "assert":
                emit("Assert", T(s["e"]).replace("\n", " "))       # it is printed when it fails
            elif k == "nav":
                emit("GoToRecordRequestPage", T(s["e"]), *([] if s["x"] is None else [T(s["x"])]))
            elif k == "new":
                emit("NewRecordRequest")
            elif k == "find":
                emit("EnterFindMode")
            elif k == "pfind":
                emit("PerformFind")
            elif k == "all":
                emit("ShowAllRecords")
            elif k == "layout":
                emit("GoToLayout", T(s["e"]))
            elif k == "show":
                emit("ShowCustomDialog", T(s["e"]))
            else:
                raise AssertionError(k)
    go(b)
    return out


def source_of(b, names, rng=None, indent="  "):
    """burn source text of a body (for tests that go through the compiler)"""
    word = {"SetVariable": "set_variable", "SetField": "set_field", "ExitLoopIf": "exit_loop_if",
            "PerformScript": "perform_script", "Assert": "assert", "GoToRecordRequestPage": "go_to_record",
            "NewRecordRequest": "new_record_request", "EnterFindMode": "enter_find_mode",
            "PerformFind": "perform_find", "ShowAllRecords": "show_all_records", "GoToLayout": "go_to_layout",
            "ShowCustomDialog": "show_custom_dialog"}
    lines, d = [], 2
    for s in steps_of(b, names, rng):
        o, a = s["op"], ", ".join(s["args"])
        pad = indent * d
        if o == "If":
            lines.append("%sif (%s) {" % (pad, a)); d += 1
        elif o == "ElseIf":
            lines.append("%s} elif (%s) {" % (indent * (d - 1), a))
        elif o == "Else":
            lines.append("%s} else {" % (indent * (d - 1)))
        elif o in ("EndIf", "EndLoop"):
            d -= 1
            lines.append("%s}" % (indent * d))
        elif o == "Loop":
            lines.append("%sloop {" % pad); d += 1
        else:
            lines.append("%s%s(%s);" % (pad, word[o], a))
    return "\n".join(lines)


# --------------------------------------------------------------------- schemas
class Schema:
    """tables: [(name, [field names])]; occs: [(name, table no)];
    layouts: [(name, occ no)] - all numbered from 1 in id order; ids may gap."""

    def __init__(self, tables, occs, layouts, rng=None, rels=()):
        self.tables, self.occs, self.layouts, self.rels = tables, occs, layouts, list(rels)

        def ids(n, lo, hi):
            if rng is None:
                return list(range(lo, lo + n))
            k = rng.random()
            if k < .3:                                      # anywhere
                return sorted(rng.sample(range(lo, hi + 1), n))
            if k < .45:                                     # alike in their low bits
                near = [x for b in (lo + rng.randrange(60),) for d in (0, 64, 128, 256) for x in (b + d, b + d + 1) if x <= hi]
                if len(set(near)) >= n:
                    return sorted(rng.sample(sorted(set(near)), n))
            out, x = [], lo - 1
            for _ in range(n):
                x += rng.choice([1, 1, 1, 2, 3, 7])
                out.append(x)
            return out
        self.tids, self.oids, self.lids = ids(len(tables), 1, 255), ids(len(occs), 1, 127), ids(len(layouts), 1, 380)
        self.fids = [ids(len(f), 1, 255 if self.rels else 380) for _, f in tables]

    @property
    def names(self):
        return {"occs": [o for o, _ in self.occs], "fields": [self.tables[t - 1][1] for _, t in self.occs]}

    def spec(self):
        return {"nf": [len(f) for _, f in self.tables], "occTab": [t for _, t in self.occs],
                "first": 1 if self.occs else 0,
                "layouts": [{"name": codes(n), "occ": o} for n, o in self.layouts]}

    def driver(self):
        return {
            "tables": [{"id": i, "name": n, "fields": [{"id": j, "name": x} for j, x in zip(fi, fs)]}
                       for i, (n, fs), fi in zip(self.tids, self.tables, self.fids)],
            "occs": [{"id": i, "name": n, "table": self.tids[t - 1]} for i, (n, t) in zip(self.oids, self.occs)],
            "layouts": [{"id": i, "name": n, "occ": self.oids[o - 1]} for i, (n, o) in zip(self.lids, self.layouts)],
            "rels": [{"id": i + 1, "t1": self.oids[a - 1], "t2": self.oids[b - 1],
                      "f1": self.fids[self.occs[a - 1][1] - 1][f - 1], "f2": self.fids[self.occs[b - 1][1] - 1][g - 1],
                      "cmp": c} for i, (a, f, c, b, g) in enumerate(self.rels)]}


ONE = lambda: Schema([("T", ["a", "b"])], [("T", 1)], [("T", 1)])


class Scenario:
    """Programs over a schema. scripts: [(name, body)]; tests: [(script name,
    body)] or [(test name, script name, body)]. kind: what holds the schema and
    the scripts, a burn source or an fmp12 file; the tests are in the burn
    source or in test files of their own."""

    def __init__(self, sid, schema, scripts, tests, whole=False, kind=None, split=None, quiet=False):
        self.id, self.schema, self.scripts, self.whole, self.split, self.quiet = sid, schema, scripts, whole, split, quiet
        self.tests = [t if len(t) == 3 else ("T%d" % i, *t) for i, t in enumerate(tests)]
        bodies = [b for _, b in scripts] + [b for _, _, b in self.tests]
        need = any(uses_records(b) for b in bodies)
        self.kind = kind or ("fmp12" if need else None)

    def lay_out(self, r):
        """decide what stands where"""
        if self.kind is None:
            self.kind = "fmp12" if all(storable(b) for _, b in self.scripts) and r.random() < .3 else "burn"
        if self.split is None:
            n, self.split = len(self.tests), []
            while sum(self.split) < n and (self.kind == "fmp12" or r.random() < .5):
                self.split.append(r.randrange(0, n - sum(self.split) + 1) if r.random() < .5 else n - sum(self.split))
        k = 0
        self.given = []
        for m in self.split:
            self.given.append(self.tests[k:k + m])
            k += m
        self.own = self.tests[k:]
        pool = r.sample(FILES, len(self.given)) if r.random() < .4 else ["t%d.burn" % i for i in range(len(self.given))]
        if pool and r.random() < .07:                          # the same file once more
            i = r.randrange(len(pool))
            self.given.append(self.given[i])
            pool.append(pool[i])
        ending = "." + self.kind
        self.files = pool
        self.source = r.choice(["été", "my schema", "a.b", "dir/x", "./x", "x.burn"]) + ending if r.random() < .2 else "x" + ending

    def write(self, r, where):
        """put the files there; the command's arguments"""
        self.lay_out(r)
        n, args = self.schema.names, []

        def path(name):
            p = os.path.join(where, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            return p

        def test(t):
            return "test %s:\n  script: [\n    define %s() {\n%s\n    }\n  ]\nend test;\n" % (t[0], t[1], source_of(t[2], n, r))
        for i, ts in enumerate(self.given):
            if self.files[i] not in self.files[:i]:
                with open(path(self.files[i]), "w") as f:
                    f.write("\n".join(map(test, ts)))
            args += ["-t", self.files[i]]
        if self.kind == "burn":
            parts = ["script: [\n" + "\n".join("  define %s() {\n%s\n  }" % (s, source_of(b, n, r)) for s, b in self.scripts) + "\n]\n"] if self.scripts else []
            parts += map(test, self.own)
            if r.random() < .3:
                r.shuffle(parts) if len(self.own) < 2 else None
            with open(path(self.source), "w") as f:
                f.write("\n".join(parts))
            main = ["-c", self.source]
        else:
            assert not self.own
            with open(path(self.source), "wb") as f:
                f.write(stored(self.schema, self.scripts, r))
            main = ["-d", self.source]
            if r.random() < .1:
                main.append("--print-header")
        if self.quiet:
            main.insert(r.choice([0, 2]), "--no-testing")
        return args + main if r.random() < .7 else main + args

    def catalog(self):
        """the schema's objects, in the order of their numbers"""
        d = self.schema.driver()
        row = lambda x, *k: [x["id"], codes(x["name"]), *(x[y] for y in k)]
        return {"tables": [row(x) + [[row(f) for f in x["fields"]]] for x in d["tables"]],
                "occs": [row(x, "table") for x in d["occs"]], "layouts": [row(x, "occ") for x in d["layouts"]]}

    def kept(self, rec):
        """what the tool says it read: nothing to judge if it is told otherwise"""
        if rec["schema"] is None:
            return {"state": rec["state"]}
        f, bytes_of = rec["schema"], lambda s: list(s.encode())
        order = lambda k: sorted(f[k], key=lambda x: x["id"])
        row = lambda x, *k: [x["id"], codes(x["name"]), *(x[y] for y in k)]
        steps = lambda s: [{"op": str(x["op"]), "w": [bytes_of(a) for a in x["args"]]} for x in s["steps"]]
        cat = {"tables": [row(x) + [[row(y) for y in sorted(x["fields"], key=lambda y: y["id"])]] for x in order("tables")],
               "occs": [row(x, "table") for x in order("occs")], "layouts": [row(x, "occ") for x in order("layouts")]}
        return {"state": "read", "catalog": cat if self.kind == "fmp12" else self.catalog(),
                "scripts": [{"name": x["name"], "steps": steps(x)} for x in order("scripts")],
                "tests": [{"name": x["name"], "script": x["script"]["name"], "steps": steps(x["script"])} for x in f["tests"]]}

    def spec(self):
        n = self.schema.names
        t = lambda ts: [{"name": m, "script": s, "body": body_json(b, n)} for m, s, b in ts]
        return {"id": self.id, "S": self.schema.spec(),
                "scripts": {s: body_json(b, n) for s, b in self.scripts},
                "names": {s: codes(s) for s, _ in self.scripts},
                "given": [t(x) for x in self.given], "own": t(self.own), "quiet": self.quiet, "whole": self.whole}


# names of test files
FILES = ["a.burn", "b.burn", "Z9.burn", "two words.burn", "tests/the_longest_name_of_all_the_files.burn", "tests/b.burn", "ünit.burn", "t.2.burn", "10.burn", "9.burn", "tests.txt", "T", "more/deep/x.burn", "./c.burn"]


def within(b):
    """every statement of a body, however deep"""
    for s in b:
        yield s
        for _, x in s["arms"] if s["k"] == "if" else []:
            yield from within(x)
        if s["k"] == "if" and s["els"] is not None:
            yield from within(s["els"])
        if s["k"] == "loop":
            yield from within(s["b"])


def calcs(s):
    return ([s["e"]] if "e" in s else []) + ([s["x"]] if s.get("x") is not None else []) + ([c for c, _ in s["arms"]] if s["k"] == "if" else [])


def uses_records(b):
    return any(s["k"] in ("setf", "nav", "new", "find", "pfind", "all", "layout") or any(t[0] == "fld" for e in calcs(s) for t in e) for s in within(b))


CODE = {"call": 1, "find": 22, "pfind": 28, "all": 23, "setf": 76, "set": 141, "show": 87, "new": 7, "nav": 16, "layout": 6, "loop": 71, "exit": 72}


def storable(b):
    """whether a body can be written as the steps of an fmp12 script"""
    def calc(e):
        for t in e:
            if t[0] in ("fld", "comma", "name") or t[0] == "fn" and t[1] not in ("Abs", "Char"):
                return False
            if t[0] == "val" and (isinstance(t[1], bool) or not isinstance(t[1], str) and not (t[1] in range(256))):
                return False
        return sum(len(t[1].encode()) + 3 if t[0] in ("var", "val") and isinstance(t[1], str) else 20 if t[0] == "val" else 3 for t in e) < 140
    for s in within(b):
        if s["k"] not in CODE and s["k"] != "if" or s["k"] == "setf" or not all(map(calc, calcs(s))):
            return False
        if s["k"] == "set" and len(s["v"].encode()) > 200:
            return False
        if s["k"] == "call" and not (len(s["e"]) == 1 and s["e"][0][0] == "val"):
            return False
    return True


def stored(schema, scripts, r):
    """an fmp12 file with the schema and the scripts"""
    w = fmp.Writer(r, noise=r.choice([0, .1]))
    txt = lambda s: fmp.text(s)
    key = lambda k, data, *at: w.put(fmp.keyed(r, k, data), *at)
    for i, (n, _) in zip(schema.tids, schema.tables):
        w.dir(3, 16, 5, 128 + i)
        key(16, txt(n), 3, 16, 5, 128 + i)
    rels = {}
    for k, (a, f, c, b, g) in enumerate(schema.rels):
        rels.setdefault(a, []).append((b, k + 1))
        if a != b:
            rels.setdefault(b, []).append((a, k + 1))
    for k, (i, (n, t)) in enumerate(zip(schema.oids, schema.occs)):
        at = (3, 17, 5, (0, i))
        w.dir(*at)
        info = [r.randrange(256) for _ in range(12)]
        info[6] = schema.tids[t - 1]
        key(2, info, *at)
        key(16, txt(n), *at)
        for b, rel in rels.get(k + 1, []):
            w.put(fmp.plain(r, [1, 2, schema.oids[b - 1], 0, rel]), *at, 251)
    for k, (a, f, c, b, g) in enumerate(schema.rels):
        f1, f2 = (schema.fids[schema.occs[x - 1][1] - 1][y - 1] for x, y in ((a, f), (b, g)))
        key(1, [COMPARISON.index(c), 2] + fmp.mark(r, 128 + f1) + [2] + fmp.mark(r, 128 + f2), 3, 251, 5, k + 1, 3)
    for i, (n, o) in zip(schema.lids, schema.layouts):
        w.dir(4, 1, 7, i)
        key(2, [r.randrange(256), 128 + schema.oids[o - 1]], 4, 1, 7, i)
        key(16, txt(n), 4, 1, 7, i)
    ids = dict(zip([n for n, _ in scripts], fmp.ids(r, len(scripts)) if r.random() < .7 else range(2, 256, max(1, 250 // max(1, len(scripts))))))
    for n, i in ids.items():
        key(16, txt(n), 17, 1, 7, i)
    for n, b in scripts:
        recs, data = [], []
        num = [0]

        def emit(code, *args, target=0):
            num[0] += 1
            rec = [r.randrange(256) for _ in range(28)]
            rec[0], rec[1:4] = (2, [0, num[0], 0]) if num[0] < 128 else (3, [0] + fmp.mark(r, num[0]))
            rec[21] = code
            if code == 1:
                rec[8] = target
            recs.extend(rec)
            for where, x in args:
                data.append((num[0], where, x))
        calc = lambda e: (129, fmp.keyed(r, 5, fmp.code_of(r, [bytecode(t) for t in e], white=0 if len(e) > 9 else .1, odd=False)))

        def go(b):
            for s in b:
                k = s["k"]
                if k == "if":
                    for j, (c, x) in enumerate(s["arms"]):
                        emit(125 if j else 68, calc(c))
                        go(x)
                    if s["els"] is not None:
                        emit(69)
                        go(s["els"])
                    emit(70)
                elif k == "loop":
                    emit(71)
                    go(s["b"])
                    emit(73)
                elif k == "call":
                    emit(1, target=ids.get(s["e"][0][1], 0))
                elif k == "set":
                    emit(141, (128, fmp.keyed(r, 1, txt(s["v"]))), calc(s["e"]))
                else:
                    emit(CODE[k], *([calc(s["e"])] if "e" in s else []), *([calc(s["x"])] if s.get("x") is not None else []))
        go(b)
        at = (17, 5, ids[n])
        if not recs:
            w.dir(*at)
        elif len(recs) < 250 and r.random() < .5:
            key(4, recs, *at)
        elif len(recs) < 3000 and r.random() < .5:
            w.put(fmp.numbered(r, 4, recs), *at)
        else:
            w.dir(*at, 4)
            for j in range(0, len(recs), 1400):
                w.put(fmp.numbered(r, j // 1400 + 1, recs[j:j + 1400]), *at, 4)
        for k, where, chunk in data:
            w.put(chunk, *at, 5, k, where, *([] if where == 128 else [5]))
    for i, (_, fs), fids in zip(schema.tids, schema.tables, schema.fids):
        for j, n in zip(fids, fs):
            w.dir(128 + i, 3, 5, j)
            key(16, txt(n), 128 + i, 3, 5, j)
    return w.file()[0]


COMPARISON = ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Cartesian"]


def bytecode(t):
    k = t[0]
    if k == "val":
        return ("t", t[1]) if isinstance(t[1], str) else ("n", int(t[1]))
    return {"var": ("v", t[-1]), "fn": ("f", t[-1]), "op": ("o", t[-1]), "lp": ("o", "("), "rp": ("o", ")")}[k]


# ------------------------------------------------------------------ observation
NOISE = ("Assertion failed: ", "RESULT: ", "Popping script: ", "calling ")


def printed(text):
    """the values shown and the outcomes in what the tool printed"""
    text = re.sub("\x1b\\[[0-9;]*m", "", text)
    out, lines, i, on = [], text.split("\n"), 0, False
    while i < len(lines) - 1:
        s = lines[i]
        i += 1
        if s.startswith("Running test: "):
            on = True
        elif not on or s.startswith(NOISE):             # reading and writing files prints something, too
            continue
        elif m := re.fullmatch("Test (.*) outcome: (Success|Fail)", s):
            out.append({"k": "end", "name": m.group(1), "out": "pass" if m.group(2) == "Success" else "fail"})
            on = False
        else:
            while s.startswith('"') and not (len(s) > 1 and s.endswith('"')) and i < len(lines) - 1:
                s += "\n" + lines[i]
                i += 1
            out.append({"k": "show", "v": value(s)})
    return out
