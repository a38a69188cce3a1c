"""Random programs for the interpreter, in the families the properties need.
Every generated program ends: loops count, calls go to later scripts. They
mostly keep away from the interpreter's known limits (spec/Limits.tla), which
would end the comparison."""
from vm import *

WORDS = ["a", "sub_routine", "x1", "tax_rate", "veryverylongnameofascript", "ünicode", "日本", "if2", "endtest", "S", "define2", "_u"]


def script_names(rng, n):
    out = rng.sample(WORDS, min(n, len(WORDS)))
    while len(out) < n:
        out.append("s%d" % len(out))
    return out


def has(b, k):
    return any(s["k"] == k for s in within(b))


class Prog:
    """Structured programs whose every statement shows where it is: t counts
    the marks passed in the current script run."""

    def __init__(self, rng, calls=(), maxdepth=5, weights=None, bold=.008):
        self.rng = rng
        self.n = 0
        self.calls = list(calls)      # (script name, has chains, has loops)
        self.maxdepth = maxdepth
        self.w = {"mark": 4, "if": 4, "loop": 2, "call": 1, "exit": 2, "assert": 0}
        self.w.update(weights or {})
        self.vars = []                # loop counters in scope
        self.taken = False            # the interpreter's flag, as far as it can be known: see Limits.tla, bt
        self.left = False             # a loop was left from inside a branch
        self.branch = 0               # branches around this place in the current loop
        self.bold = bold              # how often a known limit is risked

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def mark(self):
        r = self.rng
        where = lit(self.fresh("m"))
        if r.random() < .3:
            return [s_show(where)]
        return [s_set("t", op(var("t"), "+", lit(1))), s_show(op(where, "&", var("t")) if r.random() < .7 else op(var("t"), "&", where))]

    def cond(self, truth=None):
        r = self.rng
        if truth is None:
            k = r.randrange(6)
            if k == 0 and self.vars:
                return op(var(r.choice(self.vars)), r.choice(CMP), lit(r.randrange(1, 5)))
            if k == 1:
                return op(var("t"), r.choice(["==", "!="]), lit(r.randrange(1, 12)))
            truth = r.random() < 0.5
        k = r.randrange(6)
        a, b = r.randrange(10, 50), r.randrange(50, 100)
        if k == 0:
            return op(lit(a), "==", lit(a if truth else b))
        if k == 1:
            return op(lit(a), "<" if truth else ">", lit(b))
        if k == 2:
            x = any_text(r) if r.random() < .4 else "x%d" % a
            return op(lit(x), "==" if truth else "!=", lit(x))
        if k == 3:
            return op(lit(a), "+", op(lit(b), "!=" if truth else "==", lit(1)))
        if k == 4:
            return op(par(op(lit(a), "+", lit(1))), "*", op(lit(2), "!=" if truth else "==", lit(2 * a + 1)))
        return op(lit(b), ">=" if truth else "<=", lit(a))

    def block(self, depth, size, inloop, cost, ifs=True, loops=True):
        """cost: how often this block may run in all; ifs, loops: whether
        chains and loops may stand here"""
        r = self.rng
        out = []
        for _ in range(size):
            kinds = [k for k in self.w if self.w[k] > 0]
            k = r.choices(kinds, [self.w[x] for x in kinds])[0]
            ok = lambda flag: flag or r.random() < self.bold
            if k == "if" and (depth >= self.maxdepth or not ok(ifs)):
                k = "mark"
            if k == "loop" and (depth >= self.maxdepth or not ok(loops) or cost > 30):
                k = "mark"
            if k == "exit" and not inloop:
                k = "mark"
            calls = [c for c in self.calls if ok(ifs and not self.taken or not c[1]) and ok(loops or not c[2])]
            if k == "call" and (not calls or cost > 12):
                k = "mark"
            if k == "mark":
                out += self.mark()
            elif k == "if":
                out.append(self.chain(depth, inloop, cost, loops))
            elif k == "loop":
                out += self.loop(depth, cost, ifs)
            elif k == "exit":
                self.left |= self.branch > 0
                out.append(s_exit(self.cond(False if loops and r.random() < .9 else r.random() < .3 if r.random() < .6 else None)))
                out += self.mark() if r.random() < .6 else []
            elif k == "call":
                out.append(s_call(r.choice(calls)[0]))
            elif k == "assert":
                out.append(s_assert(self.cond(r.random() < .97)))
        return out

    def chain(self, depth, inloop, cost, loops):
        r = self.rng
        arms = r.choices([1, 2, 3, 4, 6], [4, 4, 2, 1, 1])[0]
        was = self.taken

        def body(ifs, taken=True):
            self.taken = taken
            self.branch += 1
            out = self.block(depth + 1, r.choices([0, 1, 2, 3], [1, 4, 3, 1])[0], inloop, cost, ifs, loops)
            self.branch -= 1
            return out
        if was and r.random() > self.bold:                     # only the first branch can be trusted
            if r.random() < .5:
                out = s_if([(self.cond(), body(False))], None)
            else:
                out = s_if([(self.cond(True), body(False))] + [(self.cond(), body(False)) for _ in range(arms - 1)], body(False) if r.random() < .5 else None)
        elif r.random() < .35:                                 # any branch, none with a chain
            p = r.choice([.2, .5, .8])
            out = [(self.cond(r.random() < p if r.random() < .7 else None), body(False)) for _ in range(arms)]
            out = s_if(out, body(False) if r.random() < .5 else None)
        else:
            out = [(self.cond(False), body(False)) for _ in range(arms - 1)]
            if r.random() < .4:
                out = s_if(out + [(self.cond(True), body(True))], None)
            else:
                out = s_if(out + [(self.cond(False), body(False))], body(True, False))
        self.taken = False
        return out

    def loop(self, depth, cost, ifs):
        r = self.rng
        c = self.fresh("i")
        step = s_set(c, op(var(c), "+", lit(1)))
        self.vars.append(c)
        around = self.branch, self.left
        self.branch, self.left = 0, False
        if depth + 2 <= self.maxdepth and r.random() < .35:    # a loop with loops inside runs once
            body = self.block(depth + 1, r.choice([1, 2, 3]), True, cost, ifs, True)
            b = [step] + body + [s_exit(self.cond(True))] + (self.mark() if r.random() < .4 else [])
        else:
            n = r.choices([1, 2, 3, 5, 8], [3, 4, 3, 1, 1])[0]
            body = self.block(depth + 1, r.choices([1, 2, 3], [3, 3, 1])[0], True, cost * n, ifs, False)
            stop = s_exit(op(var(c), r.choice([">=", "=="]), lit(n)))
            k = r.randrange(4)
            if k == 0 and ifs and not self.taken:
                self.left = True
                b = [step, s_if([(op(var(c), ">=", lit(n)), [stop] if r.random() < .5 else self.mark() + [stop])],
                                None if r.random() < .5 else self.mark())] + body
            elif k < 2:
                b = [step] + body + [stop]
            else:
                b = [step, stop] + body
            if r.random() < .2:
                b = b + self.mark()
        self.vars.remove(c)
        self.taken |= self.left
        self.branch, self.left = around
        return [s_set(c, lit(0)), s_loop(b)] + self.mark()

    def body(self, size, depth=0):
        return [s_set("t", lit(0))] + self.block(depth, size, False, 1) + self.mark()


def program(rng, sid, size=None, nscripts=None, maxdepth=5, weights=None, kind=None, bold=.008):
    """a scenario of structured programs; scripts call later ones only"""
    nscripts = rng.choice([0, 1, 2, 3]) if nscripts is None else nscripts
    names = script_names(rng, nscripts)
    scripts, known = [], []
    for n in reversed(names):
        p = Prog(rng, known, maxdepth=min(maxdepth, 3), weights=dict(weights or {}, **{"if": rng.choice([0, 3]), "loop": rng.choice([0, 2])}), bold=bold)
        b = p.body(rng.randrange(1, 4))
        scripts.append((n, b))
        called = [s["e"][0][1] for s in within(b) if s["k"] == "call"]
        known.append((n, has(b, "if") or any(k[1] for k in known if k[0] in called), has(b, "loop") or any(k[2] for k in known if k[0] in called)))
    p = Prog(rng, known, maxdepth=maxdepth, weights=weights, bold=bold)
    own = (rng.choice(["own", "own", "test_script", "t1"]), p.body(rng.randrange(3, 14) if size is None else size))
    rng.shuffle(scripts)
    return Scenario(sid, ONE(), scripts, [own], kind=kind)


def nest(rng, sid, depth):
    """if chains nested to the given depth along every kind of branch"""
    p = Prog(rng)

    def go(d):
        if d == 0:
            return p.mark()
        k = rng.randrange(4)
        inner = p.mark() + go(d - 1) + p.mark()
        other = lambda: p.mark()
        if k == 0:
            c = s_if([(p.cond(True), inner)], None)
        elif k == 1:
            c = s_if([(p.cond(False), other()), (p.cond(True), inner)], None)
        elif k == 2:
            c = s_if([(p.cond(False), other())] * rng.choice([1, 2, 4]), inner)
        else:
            i = p.fresh("i")
            c = s_if([(p.cond(False), other())], [s_set(i, lit(0)), s_loop([s_set(i, op(var(i), "+", lit(1)))] + inner + [s_exit(p.cond(True))])])
        return [c] + p.mark()
    return Scenario(sid, ONE(), [], [("own", [s_set("t", lit(0))] + go(depth))])


def chains(rng, sid, n):
    """many chains in a row, of every length and outcome"""
    p = Prog(rng)
    body = [s_set("t", lit(0))]
    for _ in range(n):
        arms = rng.randrange(1, 7)
        true = {k for k in range(arms) if rng.random() < rng.choice([0, .3, .8])}
        body.append(s_if([(p.cond(k in true), p.mark() if rng.random() < .8 else []) for k in range(arms)],
                         p.mark() if rng.random() < .5 else [] if rng.random() < .2 else None))
    return Scenario(sid, ONE(), [], [("own", body + p.mark())])


# ---------------------------------------------------- programs only to be read
class Wild:
    """Statements and calculations without regard for what they would do"""
    FUNCTIONS = ["Abs", "Min", "Char", "Max", "Length", "f"]

    def __init__(self, rng, schema, small, calls, weights=None, maxdepth=5):
        self.r, self.schema, self.small, self.calls, self.maxdepth = rng, schema, small, calls, maxdepth
        self.w = {"set": 4, "show": 2, "if": 3, "loop": 2, "exit": 2, "call": 1 if calls else 0, "assert": 0 if small else 1, "new": 1, "find": 1,
                  "pfind": 1, "all": 1, "nav": 1, "layout": 1, "setf": 0 if small else 2}
        self.w.update({k: v for k, v in (weights or {}).items() if self.w[k]})

    def atom(self):
        r = self.r
        k = r.randrange(8)
        if k < 2:
            return lit(any_text(r)) if r.random() < .9 else lit("")
        if k == 2:
            return var(r.choice(VARS) if not self.small else r.choice(VARS[:6]))
        if k == 3 and not self.small:
            o = r.randrange(1, len(self.schema.occs) + 1)
            return fld(o, r.randrange(1, len(self.schema.tables[self.schema.occs[o - 1][1] - 1][1]) + 1))
        if k == 4 and not self.small:
            return account()
        return lit(r.randrange(256) if self.small else any_number(r))

    def calc(self, d=3):
        r = self.r
        k = r.randrange(7)
        if d == 0 or k < 2:
            return self.atom()
        if k == 2:
            return par(self.calc(d - 1))
        if k == 3:
            f = r.choice(self.FUNCTIONS if not self.small else ["Abs", "Char"])
            return fn(f, *[self.calc(d - 1) for _ in range(1 if self.small or f in ("Abs", "Char") else r.choice([1, 2, 3]))])
        out = self.calc(d - 1)
        for _ in range(r.choice([1, 1, 2, 4])):
            out = op(out, r.choice(["+", "-", "*", "/", "&"] + CMP), self.calc(d - 1))
        return out

    def stmt(self, d):
        r, e = self.r, self.calc
        k = r.choices(list(self.w), list(self.w.values()))[0]
        if d >= self.maxdepth and k in ("if", "loop"):
            k = "show"
        if k == "if":
            return s_if([(e(), self.body(d + 1)) for _ in range(r.choices([1, 2, 3, 5], [5, 3, 2, 1])[0])], self.body(d + 1) if r.random() < .5 else None)
        if k == "loop":
            return s_loop(self.body(d + 1))
        if k == "call":
            return s_call(r.choice(self.calls))
        if k == "setf":
            o = r.randrange(1, len(self.schema.occs) + 1)
            return s_setf(o, r.randrange(1, len(self.schema.tables[self.schema.occs[o - 1][1] - 1][1]) + 1), e())
        if k == "nav":
            return s_nav(r.choice([lit("first"), lit("next"), lit(3), e()]), None if r.random() < .5 else r.choice([lit("true"), TRUE, e()]))
        if k in ("new", "find", "pfind", "all"):
            return st(k)
        return {"set": lambda: s_set(r.choice(VARS), e()), "show": lambda: s_show(e()), "exit": lambda: s_exit(e()),
                "assert": lambda: s_assert(e()), "layout": lambda: s_layout(e(1) if r.random() < .3 else r.choice(self.schema.layouts)[0])}[k]()

    def body(self, d=0, n=None):
        out = []
        for _ in range(self.r.choices([0, 1, 2, 3], [2, 5, 3, 1])[0] if n is None else n):
            s = self.stmt(d)
            while self.small and not storable([s]):
                s = self.stmt(d)
            out.append(s)
        return out


def wild(rng, sid, weights=None, kind=None, maxdepth=5):
    """programs that are only read, never run"""
    kind = kind or rng.choice(["burn", "burn", "fmp12"])
    sch = Data(rng).schema if kind == "fmp12" else ONE()
    names = script_names(rng, rng.choice([0, 1, 2, 4]))
    scripts = [(n, Wild(rng, sch, kind == "fmp12", names, weights, maxdepth).body(n=rng.randrange(0, 9))) for n in names]
    tests = [(rng.choice(["own", "t", "T"]), Wild(rng, sch, False, names or ["nothing"], weights, maxdepth).body(n=rng.randrange(1, 9))) for _ in range(rng.choice([1, 1, 2, 3]))]
    return Scenario(sid, sch, scripts, tests, kind=kind, quiet=True)


def shapes(n, inside=False):
    """every body of n statements, counting chains and loops as one"""
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):                               # size of the first statement
        for first in shape(k, inside):
            for rest in shapes(n - k, inside):
                yield [first] + rest


def shape(n, inside):
    if n == 1:
        yield s_show(lit("m"))
        if inside:
            yield s_exit(var("c"))
    for b in shapes(n - 1, True):
        yield s_loop(b)
    for arms in range(1, n + 1):
        for els in (False, True):
            # what the branches hold adds up to n - 1
            def split(parts, total):
                if parts == 1:
                    yield [total]
                    return
                for x in range(total + 1):
                    for y in split(parts - 1, total - x):
                        yield [x] + y
            for sizes in split(arms + els, n - 1):
                def fill(i):
                    if i == len(sizes):
                        yield []
                        return
                    for b in shapes(sizes[i], inside):
                        for rest in fill(i + 1):
                            yield [b] + rest
                for bodies in fill(0):
                    yield s_if([(var("c"), b) for b in bodies[:arms]], bodies[arms] if els else None)


# ------------------------------------------------------------------- loops, S02
TWO = lambda: Schema([("T", ["a", "b"]), ("U", ["c"])], [("T", 1), ("U", 2), ("T2", 1)], [("T", 1), ("U", 2), ("T2", 3)])


def record_loop(rng, sid):
    """loops ended by a navigation step's exit flag"""
    p = Prog(rng)
    n1, n2 = rng.choice([1, 2, 3, 6, 12]), rng.choice([1, 2, 4])
    body = [s_set("t", lit(0))]
    for i in range(n1):
        body += [s_new(), s_setf(1, 1, lit("r%d" % i))]
    body += [s_layout("U")]
    for i in range(n2):
        body += [s_new(), s_setf(2, 1, lit(100 + i))]
    body += [s_layout("T")]
    flag = lambda: rng.choice([TRUE, lit("true")])
    here = {"T": 1, "U": 2, "T2": 3}

    def walk(layout, back):
        d = "previous" if back else "next"
        o = here[layout]
        b = [s_show(fld(o, 1))] + (p.mark() if rng.random() < .5 else [])
        if rng.random() < .4:
            b += [s_if([(op(fld(o, 1), "==", lit(101 if o == 2 else "r1")), p.mark())], p.mark())]
        if rng.random() < .3:
            b += [s_setf(o, 1, op(fld(o, 1), *(("+", lit(1)) if o == 2 else ("&", lit("x")))))]
        step = s_nav(d, flag())
        k = rng.randrange(4)
        b = b + [step] if k < 2 else b + [s_if([(p.cond(True), [step])], None)] if k == 2 else [s_show(lit("top"))] + b + [step] + p.mark()
        if rng.random() < .3:
            c = p.fresh("i")
            b = [s_set(c, op(var(c), "+", lit(1))), s_exit(op(var(c), "==", lit(rng.choice([1, 2, 3, 9]))))] + b
            body.append(s_set(c, lit(0)))
        return [s_layout(layout), s_nav("last" if back else "first"), s_loop(b)] + p.mark() + [s_show(fld(o, 1))]
    for _ in range(rng.choice([1, 2, 3])):
        x = walk(rng.choice(["T", "U", "T2"]), rng.random() < .5)
        body += x
    return Scenario(sid, TWO(), [], [("own", body)])


def crowd(rng, sid, n):
    """a table of many records, and a few steps among them"""
    i, j = var("i"), var("j")
    body = [s_set("i", lit(0)),
            s_loop([s_new(), s_setf(1, 1, i), s_setf(1, 2, lit("all")), s_set("i", op(i, "+", lit(1))), s_exit(op(i, "==", lit(n)))]), s_show(fld(1, 1))]
    o = 1
    for _ in range(14):
        k = rng.randrange(8)
        if k == 7:                                          # the table's other occurrence
            o = 4 - o
            body.append(s_layout("T" if o == 1 else "T2"))
        elif k == 6:                                        # a find that many match
            body += [s_find(), s_setf(o, 2, lit("all")), s_pfind(), s_show(fld(o, 1)), s_nav(rng.choice(["last", lit(n // 2)]))]
        elif k == 0:
            body.append(s_nav(rng.choice(["first", "last"])))
        elif k == 1:
            body.append(s_nav(rng.choice([rng.randrange(n), n - 1, n, 2 * n, 0, 255, 256])))
        elif k == 2:
            m = rng.choice([1, 3, 40])
            body += [s_set("j", lit(0)), s_loop([s_nav(rng.choice(["next", "previous"])), s_set("j", op(j, "+", lit(1))), s_exit(op(j, "==", lit(m)))])]
        elif k == 3:
            body += [s_find(), s_setf(o, 1, lit(rng.randrange(n + 2))), s_pfind()]
        elif k == 4:
            body += [s_all()]
        else:
            body += [s_new(), s_setf(o, 1, lit(rng.choice([7, n // 2])))]
        body.append(s_show(fld(o, 1)))
    return Scenario(sid, TWO(), [], [("own", body)])


def long_loop(rng, sid, n):
    p = Prog(rng)
    b = [s_set("i", op(var("i"), "+", lit(1)))] + p.mark() + [s_exit(op(var("i"), "==", lit(n)))]
    if rng.random() < .5:
        b += [s_if([(op(var("i"), "!=", lit(n // 2)), p.mark())], p.mark())]
    return Scenario(sid, ONE(), [], [("own", [s_set("t", lit(0)), s_set("i", lit(0)), s_loop(b)] + p.mark())])


def nest_loops(rng, sid, depth):
    """loops in loops, the innermost running several times, chains in between"""
    p = Prog(rng)

    def go(d):
        i = p.fresh("i")
        step = [s_set(i, op(var(i), "+", lit(1)))]
        if d == 1:
            n = rng.choice([1, 2, 3, 7])
            b = step + p.mark() + [s_exit(op(var(i), ">=", lit(n)))] + p.mark()
        else:
            inner = go(d - 1)
            if rng.random() < .4:
                inner = [s_if([(p.cond(True), inner)], None)] if rng.random() < .5 else [s_if([(p.cond(False), p.mark())], inner)]
            e = s_exit(p.cond(True))
            b = step + inner + ([e] if rng.random() < .6 else [s_if([(p.cond(True), p.mark() + [e] + p.mark())], None)])
        out = [s_set(i, lit(0)), s_loop(b)]
        return out + p.mark()
    return Scenario(sid, ONE(), [], [("own", [s_set("t", lit(0))] + go(depth))])


# ------------------------------------------------------------------- calls, S03
def call_tree(rng, sid, depth, kind=None):
    names = script_names(rng, depth)
    scripts = []
    for i, n in enumerate(names):
        p = Prog(rng)
        b = [s_set("t", lit(0))] + p.mark()
        if i + 1 < depth:
            kids = [names[i + 1]] + [rng.choice(names[i + 1:]) for _ in range(rng.choice([0, 0, 1, 2]))]
            for k in kids:
                j = rng.randrange(6)
                call = s_call(lit(k) if rng.random() < .7 or len(k) < 2 or k[0] == "_" else op(lit(k[:1]), "&", lit(k[1:])))
                if j == 0:
                    b += [s_if([(p.cond(True), [call])], None)]
                elif j == 1:
                    c = p.fresh("i")
                    b += [s_set(c, lit(0)), s_loop([s_set(c, op(var(c), "+", lit(1))), call] + p.mark() + [s_exit(p.cond(True))])]
                elif j == 2:
                    b += [s_if([(p.cond(False), p.mark())], [call] + p.mark())]
                else:
                    b += [call]
                b += p.mark() if rng.random() < .8 else []
        elif rng.random() < .3:
            b = []                                     # an empty script
        elif rng.random() < .3:
            b += [s_if([(p.cond(False), p.mark())], None)]
        scripts.append((n, b))
    p = Prog(rng)
    own = [s_set("t", lit(0))] + p.mark()
    if names:
        own += [s_call(names[0])] + p.mark()
        if rng.random() < .5:
            own += [s_call(rng.choice(names))] * rng.choice([1, 2, 5]) + p.mark()
    rng.shuffle(scripts)
    if rng.random() < .3:
        scripts.insert(rng.randrange(len(scripts) + 1), ("own", [s_show(lit("not the test's own"))]))
        own += [s_call("own")] + p.mark()
    return Scenario(sid, ONE(), scripts, [("own", own)], kind=kind)


def stored_calls(rng, sid, n):
    """scripts of an fmp12 file, each of which performs some of those after it"""
    names = script_names(rng, min(n, 8)) + ["s%d" % i for i in range(n - 8)]
    scripts, calls = [], 0
    for i, name in enumerate(names):
        b = [s_show(lit("in %d" % i))]
        for k in rng.sample(names[i + 1:], min(len(names) - i - 1, rng.choice([0, 1, 1, 2]))) if calls < 40 else []:
            call, calls = s_call(lit(k)), calls + 1
            b += [rng.choice([call, call, s_if([(op(var("t"), "==", lit(1)), [call])], [s_show(lit("not"))])])]
        scripts.append((name, b + [s_show(lit("out %d" % i))] * rng.choice([0, 1])))
    own = [s_set("t", lit(rng.choice([0, 1])))]
    for k in rng.sample(names, min(len(names), 6)):
        own += [s_call(lit(k)), s_show(lit("then"))]
    rng.shuffle(scripts)
    return Scenario(sid, ONE(), scripts, [("own", own)], kind="fmp12")


def recursion(rng, sid, n):
    """scripts that perform themselves as long as there is a next record"""
    name, other = rng.sample(WORDS, 2)
    p = Prog(rng)
    go = [s_nav("next", lit("true")), s_call(name)]
    b = [s_set("t", lit(0))] + p.mark() + [s_loop(go + p.mark())] + p.mark()
    scripts = [(name, b)]
    if rng.random() < .5:                               # two scripts performing each other
        scripts = [(name, [s_show(lit("in")), s_call(other), s_show(lit("back"))]), (other, b)]
    own = [s_new()] * n + [s_nav("first"), s_call(name)] + [s_show(lit("end"))] + [s_nav("first"), s_call(name)] * rng.choice([0, 1])
    return Scenario(sid, ONE(), scripts, [("own", own)])


# --------------------------------------------------------------- variables, S04
TEXTS = ["a", "A", "x y", " lead", "trail ", "tab\there", "line\nbreak", "ü", "日本語", "it's", "a,b", "(a", "b)", "((1", "2))(",
         "1", "007", "1.5", "-3", "true", "false", "a::b", "T::a", "&a", "+1", "a + b", "==0", "//c", "/* no */", "[x]", "x]", "x}", "{y", "z;",
         "\\n", "%s", "e\u0301", "a\u2028", "ｆｕｌｌ", "end ", "0", "$v", "'x'", "#1", "a|b", "é", "\u00a0x", "ß", "a\U0010fffd", "if (1 == 1)", "end test;", "define x() {}",
         "two  spaces", "a \t \n b", "a ≠ b", "≤1", "≥x≥", "1 == 1", "a<=b", "!=z", "5 < 6", "é  è", "x ", "  y", "1,000", "10%", "a; b", "x // y", "a-b", "…z", "“q”"]


def any_text(rng):
    k = rng.randrange(6)
    if k == 0:
        s = "".join(rng.choice("abcXYZ   019,.;:()[]{}&+-*/=<>!'#$%_\\|~^?éßあ🎈≠≤≥×÷–’\t") for _ in range(rng.randrange(0, 30)))
        return s if any(c.isalnum() for c in s) else s + "k"
    if k == 1:
        return "".join(chr(rng.choice([rng.randrange(0x21, 0x22), rng.randrange(0x23, 0x7f), rng.randrange(0xa1, 0x250), rng.randrange(0x3041, 0x30ff),
                                       rng.randrange(0x1f300, 0x1f5ff)])) for _ in range(rng.randrange(1, 9))) + rng.choice("a7Z")
    return rng.choice(TEXTS)


def any_number(rng, big=True):
    k = rng.randrange(7)
    if k == 0:
        return rng.randrange(0, 10)
    if k == 1:
        return rng.randrange(10, 1000)
    if k == 2 and big:
        return rng.choice([rng.randrange(1 << 24, 1 << 29), rng.randrange(1 << 29, 1 << 45), rng.randrange(1 << 45, 1 << 53)])
    if k == 3:
        return Fraction(rng.randrange(1, 4096), 1 << rng.randrange(1, 8))
    if k == 4 and big:
        return (1 << rng.randrange(20, 53)) + rng.choice([-1, 0, 1])
    if k == 5:
        return rng.choice([0, 1, 10, 100, 255, 256, 65535, 65536, Fraction(1, 2), Fraction(1, 4), Fraction(5, 2), Fraction(1, 1024)])
    return rng.randrange(0, 100000)


VARS = ["a", "A", "ab", "a1", "a_b", "total", "Total", "naïve", "x" * 40, "größe", "n", "nn", "tmp", "i", "$v", "_u", "min_value", "Charm", "true1", "set", "end"]


def variables(rng, sid, kind=None):
    names = rng.sample(VARS, rng.randrange(3, 9))
    scr = script_names(rng, rng.choice([0, 1, 2]))
    small = rng.random() < .35                       # expressible in an fmp12 script

    def assigns(n, calls):
        out, mine = [], []
        for _ in range(n):
            v = rng.choice(names)
            k = rng.randrange(9)
            if k < 3:
                e = lit(any_text(rng) * (rng.choice([1] * 30 + [20, 90]) if not small else 1))
            elif k < 5:
                e = lit(rng.randrange(256) if small else any_number(rng))
            elif k == 5 and mine:
                e = op(var(rng.choice(mine)), "&", lit(rng.choice(["x", "y2"])))
            elif mine:
                e = var(rng.choice(mine))
            else:
                e = lit(7)
            if k == 7 and calls:
                out.append(s_call(rng.choice(calls)))
            out.append(s_set(v, e))
            if v not in mine:
                mine.append(v)
            if rng.random() < .4:
                out.append(s_show(var(rng.choice(mine))))
        return out + [s_show(var(v)) for v in mine]
    scripts = [(n, assigns(rng.randrange(1, 8), scr[i + 1:])) for i, n in enumerate(scr)]
    own = assigns(rng.randrange(4, 16), scr)
    if scr:
        own += [s_call(scr[0])] + [s_show(var(v)) for v in names if any(s["k"] == "set" and s["v"] == v for s in own)] + assigns(2, [])
    return Scenario(sid, ONE(), scripts, [("own", own)], kind=kind)


# ------------------------------------------------------------------ records, D*
class Data:
    """Sequences of record operations over several tables, occurrences and
    layouts. Fields are typed by number: odd ones numbers, even ones texts."""
    OCCN = ["T", "U", "People", "people_copy", "Ünit", "x_1", "日本", "Invoices", "a.b", "T2", "Peop", "PEOPLE", "t", "ünit"]

    def __init__(self, rng, schema=None):
        self.rng = rng
        self.schema = schema or self.random_schema()
        self.n = 0
        self.nums = [0, 1, 2, 3, 7, 12, 100, Fraction(1, 2), 1 << 25]
        self.texts = ["a", "b", "red", "Red", "red ", "日本", "a,b", "(x)", "1", "long " * 8]
        self.count = [0] * len(self.schema.tables)
        self.cur = 1
        self.layout_of = {}
        for n, o in self.schema.layouts:
            self.layout_of.setdefault(o, []).append(n)

    def random_schema(self):
        r = self.rng
        nt = r.choice([1, 2, 2, 3])
        fields = lambda: r.choice([["f%d" % j for j in range(1, 9)], ["a", "ab", "abc", "b", "A"], ["id", "name", "größe", "id2", "Name"]])
        tables = [("tab%d" % i if r.random() < .5 else self.OCCN[i], fields()[:r.randrange(1, 6)]) for i in range(nt)]
        no = r.randrange(nt, nt + 4)
        names = r.sample(self.OCCN, no)
        tab = list(range(1, nt + 1)) + [r.randrange(1, nt + 1) for _ in range(no - nt)]
        r.shuffle(tab)
        occs = list(zip(names, tab))
        lay = [(n if r.random() < .6 else "L %d" % i, i + 1) for i, n in enumerate(names)]
        for _ in range(r.randrange(0, 3)):
            other = r.choice(lay)[0]
            others = [x for x in (other.upper(), other.lower(), other + " ", " " + other, other + "2", other * 2) if x not in [y for y, _ in lay]]
            lay.append((r.choice(others) if others and r.random() < .4 else "extra %d" % len(lay), r.randrange(1, no + 1)))
        r.shuffle(lay)
        return Schema(tables, occs, lay, r if r.random() < .7 else None)

    def tab(self, o):
        return self.schema.occs[o - 1][1]

    def nf(self, o):
        return len(self.schema.tables[self.tab(o) - 1][1])

    def filled(self, o):
        return self.count[self.tab(o) - 1] > 0

    def val(self, f):
        r = self.rng
        return lit(r.choice(self.nums) if f % 2 else r.choice(self.texts))

    def setf(self, o=None):
        r = self.rng
        o = o or r.choice([x for x in range(1, len(self.schema.occs) + 1) if self.filled(x)] or [0])
        if not o:
            return []
        f = r.randrange(1, self.nf(o) + 1)
        k = r.randrange(6)
        if k == 0 and self.filled(self.cur):
            f2 = r.randrange(1, self.nf(self.cur) + 1)
            return [s_setf(o, f, fld(self.cur, f2))] if f % 2 == f2 % 2 else []
        if k == 1:
            self.n += 1
            return [s_setf(o, f, lit(1000 + self.n) if f % 2 else lit("u%d" % self.n))]
        return [s_setf(o, f, self.val(f))]

    def read(self):
        if not self.filled(self.cur):
            return []
        return [s_show(fld(self.cur, f)) for f in self.rng.sample(range(1, self.nf(self.cur) + 1), self.rng.randrange(1, self.nf(self.cur) + 1))]

    def new(self):
        r = self.rng
        self.count[self.tab(self.cur) - 1] += 1
        out = [s_new()]
        if r.random() < .85:
            self.n += 1
            f = r.randrange(1, self.nf(self.cur) + 1)
            out.append(s_setf(self.cur, f, lit(self.n) if f % 2 else lit("n%d" % self.n)))
        return out

    def nav(self):
        r = self.rng
        if not self.filled(self.cur):
            return []
        k = r.randrange(7)
        if k < 5:
            out = [s_nav(["first", "last", "next", "previous", "next"][k])]
        else:
            out = [s_nav(lit(r.choice([0, 1, 2, 3, 5, 9, 40, 1000])))]
        return out + (self.read() if r.random() < .6 else [])

    def layout(self):
        r = self.rng
        if r.random() < .12:
            return [s_layout("nowhere")]
        n, self.cur = r.choice(self.schema.layouts)
        return [s_layout(n)]

    def find(self):
        """enter find mode, some requests, perform"""
        r = self.rng
        out = [s_find()]
        for _ in range(r.choices([0, 1, 2, 3, 5], [1, 6, 4, 2, 1])[0]):
            f = r.randrange(1, self.nf(self.cur) + 1)
            out.append(s_setf(self.cur, f, self.val(f) if r.random() < .6 or not self.n else lit(r.randrange(1, self.n + 1)) if f % 2 else lit("n%d" % r.randrange(1, self.n + 1))))
        if r.random() < .15:                                # once more, also amid the requests
            out.insert(r.randrange(1, len(out) + 1), s_find())
        moving = r.random()
        if moving < .25:                                    # navigation moves nothing meanwhile
            if moving < .1:                                 # and no request matches: all records, same position
                out = [x for x in out if x["k"] == "find"]
            for _ in range(r.randrange(1, 4)):
                to = r.choice(["next", "last", "first", "previous", lit(r.choice([0, 1, 2, 3, 9]))])
                out.insert(r.randrange(1, len(out) + 1), s_nav(to))
        elif moving < .4:                                   # to another layout and back
            back = self.go(self.cur)
            if back:
                at = r.randrange(1, len(out) + 1)
                out[at:at] = [s_layout(r.choice(self.schema.layouts)[0]) for _ in range(r.randrange(1, 3))] + back
        return out + [s_pfind()] + (self.read() if r.random() < .7 else [])

    def go(self, o):
        if o in self.layout_of:
            self.cur = o
            return [s_layout(self.rng.choice(self.layout_of[o]))]
        return None

    def dump(self, whole):
        """show the current record of every occurrence, then whole found sets"""
        r, out = self.rng, []
        occs = [o for o in range(1, len(self.schema.occs) + 1) if self.filled(o)]
        r.shuffle(occs)
        for o in occs:
            s = self.go(o)
            if s:
                out += s + [s_show(fld(o, f)) for f in range(1, self.nf(o) + 1)]
        for o in occs if whole else []:
            s = self.go(o)
            if s:
                out += s
                for i in range(self.count[self.tab(o) - 1] + 1):
                    f = r.randrange(1, self.nf(o) + 1)
                    out += [s_nav(lit(i)), s_show(op(lit("at %d " % i), "&", fld(o, f))) if r.random() < .01 else s_show(fld(o, f))]
                    out += [s_show(fld(o, g)) for g in range(1, self.nf(o) + 1) if g != f]
        return out

    def ops(self, n, w):
        r = self.rng
        out = []
        kinds = list(w)
        for _ in range(n):
            k = r.choices(kinds, [w[x] for x in kinds])[0]
            out += {"new": self.new, "setf": self.setf, "read": self.read, "nav": self.nav, "layout": self.layout, "find": self.find,
                    "all": lambda: [s_all()] + (self.read() if r.random() < .5 else []), "dump": lambda: self.dump(False)}[k]()
        return out + self.dump(True)


BASE = {"new": 6, "setf": 4, "read": 3, "nav": 4, "layout": 2, "find": 2, "all": 1, "dump": 1}


def data(rng, sid, n, w, schema=None):
    d = Data(rng, schema)
    b = d.ops(n, dict(BASE, **w))
    scripts = []
    if rng.random() < .4:                              # some of it in a script of the file
        for j in range(rng.choice([1, 2])):
            at = rng.randrange(len(b) + 1)
            k = at
            while k < len(b) and k - at < 12 and storable(b[k:k + 1]):
                k += 1
            if k > at:
                scripts.append(("part%d" % j, b[at:k]))
                b = b[:at] + [s_call("part%d" % j)] + b[k:]
    return Scenario(sid, d.schema, scripts, [("own", b)])


# -------------------------------------------------------------- expressions, E*
class Expr:
    """Random calculations together with their exact value, so that what is
    generated stays within the numbers the specification can represent and
    away from the interpreter's limits. The value computed here is not the
    oracle: spec/Calc.tla is."""

    def __init__(self, rng, env, small=False):
        self.rng, self.env, self.small = rng, env, small      # env: list of (tokens, value)

    def nums(self):
        return [x for x in self.env if isinstance(x[1], (int, Fraction)) and not isinstance(x[1], bool)]

    def texts(self):
        return [x for x in self.env if isinstance(x[1], str)]

    @staticmethod
    def ok(x):
        """exact in double precision, and written with at most 15 digits"""
        x = Fraction(x)
        k = x.denominator.bit_length() - 1
        if k == 0 and (1 << 53) <= abs(x) < 10 ** 22:         # such as 3 * 10^18
            return int(float(x)) == x and len(str(abs(x.numerator)).rstrip("0")) <= 15
        if x.denominator != 1 << k or abs(x.numerator) >= 1 << 53:
            return False
        return k == 0 or len(decimal(abs(x)).replace(".", "").lstrip("0")) <= 15

    def apply(self, o, a, b):
        """the exact value, or None where it is left out"""
        if o in "*/":
            if o == "/" and b == 0 or a * b == 0 and (a < 0 or b < 0):
                return None
        v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[o]()
        return v if self.ok(v) else None

    def atom(self):
        r = self.rng
        if r.random() < .45 and self.nums():
            t, v = r.choice(self.nums())
            return t, Fraction(v)
        if self.small:
            v = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 64, 100, 127, 128, 200, 255, r.randrange(256)])
        else:
            v = any_number(r) if r.random() < .3 else r.choice([1, 3, 25, 128]) * 10 ** r.randrange(5, 19) if r.random() < .04 else r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 25, 64, Fraction(1, 2), Fraction(3, 4), Fraction(5, 2)])
        return lit(v), Fraction(v)

    RANK = {"+": 3, "-": 3, "*": 4, "/": 4}

    def number(self, depth):
        """(tokens, value, rank of the outermost operator; 9 for none)"""
        r = self.rng
        for _ in range(40):
            if depth == 0 or r.random() < .15:
                break
            o = r.choice("+-*/" if r.random() < .8 else "-/")
            a, av, ar = self.number(depth - 1 if r.random() < .7 else max(0, depth - 2))
            b, bv, br = self.number(depth - 1 if r.random() < .4 else 0)
            v = self.apply(o, av, bv)
            if v is None:
                continue
            k = self.RANK[o]
            if ar < k or r.random() < .08:
                a = par(a)
            if br <= k or r.random() < .08:
                b = par(b)
            return op(a, o, b), v, k
        t, v = self.atom()
        return t, v, 9

    def chain(self, n):
        """n operators in a row without parentheses: precedence decides"""
        r = self.rng
        for _ in range(200):
            t, v = self.atom()
            toks, term = list(t), Fraction(v)
            total, pend = Fraction(0), "+"
            for _ in range(n):
                for _ in range(30):
                    o = r.choice("+-*/-")
                    t, v = self.atom()
                    if v > 1000 and r.random() < .8:
                        t = lit(r.randrange(1, 9))
                        v = Fraction(t[0][1])
                    if o in "*/":
                        nt = self.apply(o, term, v)
                        if nt is None:
                            continue
                        nxt = (total, pend, nt)
                    else:
                        tot = self.apply(pend, total, term)
                        if tot is None:
                            continue
                        nxt = (tot, o, v)
                    total, pend, term = nxt
                    toks += [("op", o)] + t
                    break
            tot = self.apply(pend, total, term)
            if tot is not None:
                return toks, tot, 3
        t, v = self.atom()
        return t, v, 9

    def called(self, depth):
        """a number whose last part is a call"""
        r = self.rng
        for _ in range(60):
            f = r.choice(["Abs", "Abs", "Abs", "Min"] if not self.small else ["Abs"])
            t, v, _ = self.number(r.choice([0, 1, 2, depth])) if depth < 1 or r.random() < .6 else self.called(depth - 1)
            if f == "Abs" and (Fraction(v).denominator > 4 or abs(Fraction(v).numerator) >= 262144):
                continue
            e, v, k = fn(f, t), abs(v) if f == "Abs" else v, 9
            while depth and r.random() < .5:                  # something before the call
                a, av, ar = self.number(r.choice([0, 0, 1, 2]))
                o = r.choice("+-*/")
                w = self.apply(o, av, v)
                if w is None:
                    break
                j = self.RANK[o]
                e, v, k = op(par(a) if ar < j else a, o, par(e) if k <= j else e), w, j
            if r.random() < .1:
                e, k = par(e), 9
            return e, v, k
        return self.number(1)

    def char(self):
        r = self.rng
        if self.small:
            n = r.choice([65, 97, 48, 32, 44, 40, 41, 38, 10, 233, 128, 255, r.randrange(35, 256)])
        else:
            n = r.choice([65, 97, 48, 32, 44, 40, 41, 38, 10, 233, 0x3042, 0x1f388, 0x10fffd, 128, 255, 256, r.randrange(35, 0xd7ff)])
        t = lit(n)
        if r.random() < .4:
            m = r.randrange(1, 30)
            t = op(lit(n - m), "+", lit(m)) if n > m else lit(n)
        return fn("Char", t), chr(n), 9

    def text(self, depth, numbers=True, last=False):
        """(tokens, value, rank): joins of texts and numbers; last: with a call at the end"""
        r = self.rng
        if not last and (depth == 0 or r.random() < .2):
            if r.random() < .4 and self.texts():
                t, v = r.choice(self.texts())
                return t, v, 9
            v = any_text(r)
            return lit(v), v, 9
        if last and (depth == 0 or r.random() < .3):
            return self.char()
        parts = []
        n = r.choices([2, 3, 4, 8], [5, 3, 2, 1])[0]
        anytext = False
        for i in range(n - last):
            if numbers and r.random() < .3:
                t, v, k = self.number(r.choice([0, 0, 1, 2]))
                parts.append((t, decimal(v)))
            else:
                t, v, k = self.text(r.choice([0, depth - 1]) if depth < 4 else 0, numbers)
                parts.append((par(t) if k < 9 else t, v))
                anytext = True
        if last:
            t, v, k = self.text(depth - 1, numbers, True) if r.random() < .5 or not anytext else self.called(1)
            parts.append((par(t) if k == 2 else t, v if isinstance(v, str) else decimal(v)))
        elif not anytext:
            v = any_text(r)
            parts.append((lit(v), v))
        toks = parts[0][0]
        for p in parts[1:]:
            toks = op(toks, "&", p[0])
        return toks, "".join(p[1] for p in parts), 2

    def compare(self, depth, last=False):
        r = self.rng
        sign = lambda x, y: (x > y) - (x < y)
        if r.random() < .55:
            a, av, _ = self.number(depth)
            if last:
                b, bv, _ = self.called(depth)
            elif r.random() < .35:                            # the same value, written differently
                d = r.choice([1, 2, 8] if self.small else [1, 2, Fraction(1, 2), 8])
                if self.ok(av - d) and av >= d and (not self.small or av < 256):
                    b, bv = op(lit(av - d), "+", lit(d)), av
                else:
                    b, bv = a, av
            else:
                b, bv, _ = self.number(depth)
            safe = sign(av, bv) == sign(decimal(av), decimal(bv))
        else:
            a, av, k = self.text(depth)
            j = r.randrange(4)
            if last:
                b, bv, _ = self.text(depth, True, True)
            elif j < 3:
                bv = [av, av[:-1], av + r.choice(["a", " ", "é", "!"])][j]
                if not any(c.isalpha() or c.isdecimal() for c in bv):
                    bv += "q"
                b = lit(bv)
            else:
                b, bv, _ = self.text(depth)
            safe = sign(av, bv) == sign(av + '"', bv + '"')
        if not last and r.random() < .5:
            a, b = b, a
        return op(a, r.choice(CMP) if safe else r.choice(["==", "!="]), b)


def expressions(rng, sid, what, n=6):
    """what: list of kinds among number deep chain text compare call tcall ccall"""
    inside = rng.random() < .25                             # in a script of an fmp12 file
    sch = Schema([("T", ["f1", "f2", "f3x", "größe"])], [("T", 1), ("Copy", 1)], [("T", 1)])
    body, env = [], []
    num = lambda: rng.randrange(256) if inside else any_number(rng)
    for v in rng.sample([x for x in VARS if x != "$v"], 4):
        x = num() if rng.random() < .6 else any_text(rng)
        if rng.random() < .2:
            x = -rng.randrange(1, 50)
            body.append(s_set(v, op(lit(0), "-", lit(-x))))
        else:
            body.append(s_set(v, lit(x)))
        env.append((var(v), x))
    fields = not inside and rng.random() < .7
    if fields:
        body.append(s_new())
        for f in range(1, 5):
            x = any_number(rng) if f % 2 else any_text(rng)
            body.append(s_setf(1, f, lit(x)))
            env.append((fld(1, f), x))
    g = Expr(rng, env, inside)
    shown = 0
    for i in range(10 * n):
        if shown == n:
            break
        k = rng.choice(what)
        d = rng.choice([1, 2, 3, 4, 6])
        if k == "number":
            e = g.number(d)[0]
        elif k == "deep":
            e = g.number(rng.randrange(6, 12))[0]
            for _ in range(rng.choice([0, 3, 12])):
                e = par(e)
        elif k == "chain":
            e = g.chain(rng.choice([2, 3, 5, 9, 20]))[0]
        elif k == "text":
            e = g.text(rng.choice([0, 1, 2, 3]))[0]
        elif k == "compare":
            e = g.compare(rng.choice([0, 1, 2, 3]))
        elif k == "call":
            e = g.called(rng.choice([0, 1, 2, 3]))[0]
        elif k == "tcall":
            e = g.text(rng.choice([0, 1, 2]), True, True)[0]
        elif k == "ccall":
            e = g.compare(rng.choice([1, 2]), True)
        else:
            raise AssertionError(k)
        if inside and not storable([s_show(e)]):
            continue
        shown += 1
        truth = k in ("compare", "ccall")
        j = rng.randrange(8)
        if truth and j < 3:
            body.append(s_if([(e, [s_show(lit(1))])], [s_show(lit(2))]))
        elif truth and j == 3 and not inside:
            body.append(s_loop([s_exit(e), s_show(lit("on")), s_exit(TRUE)]))
        elif not truth and j == 4:
            body += [s_set("q%d" % i, e), s_show(var("q%d" % i))]
        elif not truth and j == 5 and fields:
            kind = 1 if k in ("number", "deep", "chain", "call") else 2
            f = rng.choice([kind, kind + 2])
            env[:] = [x for x in env if x[0] != fld(1, f)]
            body += [s_setf(1, f, e), s_show(fld(1, f))]
        else:
            body.append(s_show(e))
    if inside:
        return Scenario(sid, sch, [("calc", body)], [("own", [s_call("calc")])], kind="fmp12")
    return Scenario(sid, sch, [], [("own", body)])


# --------------------------------------------------------------- test suites, T*
def asserting(rng, sid):
    """programs with assertions everywhere, some of them false"""
    p = rng.choice([.5, .9, .97, 1])
    s = program(rng, sid, size=rng.randrange(3, 12), weights={"assert": 5, "call": 3, "mark": 2}, bold=.002)
    bodies = [b for _, b in s.scripts] + [b for _, _, b in s.tests]
    q = Prog(rng)
    for b in bodies:
        for x in within(b):
            if x["k"] == "assert":
                x["e"] = q.cond(rng.random() < p) if rng.random() < .9 else op(var("t"), rng.choice(["==", "!=", "<="]), lit(rng.randrange(1, 9)))
    return s


def deep_assert(rng, sid, depth):
    """an assertion down a chain of calls, and steps that follow each call"""
    names = script_names(rng, min(depth, 8)) + ["d%d" % i for i in range(depth - 8)]
    scripts, at = [], rng.randrange(depth)
    for i, n in enumerate(names):
        b = [s_show(lit("in %d" % i))]
        if i == at:
            b.append(s_assert(op(lit(1), "==", lit(rng.choice([1, 2, 2])))))
        b += [s_call(lit(names[i + 1]))] if i + 1 < depth else []
        scripts.append((n, b + [s_show(lit("out %d" % i))] * rng.choice([0, 1])))
    own = [s_call(lit(names[0])), s_show(lit("end"))]
    rng.shuffle(scripts)
    return Scenario(sid, ONE(), scripts, [("own", own)])


TESTN = ["T", "test_1", "endtest", "ünit", "日本", "a", "A", "Success", "outcome", "x2", "checks_everything", "if3", "assert1", "define", "test"]


def suite(rng, sid, n):
    """tests one after the other, also the same ones again"""
    s = program(rng, sid, size=rng.randrange(1, 5), weights={"call": 3, "assert": 1}, maxdepth=3, bold=.002)
    q, known = Prog(rng), [(x, has(b, "if"), has(b, "loop")) for x, b in s.scripts]
    tests = [s.tests[0][1:]]
    while len(tests) < n:
        k = rng.randrange(5)
        if k == 0:
            tests.append(rng.choice(tests))
        else:
            p = Prog(rng, known if k < 3 else (), weights={"assert": 1 if k == 4 else 0, "if": rng.choice([0, 4]), "loop": rng.choice([0, 2])}, bold=.002)
            tests.append((rng.choice(["own", "s", "test_script"]), p.body(rng.randrange(1, 5))))
    rng.shuffle(tests)
    for k, (x, b) in enumerate(tests):
        for y in within(b):
            if y["k"] == "assert" and k < n - 1 and rng.random() < .95:
                y["e"] = q.cond(True)
    tests = [("%s%s" % (rng.choice(TESTN[:11]), i if rng.random() < .6 else ""), x, b) for i, (x, b) in enumerate(tests)]
    if rng.random() < .5 and all(storable(b) for _, b in s.scripts):      # records in the last one
        d = Data(rng, TWO())
        tests.append(("data", "own", d.ops(rng.choice([2, 5, 10]), BASE)))
        return Scenario(sid, d.schema, [x for x in s.scripts], tests)
    return Scenario(sid, s.schema, s.scripts, tests)


def command_line(rng, sid, n):
    """n tiny tests spread over test files and the schema's source"""
    tests = []
    if n == 8 and rng.random() < .2:                       # many
        n = rng.choice([65, 130, 260])
    for i in range(n):
        b = [s_show(lit("this is %d" % i))] if rng.random() < .9 else []
        if i == n - 1 and rng.random() < .3:
            b += [s_assert(FALSE), s_show(lit("not reached"))]
        elif rng.random() < .3:
            b += [s_assert(TRUE)]
        tests.append((rng.choice(TESTN[:11]) + (str(i) if rng.random() < .7 else ""), rng.choice(["own", "s", "script2"]), b))
    scripts = [("s", [s_show(lit("a script"))])] if rng.random() < .5 else []
    kind = rng.choice(["burn", "burn", "fmp12"])
    split, left = [], n
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if kind == "burn" else rng.choice([1, 2, 3, 5])):
        split.append(rng.randrange(left + 1) if rng.random() < .8 else 0)
        left -= split[-1]
    if kind == "fmp12":
        split[-1] += left
    return Scenario(sid, ONE(), scripts, tests, kind=kind, split=split, quiet=rng.random() < .15)


# ----------------------------------------- the interpreter's defects, one by one
def defect(k):
    """the fixed scenario that shows a listed defect"""
    show = lambda x: s_show(lit(x))
    one = lambda *b, **kw: Scenario(k, kw.pop("schema", ONE()), kw.pop("scripts", []), kw.pop("tests", [("own", list(b))]), kind=kw.pop("kind", None))
    rec = lambda *b: one(*b, schema=TWO())
    yes, no = TRUE, FALSE
    i0, inc = s_set("i", lit(0)), s_set("i", op(var("i"), "+", lit(1)))
    return {
        # an outer branch that is not taken ends at the first EndIf inside it
        "nested-if-skipped": lambda: one(s_if([(no, [s_if([(yes, [show("in")])], None), show("wrong")])], None), show("end")),
        # an inner chain makes the outer one forget that it has taken a branch
        "branch-flag": lambda: one(s_if([(yes, [s_if([(yes, [show("in")])], None), show("first")])], [show("wrong")]), show("end")),
        # after an inner loop the outer one goes back to the inner one's start
        "loop-scope": lambda: one(i0, s_loop([inc, show("outer"), s_loop([show("inner"), s_exit(op(var("i"), ">=", lit(1)))]),
                                                 s_exit(op(var("i"), ">=", lit(2)))]), show("end")),
        # an exit goes to the first EndLoop further down, also that of an inner loop
        "exit-before-inner-loop": lambda: one(s_loop([show("outer"), s_exit(yes), s_loop([show("wrong"), s_exit(yes)]), show("also wrong"), s_exit(yes)]), show("end")),
        "exit-outside-loop": lambda: one(s_exit(yes), show("end")),
        # an exit flag counts as true whatever its value
        "exit-flag": lambda: rec(s_new(), i0, s_loop([inc, s_nav("next", no), show("again"), s_exit(op(var("i"), "==", lit(2)))]), show("end")),
        "unknown-script": lambda: one(show("begin"), s_call("no_such_script"), show("end")),
        # truth values are not read back
        "truth-value": lambda: one(s_set("v", yes), s_show(var("v"))),
        # a script's variables are still there when the next one is called
        "stale-variables": lambda: one(s_call("first"), s_call("second"), scripts=[("first", [s_set("v", lit(1))]), ("second", [s_show(var("v"))])]),
        "after-failure": lambda: one(tests=[("own", [show("one"), s_assert(no)]), ("own", [show("two")])]),
        "leftovers": lambda: one(schema=TWO(), tests=[("own", [s_new(), s_setf(1, 1, lit(1))]), ("own", [s_new(), s_nav("first"), s_show(fld(1, 1))])]),
        # an empty found set
        "empty-go-last": lambda: rec(s_nav("last"), show("end")),
        "empty-go-next": lambda: rec(s_nav("next"), show("end")),
        "empty-read": lambda: rec(s_show(fld(1, 1)), show("end")),
        "empty-set": lambda: rec(s_setf(1, 1, lit(1)), show("end")),
        # a field is looked up by its name in the current occurrence
        "field-of-other-occurrence": lambda: rec(s_new(), s_setf(1, 1, lit("here")), s_layout("U"), s_new(), s_setf(2, 1, lit("there")), s_show(fld(1, 1))),
        "number-order": lambda: one(s_show(op(lit(9), "<", lit(10)))),
        "text-order": lambda: one(s_show(op(lit("a"), "<", lit("a!")))),
        "negative-zero": lambda: one(s_show(op(par(op(lit(0), "-", lit(5))), "*", lit(0)))),
        "text-literal": lambda: one(s_show(op(lit("a"), "&", op(lit("-"), "&", lit("b"))))),
        "call-position": lambda: one(s_show(op(op(lit(2), "*", fn("Abs", lit(5))), "+", lit(1)))),
        "call-arguments": lambda: one(s_show(fn("Min", lit(2), lit(1)))),
        "get-account": lambda: one(s_show(account())),
        "abs-single-precision": lambda: one(s_show(fn("Abs", lit(16777217)))),
    }[k]()
