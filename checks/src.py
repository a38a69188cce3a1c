"""Burn sources: random programs in source form, with free layout, for the
properties of the compiler (L01-L03). What they mean is not decided here but by
spec/BurnScript.tla and spec/BurnTop.tla, which read the same characters."""

STEPS = ["perform_script", "go_to_layout", "go_to_record", "go_to_request", "enter_find_mode", "perform_find", "show_all_records",
         "set_field", "set_variable", "exit_loop_if", "new_record_request", "exit_script", "show_custom_dialog", "assert"]
UNKNOWN = ["go_to_field", "commit_records", "foo", "setvariable", "Set_Variable", "ifx", "loops", "sort", "define2", "_if", "elsewhere"]
WORDS = ["a", "x", "basic_script", "Person", "été", "日本", "T1", "_u", "z9", "if2", "endx", "tablex", "script2", "LOOP", "testing", "with_out", "inf", "NaN", "infinity", "e5", "end_", "letter", "O", "²x", "٣"]
GAPS = ["", "", " ", "  ", "\n", "\t", "\n    ", " \n\t ", "\r\n"]
GAPS1 = [" ", "  ", "\n", "\t", "\n  "]
TEXT = "abz 019 ,;(){}[]+-*/&=<>!.:_'#$%äß日🎈\\\t\n"


def quoted(r):
    return '"' + "".join(r.choice(TEXT) for _ in range(r.choice([0, 1, 2, 5, 12]))) + '"'


def arg(r, depth=0, topcommas=False):
    """characters of one argument: parentheses balanced, quotes paired"""
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.randrange(9)
        if k == 0:
            out.append(quoted(r))
        elif k == 1 and depth < 4:
            out.append("(" + arg(r, depth + 1, True) + ")")
        elif k == 2 and depth < 4:
            out.append(r.choice(["Min", "Abs", "f"]) + "(" + arg(r, depth + 1, True) + ")")
        elif k == 3:
            out.append(r.choice([" + ", "*", " & ", "==", " != ", "<", ">= ", "-", "/", "{", "}", "[", ";", "\n", "\t", " "]))
        elif k == 4:
            out.append(str(r.randrange(1000)))
        elif k == 5 and (topcommas or depth):
            out.append(r.choice([",", ", "]))
        elif k == 6:
            out.append(r.choice(["T::a", "Person::first_name", "$x"]))
        else:
            out.append(r.choice(WORDS))
    return "".join(out)


def args(r, n=None):
    n = r.choice([0, 1, 1, 2, 2, 3, 6]) if n is None else n
    g = lambda: r.choice(["", "", " ", "\n ", "\t"])
    if n == 0:
        return r.choice(["()", "( )", "(\n)"]) if r.random() < .5 else "()"
    return "(" + ",".join(g() + arg(r) + g() for _ in range(n)) + ")"


class Source:
    def __init__(self, rng, maxdepth=4, unknown=True, brackets=True):
        self.r, self.maxdepth, self.unknown = rng, maxdepth, unknown
        self.brackets = brackets

    def gap(self):
        return self.r.choice(GAPS)

    def gap1(self):
        return self.r.choice(GAPS1)

    def a(self, n=None):
        while True:
            s = args(self.r, n)
            if self.brackets or "]" not in s:
                return s

    def stmt(self, d):
        r, g = self.r, self.gap
        k = r.random()
        if d >= self.maxdepth or k < .55:
            if self.unknown and r.random() < .07:
                return r.choice(UNKNOWN) + g() + self.a() + g() + ";"
            w = r.choice(STEPS)
            if r.random() < .04:
                return w + g() + ";"
            return w + g() + self.a() + g() + ";"
        if k < .75:
            return "loop" + g() + "{" + self.body(d + 1) + "}"
        s = "if" + g() + self.a(1) + g() + "{" + self.body(d + 1) + "}"
        for _ in range(r.choices([0, 1, 2, 3], [5, 3, 1, 1])[0]):
            s += g() + "elif" + g() + self.a(1) + g() + "{" + self.body(d + 1) + "}"
        if r.random() < .5:
            s += g() + "else" + g() + "{" + self.body(d + 1) + "}"
        return s

    def body(self, d, n=None):
        n = self.r.choices([0, 1, 2, 3, 5], [1, 3, 3, 2, 1])[0] if n is None else n
        out = self.gap()
        for _ in range(n):
            out += self.stmt(d) + self.gap()
        return out

    def script(self, name, n=None):
        r = self.r
        while True:
            p = args(r, r.choice([0, 0, 1, 2, 4])) if r.random() < .2 else "(" + ", ".join(r.sample(WORDS, r.choice([0, 0, 1, 2, 3]))) + ")"
            if self.brackets or "]" not in p:
                break
        if r.random() < .05:
            name = r.choice(["12", "0", "007", "1e5", ".5"])
        return "define" + self.gap1() + name + self.gap() + p + self.gap() + "{" + self.body(0, n) + "}"

    def block(self, names, n=None):
        return self.gap() + "".join(self.script(x, n) + self.gap() for x in names)

    # --------------------------------------------------------- whole sources
    def field_text(self):
        r = self.r
        parts = []
        for _ in range(r.randrange(0, 5)):
            k = r.randrange(8)
            if k == 0:
                parts.append("{" + "".join(r.choice("ab (),;:!=]['\n endtable") for _ in range(r.randrange(1, 14))) + "}")
            elif k == 1:
                parts.append("!{" + r.choice(["!isEmpty(x)", 'x == "}"', 'x == "\n}\n"', '"a" & "\n{" & "}" & z', "a; end table;", '"{" & y', 'end table;', "table x:", ""]) + "}")
            elif k == 2:
                parts.append(quoted(r))
            elif k == 3:
                parts.append('!"not ' + r.choice(["valid", "end table;", "{x", "a]b", "(c"]) + '"')
            elif k == 4:
                parts.append("foundIn[" + r.choice(["male_female", " x ", "a_b"]) + "]")
            elif k == 5:
                parts.append(r.choice(["Unique", "Required", "Text", "Number", "Date", "Timestamp", "Max 20", "3D", "Text 2nd", "1e9", "nan"]))
            elif k == 6:
                parts.append('{get(uuid)}')
            else:
                parts.append(r.choice(["Text", "Existing", "Container"]))
        g = lambda: r.choice(["", " ", "\n  "])
        return (g() + "," + g()).join(parts)

    def table(self, name):
        r, g = self.r, self.gap
        s = "table" + self.gap1() + name + g() + ":" + self.gap1()
        fields = r.randrange(0, 5)
        for i in range(fields):
            t = self.field_text()
            s += r.choice(["f%d" % i, "first_name", "größe", "end_date", "table1", "x", "inf", "2nd", "7"]) + g() + ":" + g() + t + g() + ("," if i + 1 < fields or r.random() < .7 else " ") + self.gap1()
        return s + "end" + self.gap1() + "table" + g() + ";"

    def occ(self, name, table):
        g = self.gap
        s = "table_occurence" + self.gap1() + name + g() + ":" + self.gap1()
        s += "table" + g() + ":" + g() + table + (g() + "," if self.r.random() < .7 else "") + self.gap1()
        return s + "end" + self.gap1() + "table_occurence" + g() + ";"

    def vlist(self, name):
        g = self.gap
        s = "value_list" + self.gap1() + name + g() + ":" + self.gap1()
        s += (g() + "," + g()).join(quoted(self.r) for _ in range(self.r.randrange(0, 5))) + self.gap1()
        return s + "end" + self.gap1() + "value_list" + g() + ";"

    def rel(self, a, b):
        r, g = self.r, self.gap
        s = "relationship" + g() + ":" + g() + a + g() + ":" + g() + b + g() + ("," if r.random() < .8 else " ") + self.gap1()
        for _ in range(r.choice([0, 1, 1, 2])):
            o, g1 = r.choice(["==", "<=", ">=", "<", ">", "!=", "O"]), self.gap1
            h = g1 if o == "O" else g
            s += r.choice(["jobid", "k1", "name_", "inf", "2nd", "7"]) + h() + o + h() + r.choice(["PrimaryKey", "k2", "id_", "nan", "3rd", "12"]) + g() + "," + g1()
        return s + "end" + self.gap1() + "relationship" + g() + ";"

    def scripts(self, names, n=None):
        g = self.gap
        return "script" + g() + ":" + g() + "[" + self.block(names, n) + "]"

    def test(self, name, script, n=None):
        g = self.gap
        s = "test" + self.gap1() + name + g() + ":" + self.gap1()
        s += "script" + g() + ":" + g() + "[" + self.block([script], n) + "]" + g() + ("," if self.r.random() < .8 else " ") + self.gap1()
        return s + "end" + self.gap1() + "test" + g() + ";"

    def program(self, n=None, size=None, what="toolrse"):
        r = self.r
        out, n = [], r.choice([1, 2, 4, 7, 12]) if n is None else n
        used, few = [], r.random() < .3

        def names():
            if used and r.random() < (.7 if few else .15):
                return r.choice(used[-3:])
            used.append(r.choice(WORDS) + r.choice(["", "", "2", "_x", "%d" % r.randrange(99)]))
            return used[-1]
        for _ in range(n):
            k = r.choice(what)
            if k == "t":
                out.append(self.table(names()))
            elif k == "o":
                out.append(self.occ(names(), names()))
            elif k == "l":
                out.append(self.vlist(names()))
            elif k == "r":
                out.append(self.rel(names(), names()))
            elif k == "s":
                out.append(self.scripts([names() for _ in range(r.choice([0, 1, 1, 2, 3]))], size))
            else:
                out.append(self.test(names(), names(), size))
        return self.gap() + "".join(x + self.gap1() for x in out)


def crowd(r, kind, n):
    """many definitions of one kind, shortly written"""
    out = []
    for i in range(n):
        a, b = "n%d" % i, "m%d" % r.randrange(n)
        out.append({"t": "table %s : f : Text, end table;" % a,
                    "o": "table_occurence %s : table : %s, end table_occurence;" % (a, b),
                    "l": 'value_list %s : "a", end value_list;' % a,
                    "r": "relationship : %s : %s, k == l, end relationship;" % (a, b),
                    "s": "script : [define %s() {assert(%d);}]" % (a, i),
                    "e": "test %s : script : [define %s() {assert(%d);}], end test;" % (a, b, i)}[kind])
    return "\n".join(out) + "\n"


def long_scripts(r):
    """what is long in one way only: steps, arguments, one argument, one name, scripts of a block, names of a script, branches"""
    word = lambda n: "".join(r.choice("abcdefgh_ 0123456789") for _ in range(n)).replace(" ", "x")
    yield "steps", "define long() {%s}" % " ".join("assert(%d);" % i if i % 3 else "set_variable(v%d, %d);" % (i, i) for i in range(300))
    yield "args", "define args(%s) { show_custom_dialog(%s); }" % (", ".join("p%d" % i for i in range(270)), ",".join("a%d" % i for i in range(270)))
    yield "arg", 'define arg() { set_variable(x, "%s"); assert(%s); assert(%s); }' % (word(700), word(600), " + ".join(str(i) for i in range(140)))
    yield "name", "define n%s() { assert(1); } define m%s(%s) { foo%s(a, b); assert(2); }" % (word(400), word(300), word(300), word(300))
    yield "scripts", " ".join("define s%d(p%d) { assert(%d); }" % (i, i, i) for i in range(270))
    yield "branches", "define b() { if (c0) { assert(0); } %s else { assert(x); } }" % " ".join("elif (c%d) { assert(%d); }" % (i, i) for i in range(1, 130))
    yield "parens", "define p() { assert(%sx%s); set_variable(v, %s1%s); }" % ("(" * 140, ")" * 140, "Abs(" * 70, ")" * 70)
    yield "blanks", "define q()%s{%sassert(%s1%s,%s2);%s}" % tuple(r.choice([" ", "\n", "\t"]) * 300 for _ in range(6))
    for d in (33, 70, 130):
        s = "assert(d);"
        for k in range(d):
            s = ("loop {%s}" % s if r.random() < .5 else "if (c%d) {%s}" % (k, s) if r.random() < .5 else "if (c) {} else {%s}" % s)
        yield "deep%d" % d, "define deep() {%s}" % s


def plain_arg_texts(length):
    """every text over a small alphabet that one pair of parentheses can hold"""
    alpha = "a ,()\""

    def go(s, depth, quote):
        if len(s) == length:
            if depth == 0 and not quote:
                yield s
            return
        if depth + (1 if quote else 0) > length - len(s):
            return
        for c in alpha:
            if c == '"':
                yield from go(s + c, depth, not quote)
            elif quote or c not in "()":
                yield from go(s + c, depth, quote)
            elif c == "(":
                yield from go(s + c, depth + 1, quote)
            elif depth > 0:
                yield from go(s + c, depth - 1, quote)
    return list(go("", 0, False))


# --------------------------------------------------- malformed sources
def flawed_def(r, g):
    """one definition that lacks something it has to have; what it lacks"""
    import re
    name = r.choice(WORDS[2:8])
    kind = r.choice("tttooooolllrrrsssseeeeee")
    d = {"t": lambda: g.table(name), "o": lambda: g.occ(name, "T1"), "l": lambda: g.vlist(name), "r": lambda: g.rel(name, "T1"),
         "s": lambda: g.scripts([name], r.choice([0, 1, 2])), "e": lambda: g.test(name, "x", r.choice([0, 1]))}[kind]()
    word = {"t": "table", "o": "table_occurence", "l": "value_list", "r": "relationship", "s": "script", "e": "test"}[kind]
    flaws = []
    if kind in "tole":
        head = re.match(word + r"(\s+)" + re.escape(name), d)
        for what, new in (("no name", ""), ("number for a name", r.choice(["12", "7", "0", ".5"])), ("keyword for a name", r.choice(["end", "table", "test", "value_list", "script"])),
                          ("text for a name", '"x"')):
            flaws.append((what, word + head.group(1) + new + d[head.end():]))
    if kind != "s":
        tail = re.search(r"end(\s+)" + word + r"(\s*);$", d)
        for what, new in (("no semicolon", "end" + tail.group(1) + word + " "), ("no kind", "end ;"), ("other kind", "end " + r.choice([x for x in ("table", "relationship", "value_list", "table_occurence", "test", "script", "tabel", word + "s") if x != word]) + " ;"),
                          ("comma for a semicolon", "end " + word + ","), ("colon for a semicolon", "end " + word + " :"), ("end twice", "end end " + word + ";"), ("a word in between", "end " + word + " x;")):
            flaws.append((what, d[:tail.start()] + new))
    if kind in "rs":
        flaws.append(("no colon", re.sub(r"^(%s\s*):" % word, r"\1 ", d)))
        flaws.append(("semicolon for a colon", re.sub(r"^(%s\s*):" % word, r"\1;", d)))
    if kind == "s":
        flaws.append(("no bracket", "script : " + r.choice(["define x ; ", "x y ]", ', "define x() { }" ]', "; x ] "])))
        flaws.append(("no colon", re.sub(r"^(script\s*):", r"\1", d)))
    if kind == "o":
        at = re.search(r"table(\s*):(\s*)T1", d)
        for what, new in (("no colon after table", r.choice(["table T1", "table , T1", "table ; T1", "table x T1"])), ("no table name", "table : ,"), ("number for a table", "table : 3"), ("keyword for a table", "table : " + r.choice(["end", "test"]) + " x"), ("text for a table", 'table : "T1"')):
            flaws.append((what, d[:at.start()] + new + d[at.end():]))
    if kind == "e":
        at = re.search(r"(?<=\s)script(\s*):(\s*)\[", d)
        flaws.append(("no colon before the block", d[:at.start()] + r.choice(["script [", "script ; [", "script , [", "script x ["]) + d[at.end():]))
        flaws.append(("no bracket before the block", d[:at.start()] + r.choice(["script : x y", 'script : ; "define x() { assert(1); }"', 'script : , "define z() { }" ]']) + ", end test;"))
        flaws.append(("two scripts", d[:at.end()] + " define first() { assert(1); } " + d[at.end():]))
        flaws.append(("no script", re.match(r"test\s+" + re.escape(name) + r"\s*:", d).group(0) + " script : [ ], end test;"))
    if kind in "se":
        k = r.choice(["set_variable(x, 1)", "assert (a == b)", 'show_custom_dialog("a", "b;")', "perform_find()", "exit_loop_if(1)"])
        bad = r.choice([k + " }", k + r.choice(STEPS) + "(1); }", k + " loop { assert(1); } }", k + "{ assert(1); } }", "if (a == b) assert(1); }", "if (a) ; }", "if (a == 1) { assert(1); } elif (b) assert(2); }",
                        "loop { %s } }" % k, "if (a) { %s } else { assert(1); } }" % k, "if (a) { } else { %s } }" % k, "if (a) }", k + " if (a) { } }"])
        pre = r.choice(["", "", "assert(0); ", "loop { exit_loop_if(1); } ", "foo(a, b); ", "if (a) { assert(1); } "])
        b = "define x() { " + pre + bad
        flaws.append(("unfinished step", "script : [ " + r.choice(["", "define w() { assert(1); } "]) + b + r.choice(["", " define y() { assert(2); }"]) + " ]" if kind == "s" else "test t : script : [ " + b + " ], end test;"))
    return r.choice(flaws)


def junk(r):
    """what no definition starts with"""
    return r.choice([("word", r.choice(["foo", "define", "Table", "tables", "endtable", "x"]) + " "), ("mark", r.choice([";", ":", ",", "!", "; ;"])), ("text", '"table" '),
                     ("end", "end table;"), ("number", "12 "), ("calculation", "{ x } "), ("a field", "x : Text, ")])


def flawed(r):
    """a source with one flaw between sound definitions"""
    g = Source(r, maxdepth=1, brackets=False)
    what, d = junk(r) if r.random() < .15 else flawed_def(r, g)
    before = g.program(r.choice([0, 0, 1, 2]), 1) if r.random() < .8 else ""
    after = g.program(r.choice([0, 0, 1, 2]), 1)
    if not before.strip() and d[:1] in ';:,!="{':
        before = g.table("first") + "\n"
    return what, before + d + r.choice([" ", "\n"]) + after
