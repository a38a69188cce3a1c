"""Writing fmp12 byte streams and files: chunks, directories, sectors."""

CODES = list(range(0, 24)) + list(range(25, 33)) + [35, 40, 48, 56, 61, 64, 128]
SECTOR = 4096
ROOM = SECTOR - 20


def size(k):
    return 1 if k == 0 else 2 * k


def lengths(code):
    """payload length a code prescribes, or None when it is written out"""
    if 1 <= code <= 5:
        return size(code - 1)
    if 9 <= code <= 13:
        return size(code - 9)
    if 17 <= code <= 21:
        return 3 + size(code - 17)
    return {8: 2, 16: 3}.get(code)


def mark(r, n):
    return [r.choice([252, 128]), n - 128]


def random_chunk(r, code, late=False, big=300, length=None):
    """the bytes of a random chunk with this code; length: of data with a two-byte length"""
    def some(n):
        return [r.choice([0, 0, 1, 64, 128, 255, 6, 32]) if r.random() < .4 else r.randrange(256) for _ in range(n)]
    n = r.choice([0, 1, 2, 3, 7, 20, 60, r.randrange(256)])
    n2 = r.choice([0, 1, 5, 255, 256, r.randrange(big)]) if length is None else length
    key, key2 = r.randrange(256), r.randrange(128, 384)
    ref = some(r.choice([0, 1, 3, 8]))
    c = code
    if c == 0:
        b = [r.choice([0, 0, 77])]
    elif 1 <= c <= 5:
        b = [key] + some(lengths(c))
    elif c == 6:
        b = [key, n] + some(n)
    elif c == 7:
        b = [key] + [n2 >> 8, n2 & 255] + some(n2)
    elif c in (8, 16) or 17 <= c <= 21:
        b = some(lengths(c))
    elif 9 <= c <= 13:
        b = mark(r, key2) + some(lengths(c))
    elif c == 14:
        b = [255] + some(5) if r.random() < .25 else mark(r, key2) + [n] + some(n)
    elif c == 15:
        b = [128, key] + [n2 >> 8, n2 & 255] + some(n2)
    elif c == 22:
        b = some(3) + [n] + some(n)
    elif c == 23:
        b = some(3) + [n2 >> 8, n2 & 255] + some(n2)
    elif c == 27 and r.random() < .4:
        b = [0, key] + some(4)
    elif 25 <= c <= 29:
        n = max(n, 1) if c == 27 else n
        b = [n] + some(n) + some(size(c - 25))
    elif c == 30:
        b = [len(ref)] + ref + [n] + some(n)
    elif c == 31:
        b = [len(ref)] + ref + [n2 >> 8, n2 & 255] + some(n2)
    elif c == 32:
        b = [254] + some(8) if r.random() < .15 else [r.randrange(254)]
    elif c == 35:
        b = [n] + some(n)
    elif c == 40:
        b = mark(r, key2)
    elif c == 48:
        b = some(3)
    elif c == 56:
        m = r.choice([2, 3, 3, 4])
        b = [m] + mark(r, key2) + some(m - 2)
    else:
        b = []
    return [c + 192 if late else c] + b


LATE = [c for c in CODES if c < 64]


def stream(r, n):
    """n chunks that keep the path shallow"""
    out, depth = [], 0
    for _ in range(n):
        c = r.choice(CODES)
        if depth < 9 and r.random() < .25:
            c = r.choice([32, 40, 48, 56])
        elif depth and r.random() < .25:
            c = r.choice([61, 64, 64])
        late = c < 64 and r.random() < .12
        depth += (c in (32, 40, 48, 56)) - (c in (61, 64)) - late
        depth = max(0, depth)
        out.append(random_chunk(r, c, late))
    return out


# ------------------------------------------------------------------ files
def mask(data):
    return [b ^ 0x5A for b in data]


def text(s):
    return mask(s.encode())


def keyed(r, key, data):
    """a chunk that stores data under a key, in any encoding that can"""
    n, ways = len(data), [6]
    ways += [c for c in range(1, 6) if lengths(c) == n] * 3
    if n == 4:
        ways.append(27)
    if 128 <= key < 256:
        ways += [c for c in range(9, 14) if lengths(c) == n] * 3 + [14, 14]
    c = r.choice(ways)
    if c <= 5:
        return [c, key] + data
    if c == 6:
        return [6, key, n] + data
    if c == 27:
        return [27, 0, key] + data
    if c == 14:
        return [14] + mark(r, key) + [n] + data
    return [c] + mark(r, key) + data


def plain(r, data):
    """a chunk of plain data"""
    n, ways = len(data), [35]
    ways += [c for c in (8, 16, 17, 18, 19, 20, 21) if lengths(c) == n] * 2
    ways += [25, 26, 28, 29] + ([27] if n else [])      # an empty 27 is a keyed chunk
    c = r.choice(ways)
    if c in (8, 16) or 17 <= c <= 21:
        return [c] + data
    if c == 35:
        return [c, n] + data
    return [c, n] + data + [r.randrange(256) for _ in range(size(c - 25))]


def numbered(r, seg, data):
    n = [len(data) >> 8, len(data) & 255]
    return [7, seg] + n + data if r.random() < .6 else [15, 128, seg] + n + data


def push(r, d):
    """a chunk that opens directory d: (0, id) is an id in three bytes"""
    if isinstance(d, tuple):
        return [48, r.choice([0, 128]), r.choice([0, 128]), d[1]]
    if d >= 254 or d >= 128 and r.random() < .6:
        return [40] + mark(r, d) if r.random() < .75 else [56, 3] + mark(r, d) + [r.randrange(256)]
    if r.random() < .03:
        return [32, 254, d] + [r.randrange(256) for _ in range(7)]
    return [32, d]


class Writer:
    """Collects (path, chunk) entries and lays them out in sectors."""

    def __init__(self, r, noise=.15):
        self.r, self.noise = r, noise
        self.entries = []          # (path, chunk bytes or None for a bare directory)

    def dir(self, *path):
        self.entries.append((path, None))

    def put(self, chunk, *path):
        self.entries.append((path, chunk))

    def junk(self, path):
        """a chunk that means nothing where it stands"""
        r = self.r
        k = r.randrange(6)
        some = lambda n: [r.randrange(256) for _ in range(n)]
        if k == 0:
            return [128]
        if k == 1:
            return [22] + some(3) + [5] + some(5)
        if k == 2:
            return [30, 4] + some(4) + [3] + some(3)
        if k == 3 and path[:3] != (3, 17, 5) and 251 not in path and path[:1] != (32,):
            return plain(r, some(r.choice([0, 2, 3, 9])))
        if k == 4:
            return keyed(r, r.choice([216, 252, 200, 77, 90]), some(r.choice([1, 2, 4, 9])))
        if path[:2] == (17, 5):
            return [128]
        return numbered(r, r.choice([9, 70]), some(r.choice([0, 3, 300])))

    def chunks(self):
        """(path before, chunk, path after) with directories opened and closed"""
        r, here = self.r, []

        def close(n):
            while len(here) > n:
                before = tuple(here)
                here.pop()
                x = r.random()
                # a chunk that closes the directory after it, or a plain close
                c = [192 + 16, 1, 2, 3] if x < .06 and 251 not in before and before[:1] != (32,) else [61] if x < .2 else [64]
                yield before, c, tuple(here)
        for path, chunk in self.entries:
            keep = 0
            while keep < min(len(here), len(path)) and here[keep] == path[keep]:
                keep += 1
            if keep == len(path) and chunk is None:        # opened again
                keep -= 1
            if r.random() < .04:
                keep = r.randrange(keep + 1)
            yield from close(keep)
            while len(here) < len(path):
                before = tuple(here)
                here.append(path[len(here)])
                yield before, push(r, here[-1]), tuple(here)
                if r.random() < .3:
                    yield tuple(here), [128], tuple(here)
            if chunk is not None:
                yield tuple(here), chunk, tuple(here)
                if r.random() < self.noise:
                    yield tuple(here), self.junk(path), tuple(here)
        yield from close(0)

    def sectors(self, room=None):
        """payloads of consecutive sectors; open directories are opened again"""
        r = self.r
        out, cur, last = [], [], 0
        limit = room or ROOM
        target = limit if r.random() < .3 else r.randrange(limit // 2, limit)
        for before, chunk, after in self.chunks():
            tail = 0
            if len(cur) + len(chunk) > target or (r.random() < .004):
                if r.random() < .3:                        # filled to its last byte
                    cur = cur[:last] + [128] * (ROOM - len(cur)) + cur[last:]
                out.append(cur)
                cur = []
                target = r.choice([limit, r.randrange(limit // 3, limit)])
                for d in before:
                    cur += push(r, d)
                if len(cur) + len(chunk) > target:
                    target = ROOM
            last = len(cur)
            cur = cur + chunk
            assert len(cur) <= ROOM
        out.append(cur)
        return out

    def file(self, room=None):
        """(file bytes, sectors as the specification reads them)"""
        r = self.r
        parts = self.sectors(room)
        places = list(range(3, 2 + len(parts) + r.choice([0, 0, 2])))
        while len(places) < len(parts) - 1:
            places.append(3 + len(places))
        if r.random() < .7:
            r.shuffle(places)
        order = [2] + places[:len(parts) - 1]
        total = max(max(order), 2)
        spec = [[0, []] for _ in range(total)]
        blob = bytearray(r.randrange(256) for _ in range(SECTOR))
        blob += bytearray(SECTOR * total)
        for k in range(1, total + 1):                      # sectors nothing leads to hold anything
            if k not in order and k != 1:
                blob[k * SECTOR + 20:(k + 1) * SECTOR] = bytes(r.randrange(256) for _ in range(ROOM))
        head = lambda k, level, prev, nxt: bytes([0, level, 0, 0]) + prev.to_bytes(4, "big") + nxt.to_bytes(4, "big") + bytes(8)
        blob[SECTOR:SECTOR + 20] = head(1, 0, 0, total)
        for i, k in enumerate(order):
            nxt = order[i + 1] if i + 1 < len(order) else 0
            prev = order[i - 1] if i else 0
            blob[k * SECTOR:k * SECTOR + 20] = head(k, r.choice([0, 1]), prev, nxt)
            blob[k * SECTOR + 20:k * SECTOR + 20 + len(parts[i])] = bytes(parts[i])
            spec[k - 1] = [nxt, parts[i]]
        return bytes(blob), spec


# -------------------------------------------------------------- calculations
OPS = {"(": 4, ")": 5, "+": 0x25, "-": 0x26, "*": 0x27, "/": 0x28, "<": 0x41, "<=": 0x43, "==": 0x44, "!=": 0x46, ">=": 0x47, ">": 0x49, "&": 0x50}


def code_of(r, toks, white=.2, odd=True):
    """bytecode of a list of tokens: ('n', 5) ('t', str) ('v', str) ('o', op) ('f', name) ('g', name);
    odd: also spaces without a text, which make a text of the program that follows them disappear"""
    out = []
    end = lambda: [0] if r.random() < .85 else []          # a zero byte ends a text
    for t in toks:
        if r.random() < white:
            bare = r.random() >= .6
            out += [12, 19] + [n := r.choice([0, 1, 1, 2]) if not odd or r.random() < .97 else r.randrange(60, 250)] + text(r.choice(" \n\t") * n) + end() if not bare else [12] if odd or t[0] != "t" else []
        k, v = t
        if k == "n":
            body = [2, 0, 1, 0, 16, 0, 0, 0, v] + [0] * 9 + [r.choice([32, 0])] if r.random() < .7 else [r.randrange(256) for _ in range(8)] + [v] + [r.randrange(256) for _ in range(10)]
            out += [16] + body
        elif k == "t":
            b = text(v)
            out += [19, len(b)] + b + end()
        elif k == "v":
            b = text(v)
            out += [26, len(b)] + b
        elif k == "o":
            out.append(OPS[v])
        elif k == "f":
            out += {"Abs": [0x2d], "Get": [0x9b], "Acos": [0x9d], "Char": [0xfb, 3]}[v]
        elif k == "g":
            out += [0x9c, {"CurrentTime": 0x1d, "AccountName": 0x20, "DocumentsPath": 0x49, "DocumentsPathListing": 0x5d}[v]]
    if r.random() < white:
        out += [12, 19, 1] + text(" ") + end()
    return out


ODD = ["", " ", "a", "12", "x + y", "(", ")", "<=", "tr,ue", "ключ", "äöü", "日本語", "\n", "==", "\x10\x13\x1a", "A&B", "%&'(", "ACDFGIP", "-", "\x04\x05", "😀", "a;b}"]


def word(r, n=8):
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(r.randrange(1, n)))


def some_text(r):
    x = r.random()
    if x < .4:
        return r.choice(ODD)
    if x < .7:
        return " ".join(word(r) for _ in range(r.randrange(1, 4)))
    return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(1, 0x250), r.randrange(0x3b0, 0x500)])) for _ in range(r.randrange(0, 30))).replace('"', "")


def calc_tokens(r, depth=3):
    def operand(d):
        x = r.random()
        if d and x < .2:
            return [("o", "(")] + expr(d - 1) + [("o", ")")]
        if d and x < .3:
            return [("f", r.choice(["Abs", "Acos", "Char"])), ("o", "(")] + expr(d - 1) + [("o", ")")]
        if x < .37:
            return [("f", "Get"), ("o", "("), ("g", r.choice(["CurrentTime", "AccountName", "DocumentsPath", "DocumentsPathListing"])), ("o", ")")]
        if x < .57:
            return [("n", r.choice([0, 1, 2, 4, 12, 16, 19, 26, 80, 255, r.randrange(256)]))]
        if x < .8:
            return [("t", some_text(r))]
        return [("v", r.choice(["", "$"]) + word(r) + r.choice(["", "_" + word(r), "::" + word(r), "7"]))]

    def expr(d):
        out = operand(d)
        while r.random() < .5:
            out += [("o", r.choice(list(OPS)[2:]))] + operand(d)
        return out
    return expr(depth)


# ------------------------------------------------------------------ catalogs
def a_name(r):
    x = r.random()
    if x < .6:
        return word(r) + r.choice(["", " " + word(r), "_" + word(r)])
    if x < .9:
        return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(0xa1, 0x250), 0x4e00 + r.randrange(90)])) for _ in range(r.randrange(1, 20)))
    return word(r, 4) * r.choice([1, 20, 30])


def ids(r, n, lo=1, hi=255):
    x = r.random()
    if x < .3:
        got = list(range(lo, lo + n))
    elif x < .5 and n > 1:                              # numbers that share their lower bits, or their digits
        k = r.randrange(lo, hi + 1)
        near = [k ^ b for b in (128, 1, 127, 256, 64)] + [k - 128, k + 128, k + 1, k * 10, k // 10, k % 10, k % 100, 255 - k, 127, 128, 129]
        near = [y for y in dict.fromkeys(near) if lo <= y <= hi and y != k]
        near = [k] + near[:1] + r.sample(near[1:], min(n, 4, len(near) - 1))
        rest = [y for y in range(lo, hi + 1) if y not in near]
        got = near[:n] + r.sample(rest, max(0, n - len(near)))
    else:
        got = r.sample(range(lo, hi + 1), n)
    if r.random() < .5:
        got.sort()
    return got


class Catalog:
    """A random schema and its fmp12 file."""

    def __init__(self, r, tables=0, fields=0, occs=0, rels=0, layouts=0, scripts=0, steps=0, sources=0, other=.5, known=None, calc_depth=3):
        self.r, w = r, Writer(r)
        self.w = w
        name = lambda: a_name(r)
        tids = ids(r, tables)
        if r.random() < other:
            for _ in range(r.randrange(1, 5)):
                w.put(keyed(r, r.choice([3, 5, 16, 129]), text(name())[:200]), 2)
        late, order = [], tids[:]
        for t in tids:
            w.dir(3, 16, 5, 128 + t)
            at = (3, 16, 5, 128 + t)
            job = lambda at=at: w.put(keyed(r, 16, self.name()), *at)
            if r.random() < .12:
                late.append(job)            # its name comes when the directory is opened again
            else:
                job()
        r.shuffle(late)
        for j in late:
            j()
        # occurrences and relationships
        oids = ids(r, occs)
        rids = ids(r, rels) if occs else []
        listed = {o: [] for o in oids}
        for k in rids:
            a, b = r.choice(oids), r.choice(oids)
            listed[a].append((b, k))
            if b != a:
                listed[b].append((a, k))
        for o in oids:
            at = (3, 17, 5, (0, o))
            info = [r.randrange(256) for _ in range(r.choice([35, 35, 8, 12]))]
            info[6] = r.choice(tids) if tids else 1
            w.dir(*at)
            w.put(keyed(r, 2, info), *at)
            w.put(keyed(r, 16, self.name()), *at)
            if r.random() < .3:
                w.put(keyed(r, r.choice([129, 130, 131]), self.name()), *at)
            r.shuffle(listed[o])
            for b, k in listed[o]:
                w.put(plain(r, [r.randrange(256), r.randrange(256), b, r.randrange(256), k] + ([r.randrange(256)] if r.random() < .1 else [])), *at, 251)
        for k in r.sample(rids, len(rids)) if r.random() < .5 else rids:
            w.put(keyed(r, 1, [r.randrange(7), 2] + mark(r, 128 + r.randrange(1, 256)) + [2] + mark(r, 128 + r.randrange(1, 256)) + [r.randrange(256) for _ in range(r.choice([0, 1, 2]))]), 3, 251, 5, k, 3)
            if r.random() < .2:
                w.put(keyed(r, r.choice([2, 7]), [1, 2, 3, 4]), 3, 251, 5, k, 3)
        for l in ids(r, layouts, 1, 380):
            at = (4, 1, 7, l)
            w.dir(*at)
            job = [lambda: w.put(keyed(r, 2, [r.randrange(256), 128 + (r.choice(oids) if oids else 1) % 128] + [r.randrange(256) for _ in range(r.choice([0, 4]))]), *at),
                   lambda: w.put(keyed(r, 16, self.name()), *at)]
            if r.random() < .3:
                job.reverse()
            for j in job:
                j()
                if r.random() < .1:
                    w.dir(*at)
        if r.random() < other:
            for _ in range(r.randrange(4)):
                w.put(keyed(r, r.choice([1, 16, 4]), self.name()), 6, 5, r.randrange(1, 9))
        self.scripts(scripts, steps, known, calc_depth)
        if r.random() < other:
            for d in (23, 25):
                w.put(keyed(r, r.choice([1, 16, 4]), self.name()), d, 1)
        self.sources(sources)
        if r.random() < other:
            w.put(keyed(r, r.choice([1, 16, 4]), self.name()), 65, 1)
        self.fields(tids, fields)
        self.counts = [len(tids), len(oids), len(rids), layouts, scripts, sources]

    def name(self):
        b = text(a_name(self.r))
        while len(b) > 255:
            b = text(a_name(self.r))
        return b

    def fields(self, tids, n):
        r, w = self.r, self.w
        jobs = []
        for t in tids:
            for f in ids(r, r.randrange(n + 1), 1, 380):
                at = (128 + t, 3, 5, f)
                parts = [(16, self.name())]
                for k in (3, 2, 129, 130):
                    if r.random() < .4:
                        parts.append((k, self.name()))
                r.shuffle(parts)
                jobs.append((at, parts))
        if r.random() < .3:
            r.shuffle(jobs)                 # directories closed and opened again
        rest = []
        for at, parts in jobs:
            w.dir(*at)
            cut = r.randrange(len(parts) + 1) if r.random() < .15 else len(parts)
            for k, b in parts[:cut]:
                w.put(keyed(r, k, b), *at)
            rest += [(at, p) for p in parts[cut:]]
        for at, (k, b) in rest:
            w.put(keyed(r, k, b), *at)

    def sources(self, n):
        """external data sources: an index in name order, then each with its name and place"""
        r, w = self.r, self.w
        sids = ids(r, n, 1, 380)
        if n and r.random() < .8:
            for _ in sids:
                w.put(plain(r, [b for _ in range(r.randrange(1, 9)) for b in (18, r.choice([15, 107, 30]))] + [0, 0, 0]), 32, 1, 1)
            for x in sids:
                w.put(plain(r, list(x.to_bytes(4, "big"))), 32, 1, 3)
        for x in sids:
            at = (32, 5, x)
            jobs = [lambda: w.put(keyed(r, 16, self.name()), *at)]
            if r.random() < .85:
                jobs.append(lambda: w.put([6, 130, len(loc)] + loc, *at))
                path = self.path()
                kind, name = text(r.choice(["file", "file", "filemac", "fmnet"])), text(word(r, 12) + r.choice(["", "_IE", " 2", ".fmp12"]))
                loc = [r.randrange(256) for _ in range(3)] + [1, len(kind)] + kind + [len(path), 65, 50] + path + [len(name)] + name
            if r.random() < .7:
                user = self.name()
                jobs.append(lambda: w.put(r.choice([[14] + mark(r, 130) + [len(user)], [14, 128, 2, len(user)]]) + user, *at))
            if r.random() < .5:
                r.shuffle(jobs)
            w.dir(*at)
            for j in jobs:
                j()
            if r.random() < .3:
                w.put(keyed(r, r.choice([2, 7]), [1, 2]), *at, r.choice([4, 7, 16]))

    def path(self):
        r, out = self.r, []
        while r.random() < .4 and len(out) < 20:
            out += [219, 218]
        while r.random() < .75 and len(out) < 60:
            if r.random() < .2:
                out += text(word(r, 3)) + [65]
            out += text(r.choice([word(r), "home", "the share", "h", "Users", ":h" + word(r), word(r) + ":h", word(r, 12) + "_" + word(r)])) + [218]
        if r.random() < .05:
            out.append(219)
        return out

    def scripts(self, n, steps, known, calc_depth):
        r, w = self.r, self.w
        sids = ids(r, n)
        for s in sids:
            w.put(keyed(r, 16, self.name()), 17, 1, 7, s)
            if r.random() < .15:
                w.put(keyed(r, r.choice([1, 2, 216]), [1, 2]), 17, 1, 7, s)
        order = sids if r.random() < .5 else r.sample(sids, len(sids))
        for s in order:
            recs, data = [], []
            n0 = r.choice([0, 1, 1, r.randrange(100)])
            nums = r.sample(range(0, 384), r.randrange(steps + 1)) if r.random() < .4 else list(range(n0, min(n0 + r.randrange(steps + 1), 384)))
            for k in nums:
                op = r.choice(known or list(range(1, 212))) if r.random() < .7 else r.choice([1, 141, 103, 87, 68, 141, 255, 253, 2, 240])
                if op in (176, 254):
                    op = 141
                rec = [r.randrange(256) for _ in range(28)]
                if k < 128 and r.random() < .8 or k < 128:
                    rec[0], rec[2] = 2, k
                else:
                    rec[0] = 3
                    rec[2:4] = mark(r, k)
                rec[21] = op
                if op == 1:
                    rec[8] = r.choice(sids) if r.random() < .95 else r.randrange(256)   # one that is gone
                recs += rec
                if op == 141:
                    name = word(r)
                    data.append((k, 128, keyed(r, 1, text(name))))
                    # sometimes set to itself
                    data.append((k, 129, self.calc(calc_depth) if r.random() < .85 else keyed(r, 5, code_of(r, [("v", name)]))))
                elif op == 103:
                    data.append((k, 128.5, self.calc(calc_depth)))
                elif r.random() < .3:
                    data.append((k, 129, self.calc(calc_depth)))
            if not recs and r.random() < .5:
                w.dir(17, 5, s)
                continue
            x = r.random()
            if len(recs) < 250 and x < .5:
                w.put(keyed(r, 4, recs), 17, 5, s)
            elif len(recs) < 3000 and x < .7:
                w.put(numbered(r, 4, recs), 17, 5, s)
            else:
                parts, i = [], 0
                while i < len(recs):
                    m = r.choice([28, 56, 280, r.randrange(1, 400)])
                    parts.append(recs[i:i + m])
                    i += m
                if len(parts) < 250:
                    parts = [(k + 1, p) for k, p in enumerate(parts)]
                    w.dir(17, 5, s, 4)
                    for k, p in r.sample(parts, len(parts)) if r.random() < .3 else parts:
                        w.put(numbered(r, k, p), 17, 5, s, 4)
                else:
                    w.put(numbered(r, 4, recs[:2800]), 17, 5, s)
            for k, where, chunk in data:
                if where == 128:
                    w.put(chunk, 17, 5, s, 5, k, 128)
                else:
                    w.put(chunk, 17, 5, s, 5, k, int(where), 5)

    def calc(self, depth):
        r = self.r
        while True:
            if r.random() < .06:                       # one long operand
                toks = [(r.choice("tv"), "".join(r.choice("abcdefgh") for _ in range(r.randrange(60, 248))))]
                toks += r.choice([[], [("o", "+"), ("n", r.randrange(256))]])
            else:
                toks = calc_tokens(r, r.randrange(depth + 1))
            b = code_of(r, toks)
            if len(b) <= 255:
                return keyed(r, 5, b)
