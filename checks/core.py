"""Shared machinery: building the hooked binary, driving it, running TLC,
known findings, evidence and verdicts."""
import base64
import concurrent.futures
import fcntl
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BURN_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
KNOWN = os.path.join(ROOT, "known_findings.txt")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    """The check itself could not do its work: neither held nor violated."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def shell_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], stdout=subprocess.PIPE, check=True).stdout
    for item in out.split(b"\0"):
        if b"=" in item:
            k, v = item.decode(errors="replace").split("=", 1)
            env[k] = v
    return env


def build(driver=None):
    """Compile the binary from the working tree, as the ordinary command line
    tool or with a driver of harness/ in the verification hook; its path."""
    os.makedirs(BUILD, exist_ok=True)
    env = shell_env()
    target = os.path.join(BUILD, "target")
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if driver:
            env["BURN_VERIF_DRIVER"] = os.path.join(BUILD, "driver_%s.rs" % driver)
            with open(env["BURN_VERIF_DRIVER"], "w") as f:
                for part in ("common", driver):
                    with open(os.path.join(HARNESS, part + ".rs")) as g:
                        f.write(g.read())
        cmd = ["cargo", "rustc", "--bin", "burn_fm", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
               "--target-dir", target, "--offline", "--locked"] + (["--", "--cfg", "burn_verif"] if driver else [])
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=BUILD)
        if p.returncode != 0:
            log(p.stdout.decode(errors="replace")[-6000:])
            raise ToolError("the binary does not build")
        # each run keeps its own copy, so that a concurrent build cannot swap it
        fd, exe = tempfile.mkstemp(prefix="burn_fm.", dir=BUILD)
        os.close(fd)
        shutil.copy2(os.path.join(target, "debug", "burn_fm"), exe)
        os.chmod(exe, 0o755)
    return exe


# ------------------------------------------------------------------- driving
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def drive(exe, scens, tmp, shards=CORES):
    """Run every scenario through the real code. Returns id -> record."""
    work = tempfile.mkdtemp(prefix="drive.", dir=tmp)
    shards = max(1, min(shards, len(scens)))
    jobs = []
    for k in range(shards):
        part = scens[k::shards]
        inp = os.path.join(work, "in%d" % k)
        outp = os.path.join(work, "out%d" % k)
        with open(inp, "w") as f:
            for s in part:
                f.write(json.dumps(s) + "\n")
        open(outp, "w").close()
        jobs.append({"part": part, "in": inp, "out": outp, "start": 0, "p": None, "done": False})

    def launch(j):
        env = dict(os.environ, BURN_VERIF_SCEN=j["in"], BURN_VERIF_OUT=j["out"], BURN_VERIF_START=str(j["start"]))
        j["p"] = subprocess.Popen([exe], env=env, cwd=work, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, preexec_fn=limits)

    def finished(j):
        with open(j["out"]) as f:
            return sum(1 for l in f if l.endswith("\n"))

    for j in jobs:
        launch(j)
    bad = 0
    while not all(j["done"] for j in jobs):
        for j in jobs:
            if j["done"] or j["p"].poll() is None:
                continue
            n = finished(j)
            if n >= len(j["part"]):
                j["done"] = True
                continue
            if j["p"].returncode == 0:
                raise ToolError("driver ended early")
            if n == j["start"] or j["p"].returncode != 3:
                # the process died inside scenario n
                rec = {"id": j["part"][n]["id"], "status": "abort", "msg": "exit %s" % j["p"].returncode, "res": {}}
                with open(j["out"], "a") as f:
                    f.write(json.dumps(rec) + "\n")
                n += 1
            bad += 1
            if bad > 12:
                # enough: what was not run is left out of the verdict
                j["done"] = True
                continue
            j["start"] = n
            if n >= len(j["part"]):
                j["done"] = True
            else:
                launch(j)
        time.sleep(0.02)
    got = {}
    for j in jobs:
        with open(j["out"]) as f:
            for line in f:
                r = json.loads(line)
                got[r["id"]] = r
    shutil.rmtree(work, ignore_errors=True)
    return got


# ------------------------------------------------------------ the tool itself
def command(exe, args, cwd, timeout=30):
    """Run the command line tool; (exit code or "hang", stdout, stderr)."""
    cmd = ["prlimit", "--as=%d" % (3 << 30), "--core=0", "--fsize=%d" % (1 << 30), exe, *args]
    try:
        p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return "hang", e.stdout or b"", e.stderr or b""
    return p.returncode, p.stdout, p.stderr


def schema_of(d):
    """the schema the tool wrote as JSON, in the order in which it wrote it"""
    rows = lambda k: [(int(i), x) for i, x in d[k].items()]
    script = lambda s: {"name": s["script_name"], "args": s["arguments"],
                        "steps": [{"op": i["opcode"], "idx": i["index"], "args": i["switches"]} for i in s["instructions"]]}
    return {
        "tables": [{"id": i, "name": t["table_name"],
                    "fields": [{"id": int(j), "name": x["field_name"], "desc": x["field_description"], "type": x["field_type"],
                                "acc": x["created_by_account"], "user": x["created_by_user"]} for j, x in t["fields"].items()]}
                   for i, t in rows("tables")],
        "occs": [{"id": i, "name": o["table_occurence_name"], "table": o["table_actual"], "table_name": o["table_actual_name"]}
                 for i, o in rows("table_occurrences")],
        "rels": [{"id": i, "t1": x["table1"], "f1": x["field1"], "t2": x["table2"], "f2": x["field2"],
                  "n1": x["table1_name"], "n2": x["table2_name"], "cmp": x["comparison"]} for i, x in rows("relationships")],
        "layouts": [{"id": i, "name": x["layout_name"], "occ": x["table_occurrence"]} for i, x in rows("layouts")],
        "lists": [{"id": i, "name": x["list_name"]} for i, x in rows("value_lists")],
        "sources": [{"id": i, "name": x["source_name"], "user": x["created_by_user"], "type": x["source_location"]["source_type"],
                     "path": x["source_location"]["source_path"], "file": x["source_location"]["source_filename"]}
                    for i, x in rows("data_sources")],
        "scripts": [dict(script(x), id=i) for i, x in rows("scripts")],
        "tests": [{"name": t["test_name"], "script": script(t["script"])} for t in d["tests"]],
    }


def tool(exe, scens, tmp):
    """Run each scenario as a command of its own. Returns id -> record."""
    def one(s):
        work = tempfile.mkdtemp(prefix="tool.", dir=tmp)
        os.mkdir(os.path.join(work, "inspect_output"))
        if s["op"] == "decompile":
            args, made = ["-d", s["path"]], "test_decompile"
        else:
            with open(os.path.join(work, "x.burn"), "w") as f:
                f.write(s["src"] if s["op"] in ("compile", "tests") else "script: [\n%s\n]\n" % s["src"])
            args, made = ["-c", "x.burn"], "test_compile"
            if s["op"] == "tests":
                with open(os.path.join(work, "y.burn"), "w") as f:
                    f.write("table t : end table;\n")
                args = ["-t", "x.burn", "-c", "y.burn"]
        code, out, err = command(exe, args + ["--no-testing"], work)
        rec = {"id": s["id"], "exit": code, "msg": err.decode(errors="replace")[-400:], "res": {}}
        try:
            with open(os.path.join(work, "inspect_output", made)) as f:
                rec["res"]["schema"] = schema_of(json.load(f))
            rec["status"] = "done"
        except FileNotFoundError:
            rec["status"] = "hang" if code == "hang" else "panic"
        except (ValueError, KeyError, TypeError, AttributeError) as e:
            rec["status"] = "malformed"
            rec["msg"] += " %r" % e
        rec["made"] = sorted(x for d in (".", "inspect_output") for x in os.listdir(os.path.join(work, d)) if x not in ("x.burn", "y.burn", "inspect_output"))
        shutil.rmtree(work, ignore_errors=True)
        return rec
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        return {r["id"]: r for r in ex.map(one, scens)}


def suites(exe, scens, rng, tmp, timeout=20):
    """Run each suite of tests as a command of its own. Returns id -> record."""
    seeds = {s.id: rng.randrange(1 << 60) for s in scens}

    def read(path):
        try:
            with open(path) as f:
                return schema_of(json.load(f)), "read"
        except FileNotFoundError:
            return None, "nothing"
        except (ValueError, KeyError, TypeError, AttributeError):
            return None, "unknown"

    def one(s):
        work = tempfile.mkdtemp(prefix="suite.", dir=tmp)
        os.mkdir(os.path.join(work, "inspect_output"))
        args = s.write(random.Random(seeds[s.id]), work)
        log_to, err_to = os.path.join(work, "out"), os.path.join(work, "err")
        cmd = ["prlimit", "--as=%d" % (3 << 30), "--core=0", "--fsize=%d" % (1 << 25), exe, *args]
        with open(log_to, "wb") as o, open(err_to, "wb") as e:
            try:
                code = subprocess.run(cmd, cwd=work, stdin=subprocess.DEVNULL, stdout=o, stderr=e, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                code = "hang"
        with open(log_to, errors="replace") as f:
            out = f.read(1 << 20)
        with open(err_to, errors="replace") as f:
            err = f.read(4000)
        files = {}
        for n in sorted({*s.files, *([s.source] if s.kind == "burn" else [])}):
            with open(os.path.join(work, n)) as f:
                files[n] = f.read()
        if s.kind == "fmp12":
            with open(os.path.join(work, s.source), "rb") as f:
                files[s.source] = base64.b64encode(zlib.compress(f.read())).decode()
        schema, state = read(os.path.join(work, "inspect_output", "test_compile" if s.kind == "burn" else "test_decompile"))
        if s.kind == "fmp12" and s.given and schema:
            # the tests are only written down with a source
            with open(os.path.join(work, "e.burn"), "w") as f:
                f.write("value_list none :\nend value_list;\n")
            command(exe, [a for a in args if a not in ("-d", s.source, "--no-testing", "--print-header")] + ["-c", "e.burn", "--no-testing"], work)
            tests, state = read(os.path.join(work, "inspect_output", "test_compile"))
            if tests:
                schema["tests"] = tests["tests"]
            else:
                schema = None
        shutil.rmtree(work, ignore_errors=True)
        return {"id": s.id, "exit": code, "args": args, "files": files, "out": out, "err": err, "schema": schema, "state": state}
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        return {r["id"]: r for r in ex.map(one, scens)}


# ----------------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, tmp, env=None, cfg=None, workers=CORES, heap="6g", timeout=800, extra=()):
    """Run TLC on spec/<module>.tla; returns output, counts, and whether an
    invariant or property of the specification was violated."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=tmp)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    out = os.path.join(meta, "out.txt")
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, preexec_fn=os.setsid)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise ToolError("TLC timed out on %s" % module)
    with open(out, errors="replace") as f:
        text = f.read()
    r = TlcResult()
    r.text = text
    r.code = p.returncode
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", text)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.ok = p.returncode == 0 and "Model checking completed. No error has been found" in text
    r.violated = re.findall(r"(?:Invariant|Action property|Temporal propert\w+) (\S+) (?:is|was) violated", text)
    shutil.rmtree(meta, ignore_errors=True)
    return r


VERDICT = re.compile(r'<<\s*"END",\s*"([^"]*)",\s*"(ok|bad)"\s*,?(.*?)>>\s*(?=\n|$)', re.S)


def verdicts(text):
    """id -> (ok?, remark) from the specification's verdict lines."""
    out = {}
    for m in re.finditer(r'<<\s*"END",\s*"([^"]*)",\s*"(ok|bad)"', text):
        rest = text[m.end():m.end() + 400]
        rest = rest.split('"END"')[0].split(">>\n")[0]
        ok = m.group(2) == "ok"
        if m.group(1) in out and out[m.group(1)][0] != ok:
            ok = out[m.group(1)][0] or ok       # some behaviour of the spec explains it
        out[m.group(1)] = (ok, " ".join(rest.split()).strip(", "))
    return out


def judge(module, records, tmp, heap="3g", timeout=840, cfg=None, env=None, shards=CORES):
    """Let the specification judge recorded observations: the records are dealt
    to several single-worker TLC runs. Every record must get a verdict."""
    parts = [[] for _ in range(max(1, min(shards, len(records))))]
    weight = [0] * len(parts)
    for size, i in sorted(((len(json.dumps(r)), i) for i, r in enumerate(records)), reverse=True):
        k = weight.index(min(weight))
        parts[k].append(records[i])
        weight[k] += size + 2000
    res, gen, dis = {}, 0, 0
    odd = []

    def unreadable(text):
        """what TLC says of an observation that has not the shape of any the specification knows"""
        if re.search(r"StackOverflow|OutOfMemory|heap space|argument of Assert|Parsing or semantic|No space", text):
            return None
        m = re.search(r"(Attempted to (?!apply the operator overridden).*|A non-function .*|.*(?:not in the domain|out of range|IllegalArgument|JsonNull).*)", text)
        return m and m.group(0).strip()[:200]

    def one(part):
        fd, path = tempfile.mkstemp(prefix="trace.", suffix=".json", dir=tmp)
        with os.fdopen(fd, "w") as f:
            json.dump(part, f, ensure_ascii=True)
        r = tlc(module, tmp, env=dict(env or {}, TRACE_FILE=path), heap=heap, timeout=timeout, cfg=cfg, workers=1)
        v = verdicts(r.text)
        missing = [x["id"] for x in part if x["id"] not in v]
        if (not r.ok or missing) and unreadable(r.text):
            os.unlink(path)
            if len(part) == 1:
                odd.append(part[0]["id"])
                return {part[0]["id"]: (False, "not an observation: " + unreadable(r.text))}, r.generated, r.distinct
            half = len(part) // 2
            a = one(part[:half])
            if len(odd) > 20:                          # enough to report; the rest goes without a verdict
                return a
            b = one(part[half:])
            return dict(a[0], **b[0]), a[1] + b[1], a[2] + b[2]
        if not r.ok or missing:
            log(r.text[-1500:])
            keep = os.path.join(BUILD, "failed-trace.json")
            shutil.copy(path, keep)
            raise ToolError("TLC gave no verdict on %s (kept %s)" % (missing[:5], keep))
        os.unlink(path)
        return v, r.generated, r.distinct
    with concurrent.futures.ThreadPoolExecutor(len(parts)) as ex:
        for v, g, d in ex.map(one, [p for p in parts if p]):
            res.update(v)
            gen += g
            dis += d
    if len(odd) > 20:
        for x in records:
            res.setdefault(x["id"], (True, "not judged"))
    return res, gen, dis


# ------------------------------------------------------------ values from code
LIM = 1 << 30


def number_json(f):
    """a dyadic rational as spec/Values.tla writes it, or None"""
    f = Fraction(f)
    k = f.denominator.bit_length() - 1
    if f.denominator != 1 << k or k > 120 or abs(f.numerator) >= 1 << 200:
        return None
    n = f.numerator
    if abs(n) < LIM:
        return {"t": "N", "n": n, "k": k}
    d, m = [], abs(n)
    while m:
        d.append(m & 4095)
        m >>= 12
    return {"t": "M", "s": 1 if n > 0 else -1, "d": d, "k": k}


def num_value(s):
    """the number a plain shortest decimal notation denotes"""
    if not re.fullmatch(r"-?\d+(\.\d+)?", s) or len(s) > 80:
        return None
    if "." in s and s.endswith("0"):
        return None
    f = Fraction(s)
    if s.startswith("-0") and f == 0:
        return None
    if re.match(r"-?0\d", s):
        return None
    return number_json(f)


def codes(s):
    return [ord(c) for c in s]


def value(s):
    """The value a stored string denotes."""
    if s == "":
        return {"t": "E"}
    if len(s) >= 2 and s[0] == '"' and s[-1] == '"' and '"' not in s[1:-1]:
        return {"t": "T", "c": codes(s[1:-1])}
    if s in ("true", "false"):
        return {"t": "B", "b": s == "true"}
    n = num_value(s)
    return n if n else {"t": "R", "s": s}


# ---------------------------------------------------------- findings, evidence
def known_findings(prop):
    """key -> description of the listed, unrepaired findings of a property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.violations = []       # (id, remark, replay object)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.known_seen = set()
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="run.%s." % prop, dir=BUILD)
        self._plain = None

    @property
    def plain(self):
        """the command line tool without the hook"""
        if not self._plain:
            t = time.time()
            self._plain = build()
            log("built in %.1fs" % (time.time() - t))
        return self._plain

    def tool(self, scens):
        t = time.time()
        r = tool(self.plain, scens, self.tmp)
        log("%s: %d commands in %.1fs" % (self.prop, len(scens), time.time() - t))
        return r

    def suites(self, scens):
        t = time.time()
        exe = self.plain
        r = suites(exe, scens, self.rng, self.tmp)
        log("%s: %d suites in %.1fs" % (self.prop, len(scens), time.time() - t))
        return r

    def left(self, total):
        return total - (time.time() - self.t0)

    def drive(self, driver, scens, shards=CORES):
        """what the code answers to the scenarios, called through a driver;
        None if the tool builds but the driver does not fit it any more"""
        t = time.time()
        try:
            exe = build(driver)
        except ToolError:
            self.plain
            self.notes["driver"] = "the functions have other signatures; only what the tool does with whole files was judged (for R01 and R02: nothing but the model)"
            return None
        log("built in %.1fs" % (time.time() - t))
        r = drive(exe, scens, self.tmp, shards)
        os.unlink(exe)
        log("%s: drove %d scenarios in %.1fs" % (self.prop, len(scens), time.time() - t))
        return r

    def model(self, module, cfg=None, what=None, timeout=800, env=None, heap="6g", workers=CORES):
        """Exhaustively check a specification on its own."""
        t = time.time()
        r = tlc(module, self.tmp, cfg=cfg, timeout=timeout, env=env, heap=heap, workers=workers)
        if not r.ok:
            log(r.text[-5000:])
            raise ToolError("the specification %s does not check (%s)" % (cfg or module, r.violated))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("models", []).append(
            {"model": cfg or module, "what": what or "", "distinct_states": r.distinct, "transitions": r.generated})
        log("%s: model %s: %d states in %.1fs" % (self.prop, cfg or module, r.distinct, time.time() - t))
        return r

    def judge(self, module, records, replays=None, key=None, **kw):
        """records: list of dicts with id. A record the specification rejects
        is a violation, unless its key is a listed finding."""
        t = time.time()
        v, gen, dis = judge(module, records, self.tmp, **kw)
        self.states += dis
        self.transitions += gen
        self.traces += len(records)
        listed = known_findings(self.prop)
        for rec in records:
            ok, remark = v[rec["id"]]
            if ok:
                continue
            k = key(rec) if key else rec["id"]
            if k in listed:
                self.known_seen.add(k)
                continue
            self.violations.append((rec["id"], remark, (replays or {}).get(rec["id"], rec)))
        log("%s: %s judged %d records (%d bad), %d states in %.1fs"
            % (self.prop, module, len(records), sum(1 for r in records if not v[r["id"]][0]), dis, time.time() - t))
        return v

    def finish(self, assumptions=()):
        for k, d in sorted(known_findings(self.prop).items()):
            if k in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        path = None
        if self.violations:
            rdir = os.path.join(BUILD, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"id": i, "remark": m, "replay": r} for i, m, r in self.violations[:10]], f, indent=1)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        edir = os.path.join(ROOT, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            i, m, _ = self.violations[0]
            log("first of %d: %s %s" % (len(self.violations), i, m))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self._plain and os.path.exists(self._plain):
            os.unlink(self._plain)
