#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import props

TRACE = "TLA+ specification checked with TLC; recorded runs of the real code validated against it"
NOTE = {
    "vm": "Generated test suites are run by the ordinary command line tool; everything they print (dialog values, outcomes) has to be the output of spec/VM.tla for the same programs, step by step in TLC, up to the first known limit of the frozen interpreter (spec/Limits.tla). Trusts TLC, the generator's two renderings of a program (source text or fmp12 bytes, and the tree the specification reads) and the reading of the tool's output.",
    "fn": "Every observed result of the real code is the one the specification gives, for generated and enumerated inputs. Trusts TLC, the recording of the results (the JSON the tool writes, or the drivers behind the hook for F01, N01, R01 and R02), and the writer of the input files.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in ids:
    if p in props.CHECKS:
        kind = "vm" if p[0] in "SDET" else "fn"
        checks.append({"property": p, "quick_cmd": "python3 checks/run.py " + p,
                       "thorough_cmd": "python3 checks/run.py %s --thorough" % p,
                       "technique": TRACE, "level": "model_checking",
                       "level_note": getattr(props, "NOTE", {}).get(p, NOTE[kind])})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 checks/setup.py",
     "hooks": {"guard": "cfg burn_verif", "enable": "BURN_VERIF_DRIVER=/verif/build/driver_codec.rs cargo rustc --bin burn_fm --target-dir /verif/build/target --offline --locked -- --cfg burn_verif (see checks/core.py build)", "source_commits": hook},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in ids if p not in props.CHECKS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
