#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of monitors."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C07": "fault injection at every read of the random source, offline check of the read log",
 "C11": "token ledger over the random source (exactly-once, conservation), faults at every read",
 "C18": "online oracle (big-integer arithmetic and limb bounds) plus int64 overflow sanitizer (instrumented build)",
 "C19": "online oracle (big-integer arithmetic) plus int64 overflow sanitizer (instrumented build)",
 "C20": "Go race detector plus reference results under concurrent stress",
 "C21": "canaries around arguments, frozen results, deep fingerprints of package state",
 "C24": "recording and failing engines, offline check of the call log",
 "C25": "execution-trace monitor (block counters in an instrumented build), traces compared between keys",
 "C27": "heap and goroutine accounting after collections over stages of equal work; allocation and processor time over a ladder of input sizes",
 "C26": "long random histories replayed against a stateless reference",
 "C28": "search for known secrets in all notations in errors, panics, captured output and results with their spare capacity",
}
DEF = "runtime monitoring: real code under generated and hostile workloads, online reference oracle"
NOTE = "Held on every execution observed (counts, classes and samples in the evidence file). Trusts the reference implementation (Go standard library curve arithmetic and SHA-3, own Keccak/RIPEMD-160/CBC), which is self-tested at every start, and the Go toolchain; nothing is claimed about inputs or schedules that were not run."
XN = {
 "C20": " A schedule that was not exercised can still race; the detector reports only races between accesses that were executed.",
 "C25": " Decides control flow at the granularity of source blocks and short-circuit operands of the library (not of the standard library or of the compiled code), and table indices at source level; timing of instructions is not observed.",
 "C07": " The quick tier enumerates every fault position of one generation for every fault kind.",
 "C11": " The quick tier enumerates every fault position of one encryption for every fault kind.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set()
for f in os.listdir(os.path.join(V, "mon")):
    if f.endswith(".go"):
        have |= set(re.findall(r'ID:\s*"(C\d\d)"', open(os.path.join(V, "mon", f)).read()))
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none in /repo: bridge files and instrumented copies are added by 'go build -overlay' only", "enable": "check.py builds /verif/mon with -overlay (files of mon/bridge as /repo/zz_verif_*.go, instrumented copies for the overflow, trace and yield builds)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": TECH.get(i, DEF), "level": "fault_enumeration" if i in ("C07", "C11") else "exploration",
            "level_note": NOTE + XN.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": "no monitor built yet"})
m["notes"] = "replays go to /verif/replays (ignored by git); python3 check.py --replay FILE runs one again."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
