#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N]
       check.py --replay FILE

Exit 0: the property held on everything observed. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken. Anything else: the
check itself failed (build error, too little observed, unexplained crash).
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MON = os.path.join(VERIF, "mon")
BRIDGE = os.path.join(MON, "bridge")
KNOWN = os.path.join(VERIF, "known_findings.json")
LIBFRAME = "github.com/proximax-storage/go-xpx-crypto."

# phases of a property: (build mode, extra arguments of the binary)
PHASES = {
    "C18": [("plain", []), ("overflow", [])],
    "C19": [("plain", []), ("overflow", [])],
    "C20": [("race", []), ("yield", [])],
    "C25": [("trace", [])],
}
# what a check may take, in seconds (a watchdog), and after what time its
# phases start no further cases (normal runs stay far below)
LIMIT = {"quick": 870, "thorough": 6 * 3600}
BUDGET = {"quick": 660, "thorough": 5 * 3600}
START = time.time()


def env():
    e = dict(os.environ)
    e.update(GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly",
             GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off", GO111MODULE="on", GOWORK="off")
    e.pop("GODEBUG", None)
    if not e.get("HOME"):
        e["HOME"] = "/root"
    return e


class Broken(Exception):
    """The check could not be carried out."""


def run(cmd, cwd, e, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def sources():
    return sorted(f for f in os.listdir(REPO) if f.endswith(".go") and not f.endswith("_test.go"))


def build(mode, work):
    """Builds the monitor binary with the library of /repo; returns its path
    and the list of bridges the tree does not support."""
    e = env()
    if mode == "race":
        e["CGO_ENABLED"] = "1"
    cache = e.get("GOCACHE") or os.path.join(e["HOME"], ".cache", "go-build")
    try:
        os.makedirs(cache, exist_ok=True)
        with tempfile.TemporaryFile(dir=cache):
            pass
    except OSError:
        e["GOCACHE"] = os.path.join(work, "gocache")
    modfile = os.path.join(work, "go.mod")
    if REPO == "/repo":
        modarg = []
    else:  # scratch copies during development
        with open(os.path.join(MON, "go.mod")) as f:
            t = f.read().replace("=> /repo", "=> " + REPO)
        with open(modfile, "w") as f:
            f.write(t)
        shutil.copy(os.path.join(MON, "go.sum"), os.path.join(work, "go.sum"))
        modarg = ["-modfile", modfile]
    repl = {}
    bridges = sorted(f[:-3] for f in os.listdir(BRIDGE) if f.endswith(".go"))
    notes = []
    if mode in ("overflow", "trace", "yield"):
        inst = os.path.join(work, "inst")
        os.makedirs(inst)
        rc, out = run(["go", "run"] + modarg + ["./instr", "-mode", mode, "-src", REPO, "-out", inst] + modarg, MON, e)
        if rc != 0:
            raise Broken("instrumenting failed:\n" + out[-3000:])
        for f in sorted(os.listdir(inst)):
            if f.endswith(".go"):
                repl[os.path.join(REPO, f)] = os.path.join(inst, f)
        big = os.path.join(inst, "big")
        if os.path.isdir(big):
            with open(os.path.join(big, "dir")) as f:
                d = f.read()
            for f in sorted(os.listdir(big)):
                if f.endswith(".go"):
                    repl[os.path.join(d, f)] = os.path.join(big, f)
    out_bin = os.path.join(work, "verifmon-" + mode)
    dropped = []
    for _ in range(len(bridges) + 2):
        rep = dict(repl)
        for b in bridges:
            rep[os.path.join(REPO, "zz_verif_%s.go" % b)] = os.path.join(BRIDGE, b + ".go")
        ov = os.path.join(work, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        cmd = ["go", "build"] + modarg + ["-overlay", ov, "-gcflags=github.com/proximax-storage/go-xpx-crypto=-e", "-o", out_bin]
        if mode == "race":
            # the old sha3 package converts pointers in a way that checkptr refuses
            cmd += ["-race", "-gcflags=golang.org/x/crypto/...=-d=checkptr=0"]
        rc, out = run(cmd + ["."], MON, e)
        if rc == 0:
            return out_bin, dropped, notes
        # errors name the file behind the overlay or the one it stands for
        bad = sorted(set(re.findall(r"(?:zz_verif_|bridge/)(\w+)\.go:\d+", out)))
        bad = [b for b in bad if b in bridges and b != "reg"]
        if not bad:
            raise Broken("build failed:\n" + out[-4000:])
        for b in bad:
            bridges.remove(b)
            dropped.append(b)
    raise Broken("build failed")


def dictionary(work):
    """The constants of the library's sources, for the generators."""
    path = os.path.join(work, "dict.json")
    modfile = os.path.join(work, "go.mod")
    modarg = ["-modfile", modfile] if os.path.exists(modfile) else []
    rc, out = run(["go", "run"] + modarg + ["./instr", "-mode", "dict", "-src", REPO, "-out", path] + modarg, MON, env())
    if rc != 0:
        print("note: no dictionary: %s" % out[-500:])
    return path


def can_instrument(mode, work):
    w = tempfile.mkdtemp(dir=work)
    try:
        build(mode, w)
        return True
    except Broken as ex:
        print("note: %s" % str(ex)[-800:])
        return False


def races(logdir):
    """Race reports, deduplicated by their library frames (without lines)."""
    found = {}
    for f in sorted(os.listdir(logdir)):
        if not f.startswith("race."):
            continue
        with open(os.path.join(logdir, f), errors="replace") as fh:
            text = fh.read()
        for blk in text.split("=================="):
            if "DATA RACE" not in blk:
                continue
            frames = []
            for part in re.split(r"\n\n", blk):
                m = re.search(r"^  (github\.com/proximax-storage/go-xpx-crypto\.\S+)\(", part, re.M)
                if m and re.search(r"(?:Read|Write|read|write) at", part):
                    frames.append(m.group(1))
            # both accesses on a stack with library code; a race inside the harness is no finding
            lib = LIBFRAME in blk
            found.setdefault((lib, tuple(sorted(frames))), blk.strip())
    return found


def phase(prop, mode, args, tier, seed, work, fam=None, idx=None, left=1):
    t0 = time.time()
    binp, dropped, notes = build(mode, work)
    build_s = time.time() - t0
    rep_path = os.path.join(work, "report-%s.json" % mode)
    e = env()
    e["VERIF_DICT"] = dictionary(work)
    logdir = tempfile.mkdtemp(dir=work)
    if mode == "race":
        e["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2 log_path=%s" % os.path.join(logdir, "race")
    e["GOTRACEBACK"] = "all"
    e["VERIF_MODE"] = mode
    e["VERIF_BUDGET"] = "%.1f" % max(20, (BUDGET[tier] - (time.time() - START)) / left)
    e.setdefault("GOMEMLIMIT", "12GiB")
    e.setdefault("GOGC", "1000")  # small heaps: collecting all the time costs a third of the run
    cmd = [binp, "-prop", prop, "-seed", str(seed), "-out", rep_path] + args
    if tier == "thorough":
        cmd.append("-thorough")
    if fam:
        cmd += ["-fam", fam]
        if idx is not None:
            cmd += ["-idx", str(idx)]
    errf = os.path.join(work, "stderr-%s" % mode)
    with open(errf, "wb") as ef:
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.DEVNULL, stderr=ef, timeout=max(60, LIMIT[tier] - (time.time() - START)))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise Broken("%s phase did not end in time" % mode)
    with open(errf, errors="replace") as fh:
        err = fh.read()
    rep = None
    if rc in (0, 1) and os.path.exists(rep_path):
        with open(rep_path) as fh:
            rep = json.load(fh)
    if rep is None:
        rep = {"evaluations": 0, "distinct": 0, "rule": "", "samples": [], "classes": {}, "families": {}, "violations": None}
        lib = LIBFRAME in err
        m = re.search(r"^(VERIF-STUCK.*|fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|SIG\w+: .*|unexpected fault address.*)$", err, re.M)
        if m and lib:
            rep["violations"] = [{"family": "process", "index": 0, "key": "crash", "message": m.group(1) + "\n" + err[max(0, m.start()):][:3000]}]
        else:
            raise Broken("%s phase ended with %d:\n%s" % (mode, rc, err[-3000:]))
    rep["violations"] = rep["violations"] or []
    nrace = 0
    if mode == "race":
        for (lib, frames), blk in races(logdir).items():
            nrace += 1
            if lib:
                rep["violations"].append({"family": "race-detector", "index": 0, "key": "race " + " / ".join(frames), "message": blk[:4000]})
            else:
                raise Broken("data race in the harness:\n" + blk[:3000])
        rep["classes"]["race-reports"] = nrace
    rep["mode"], rep["dropped"], rep["build_s"] = mode, dropped, round(build_s, 1)
    return rep


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    only = None
    if a.replay:
        with open(a.replay) as f:
            only = json.load(f)
        a.prop, a.seed, a.tier = only["property"], only["seed"], only["tier"]
    prop = a.prop
    phases = PHASES.get(prop, [("plain", [])])
    if only:
        phases = [p for p in phases if p[0] == only["mode"]]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    reps = []
    try:
        for n, (mode, args) in enumerate(phases):
            if mode in ("overflow", "yield") and reps and not can_instrument(mode, work):
                print("note: the %s build cannot be made for this tree, phase %s" % (mode, "skipped" if mode == "overflow" else "run without it"))
                if mode == "overflow":
                    continue
                mode = "plain"
            fam = idx = None
            if only and only["family"] not in ("process", "race-detector", "after"):
                fam, idx = only["family"], only["index"]
            r = phase(prop, mode, args, a.tier, a.seed, work, fam, idx, left=len(phases) - n)
            if only and fam and not r["violations"]:
                # the single case needs the history before it: run everything
                r = phase(prop, mode, args, a.tier, a.seed, work)
            reps.append(r)
            if r["violations"]:
                break
    except Broken as ex:
        print("CHECK-ERROR property=%s %s" % (prop, ex), file=sys.stderr)
        return 3
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    known = {(k["property"], k["key"]): k for k in load_known() if k.get("status") == "known"}
    viol, seen = [], {}
    for r in reps:
        for v in r["violations"]:
            v["mode"] = r["mode"]
            k = known.get((prop, v["key"]))
            if k:
                seen[v["key"]] = k
            else:
                viol.append(v)
    for key, k in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    missing = [m for r in reps for m in (r.get("missing") or [])]
    skipped = sorted(set(s for r in reps for s in (r.get("skipped") or [])))
    dropped = sorted(set(s for r in reps for s in r["dropped"]))
    if not a.replay:
        write_evidence(prop, a, reps, viol, seen, missing, skipped, dropped, time.time() - t0)
    for r in reps:
        print("%s %s: %d evaluations, %d distinct, %d classes, build %.1f s, run %.1f s" % (
            prop, r["mode"], r["evaluations"], r["distinct"], len(r["classes"]), r["build_s"], r.get("wall", 0)))
    for s in skipped:
        print("note: family skipped, %s" % s)
    for r in reps:
        for s in r.get("cut") or []:
            print("note: %s out of time, family %s" % (r["mode"], s))
    if viol:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for v in viol[:5]:
            path = os.path.join(rd, "%s-%s-%s-%d.json" % (prop, v["mode"], re.sub(r"\W+", "_", v["family"]), v["index"]))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": a.seed, "tier": a.tier, **v}, f, indent=1)
            if path in done:
                continue
            done.add(path)
            print("-- %s/%d %s\n%s" % (v["family"], v["index"], v["key"], v["message"][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if missing and not only:
        print("CHECK-ERROR property=%s observed too little:\n%s" % (prop, "\n".join(missing)), file=sys.stderr)
        return 3
    return 0


def write_evidence(prop, a, reps, viol, seen, missing, skipped, dropped, wall):
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed,
        "level": "fault_enumeration" if prop in ("C07", "C11") else "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in reps),
            "distinct_nontrivial": sum(r["distinct"] for r in reps),
            "rule": reps[0]["rule"],
            "samples": [s for r in reps for s in (r["samples"] or [])][:16],
            "observed": {(r["mode"] + ":" + k): v for r in reps for k, v in sorted(r["classes"].items())},
            "families": {(r["mode"] + ":" + k): v for r in reps for k, v in sorted(r["families"].items())},
            "builds": [{"mode": r["mode"], "build_s": r["build_s"], "run_s": round(r.get("wall", 0), 1)} for r in reps],
            "families_skipped": skipped, "families_cut_short": [r["mode"] + ":" + c for r in reps for c in (r.get("cut") or [])], "bridges_dropped": dropped, "too_little_observed": missing,
        },
        "assumptions": [
            "the reference (Go standard library curve arithmetic and SHA-3, own Keccak and RIPEMD-160, crypto/aes) is right; it is self-tested against big-integer formulas and published digests at every start",
            "held on the executions listed here; nothing is claimed about inputs, schedules and histories that were not run",
        ],
        "wall_s": round(wall, 1),
        "violations": len(viol),
    }
    if seen:
        ev["coverage"]["known_findings"] = sorted(seen)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
