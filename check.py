#!/usr/bin/env python3
"""Builds the simulation from /repo's working tree, searches, gates, reports.

usage: check.py PROPERTY [--tier quick|thorough]     decide one property
       check.py --replay FILE                        re-run a recorded execution
       check.py --selftest PROPERTY [N]              same seeds twice, with 1 and 8 workers
"""
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KORIN_REPO", "/repo")

# property -> (scenario sources, runs quick, runs thorough)
PROPS = json.load(open(os.path.join(HERE, "props.json")))

REAL = "all korin code under src/korin/core that the property's scenarios call (headers and library sources compiled from /repo's working tree, debug flags of its own build)"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(prop):
    out = os.path.join(HERE, "build", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    r = sh([os.path.join(HERE, "build.sh"), out] + PROPS[prop]["sources"])
    if r.returncode:
        print(r.stdout[-4000:])
        print("ERROR: the simulation does not build against", REPO)
        sys.exit(2)
    return os.path.join(out, "sim")


def parse(text):
    d = {"pcs": [], "counters": {}}
    msg = []
    inmsg = False
    for line in text.splitlines():
        k, _, v = line.partition(" ")
        if k == "message":
            msg.append(v); inmsg = True
        elif k == "pc":
            d["pcs"].append(v); inmsg = False
        elif k in ("status", "class", "hash", "state", "steps", "switches"):
            d[k] = v; inmsg = False
        elif k == "counter":
            n, _, c = v.partition(" "); d["counters"][n] = int(c); inmsg = False
        elif inmsg:
            msg.append(line)
    d["message"] = "\n".join(msg)
    return d


def replay(sim, trace):
    r = sh([sim, "--replay", trace])
    d = parse(r.stdout)
    d["rc"] = r.returncode
    return d


def symbolise(sim, pcs):
    if not pcs:
        return []
    r = sh(["addr2line", "-Cfe", sim] + [hex(int(p, 16) - 1) for p in pcs])
    lines = r.stdout.splitlines()
    out = []
    for i in range(0, len(lines) - 1, 2):
        loc = lines[i + 1].replace(REPO + "/", "")
        if "/sim/" in loc or loc.startswith("??"):
            continue
        out.append("%s at %s" % (lines[i][:110], loc))
    return out


def known_entries(prop):
    """known-findings.txt: 'known: property=ID class=CLASS trace=FILE | text' and 'fixed: ...' lines."""
    res = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) trace=(\S+) \| (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), os.path.join(HERE, m.group(3)), m.group(4)))
    return res


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); sys.exit(2)
    if a[0] == "--replay":
        prop = None
        for line in open(a[1]):
            if line.startswith("property "):
                prop = line.split()[1]
        sim = build(prop)
        d = replay(sim, a[1])
        print("status %s class %s hash %s" % (d.get("status"), d.get("class"), d.get("hash")))
        print(d["message"])
        for s in symbolise(sim, d["pcs"]):
            print("    in", s)
        sys.exit(1 if d["rc"] == 1 else 0 if d["rc"] == 0 else 2)
    if a[0] == "--selftest":
        prop = a[1]; n = a[2] if len(a) > 2 else "2000"
        sim = build(prop)
        sums = []
        for w in ("1", "8", "3"):
            out = os.path.join(HERE, "out", "selftest-%s-%s" % (prop, w))
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            r = sh([sim, "--property", prop, "--seed", "7", "--runs", n, "--workers", w, "--recheck", "1", "--out", out])
            s = json.load(open(out + "/summary.json"))
            sums.append({k: s[k] for k in ("runs", "steps", "switches", "distinct_executions", "distinct_interleavings", "distinct_results", "counters", "errors", "violation")})
            print(w, "workers:", r.returncode, {k: sums[-1][k] for k in ("runs", "steps", "errors", "distinct_executions")}, s["error"])
        ok = all(s == sums[0] for s in sums) and not sums[0]["errors"]
        print("deterministic" if ok else "NOT deterministic")
        sys.exit(0 if ok else 1)

    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    t0 = time.time()
    sim = build(prop)
    build_s = time.time() - t0
    out = os.path.join(HERE, "out", "%s-%s" % (prop, tier))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)

    # findings already on record: still there?
    known_seen = 0
    for cls, trace, text in known_entries(prop):
        d = replay(sim, trace)
        if d["rc"] == 1 and d["class"] == cls:
            known_seen += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, text))

    workers = min(8, len(os.sched_getaffinity(0)) or 1)
    runs = P[tier]
    cap = "300" if tier == "quick" else "780"
    cmd = [sim, "--property", prop, "--seed", str(seed), "--runs", str(runs), "--workers", str(workers), "--seconds", cap, "--out", out]
    if tier == "thorough":
        cmd.append("--thorough")
    r = sh(cmd)
    if not os.path.exists(out + "/summary.json"):
        print(r.stdout[-3000:]); print("ERROR: the search gave no result"); sys.exit(2)
    s = json.load(open(out + "/summary.json"))
    viol = s["violation"]
    rc = 0
    if viol:
        trace = viol["trace"]
        # gate: the same execution again, twice, in fresh processes
        d1, d2 = replay(sim, trace), replay(sim, trace)
        same = viol["repeatable"] and d1["rc"] == 1 and d2["rc"] == 1 and d1["class"] == d2["class"] == viol["class"] and d1["hash"] == d2["hash"]
        if not same:
            print("ERROR: a violation did not repeat exactly (%s, %s)" % (trace, viol["message"]))
            rc = 2
        else:
            rc = 1
            print("%s: %s" % (viol["class"], viol["message"]))
            with open(trace, "a") as f:
                for x in symbolise(sim, viol["pcs"]):
                    print("    in", x)
                    f.write("message     in %s\n" % x)
            print("VIOLATION property=%s replay=%s" % (prop, trace))
    elif s["errors"]:
        print("ERROR: %s" % s["error"])
        rc = 2
    wall = time.time() - t0
    sw = max(s["search_wall"], 1e-3)
    faults = {k[6:]: {"times": v, "runs": s["runs_with"].get(k, 0)} for k, v in s["counters"].items() if k.startswith("fault.")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "evaluations": s["runs"],
            "distinct_nontrivial": s["distinct_executions"],
            "rule": "One evaluation is one simulated run of the real code under a plan (operations, configuration, faults) drawn from the seed, its schedule drawn as it goes. Two runs are distinct if the hash over every memory access, atomic value, allocation and address of the run differs; a run that executes no simulated step of korin code leaves that hash empty and adds nothing. " + P["rule"],
            "samples": s["samples"],
            "runs_per_hour": round(s["runs"] / sw * 3600),
            "seeds_per_hour": round(s["runs"] / sw * 3600),
            "search_seconds": round(sw, 2),
            "build_seconds": round(build_s, 2),
            "simulated_time_steps": s["steps"],
            "context_switches": s["switches"],
            "distinct_interleavings": s["distinct_interleavings"],
            "distinct_result_states": s["distinct_results"],
            "measure": "simulated time is counted in simulated steps (memory accesses and system calls of the code under test; korin has no clock). distinct_interleavings: distinct (context switch sequence, results) pairs among runs with at least one switch. distinct_result_states: distinct hashes of everything the operations returned.",
            "fault_kinds": faults,
            "runs_with_faults": s["fault_runs"],
            "probes": {k: v for k, v in s["counters"].items() if not k.startswith("fault.")},
            "scenario_runs": s["scenarios"],
            "runs_rechecked_for_repeatability": s["rechecked"],
            "truncated_decision_logs": s["overflow"],
            "workers": workers,
            "real_components": [REAL] + P.get("real", []),
            "stub_components": ["system heap (posix_memalign, malloc, realloc, free, new, delete): simulated", "thread scheduler, mutexes, one-time initialisation guards: simulated", "C library memory and string functions: real, with every range checked first", "printing: dropped"] + P.get("stub", []),
            "known_findings_seen": known_seen,
        },
        "assumptions": P["assumptions"],
        "wall_s": round(wall, 2),
        "violations": 1 if rc == 1 else 0,
    }
    if viol:
        ev["coverage"]["violation"] = {k: viol[k] for k in ("run", "class", "message", "trace")}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct, %d interleavings), %d steps, faults %s, %.1f s" % (prop, tier, s["runs"], s["distinct_executions"], s["distinct_interleavings"], s["steps"], {k: v["times"] for k, v in faults.items()}, wall))
    shutil.rmtree(os.path.join(HERE, "build", prop), ignore_errors=True)
    sys.exit(rc)


main()
