#!/usr/bin/env python3
"""Decide one property:  python3 check.py C01            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
Replay a counterexample:  python3 check.py C01 --replay evidence/replay/C01-1.json
Setup (parse every spec): python3 check.py --setup

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" or (os.path.exists(PY) and sys.prefix != "/opt/venv"):
    os.environ["PYTHONHASHSEED"] = "0"
    exe = PY if os.path.exists(PY) else sys.executable
    os.execv(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:])

import time

sys.path.insert(0, os.path.join(VERIF, "harness"))
import registry
import tlc
import tracecheck

EVID = os.path.join(VERIF, "evidence")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def last_events(rej, n=12):
    ev, at = rej["trace"]["ev"], rej["at"]
    return ev[max(0, at - n):at + 1]


def write_replay(prop, n, rej):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(p, "w") as f:
        json.dump({"property": prop, "driver": rej["driver"], "func": rej["func"],
                   "params": rej["params"], "spec": rej["spec"], "seed": rej["trace"]["seed"],
                   "cfg": rej["trace"]["cfg"], "rejected_event": rej["at"], "clause": rej["clause"],
                   "leading_events": last_events(rej, 40), "trace": rej["trace"]["ev"]}, f, indent=1)
    return os.path.relpath(p, VERIF)


def is_known(prop, rej, known):
    for k in known:
        if k.get("property") != prop or k.get("status") != "open":
            continue
        m = k["match"]
        ev = rej["trace"]["ev"]
        at = ev[min(rej["at"], len(ev)) - 1]
        if m["spec"] == rej["spec"] and m["func"] == rej["func"] and m["clause"] == rej["clause"] and \
                all(at.get(f) == v for f, v in m["event"].items()):
            return k
    return None


def run_mc(step, tier, st):
    # the thorough tier checks the larger model as well as the quick one
    run_mc1(step, step["cfg"], tier, st)
    if tier == "thorough" and step.get("thorough_cfg"):
        run_mc1(step, step["thorough_cfg"], tier, st)


def run_mc1(step, cfg, tier, st):
    r = tlc.run(step["module"], cfg, workers=8, heap="12g",
                timeout=step.get("timeout", 250) if tier == "quick" else 3000,
                extra=("-coverage", "1"))
    if not r.ok:
        i = r.out.find("Error")
        raise RuntimeError("model checking of %s (%s) failed: %s" % (step["module"], cfg, r.out[i:i + 1500]))
    cov = r.coverage()
    dead = [a for a, (d, g) in cov.items() if g == 0 and a != "Init" and a not in step.get("unused", ())]
    if dead and cfg == step["cfg"]:
        raise RuntimeError("%s: actions never taken: %s" % (step["module"], dead))
    st["states"] += r.distinct
    st["transitions"] += r.generated
    st["models"].append({"module": step["module"], "cfg": cfg, "distinct_states": r.distinct,
                         "transitions": r.generated, "actions": {a: g for a, (d, g) in cov.items()}})


def run_traces(step, tier, seed, st):
    n = step["thorough"] if tier == "thorough" else step["quick"]
    base = seed * 1000003 + step.get("offset", 0)
    batch = step.get("batch", 4000)
    done = 0
    rejects = []
    while done < n and not rejects:
        k = min(batch, n - done)
        a = tracecheck.run(step["driver"], step["func"], step["spec"],
                           range(base + done, base + done + k), step["params"],
                           cfg=step.get("cfg"), dfs=True)
        done += k
        for r in a["rejects"]:
            r["spec"] = step["spec"]
            r["cfgfile"] = step.get("cfg")
        rejects += a["rejects"]
        st["traces"] += a["traces"]
        st["events"] += a["events"]
        st["states"] += a["distinct"]
        st["transitions"] += a["states"]
        st["undecided"] += a["undecided"]
        for key, v in a["stats"].items():
            st["stats"][key] = st["stats"].get(key, 0) + v
        if a["samples"] and len(st["samples"]) < 4:
            st["samples"].append({"driver": step["driver"] + "." + step["func"], "spec": step["spec"],
                                  **a["samples"][0]})
        if a["errors"] and not rejects:
            raise RuntimeError(a["errors"][0])
    out = []
    for r in rejects:
        if r["trace"]["ev"] and r["trace"]["ev"][-1]["k"] == "hang":
            # depends on real time: must happen again
            again = tracecheck.run(r["driver"], r["func"], r["spec"], [r["trace"]["seed"]],
                                   r["params"], cfg=r.get("cfgfile"), procs=1)
            if not again["rejects"]:
                continue
        out.append(r)
    # the replayed graph of a model counts too
    return out


def run_graph(step, tier, seed, st):
    import graph
    g = graph.run(step, tier, seed)
    st["states"] += g["states"] + g["judged_distinct"]
    st["transitions"] += g["edges"] + g["judged"]
    st["traces"] += g["traces"]
    st["events"] += g["events"]
    st["undecided"] += g["undecided"]
    st["models"].append({"module": step["module"], "states": g["states"], "transitions": g["edges"],
                         "scripts": g["all_scripts"], "scripts_executed": g["scripts"],
                         "transitions_executed": g["edges_replayed"]})
    if g["sample"] and len(st["samples"]) < 5:
        st["samples"].append(g["sample"])
    return g["rejects"]


def replay(prop, path):
    d = json.load(open(path))
    a = tracecheck.run(d["driver"], d["func"], d["spec"], [d["seed"]], d["params"], procs=1, dfs=True)
    for e in a["errors"]:
        print(e)
    for r in a["rejects"]:
        print("rejected at event %d %s" % (r["at"], r["clause"]))
        for e in last_events(r, 30):
            print("   ", json.dumps(e))
    print("reproduced" if a["rejects"] else "not reproduced")
    return 1 if a["rejects"] else 0


def main():
    if sys.argv[1] == "--setup":
        return registry.setup()
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    st = {"states": 0, "transitions": 0, "traces": 0, "events": 0, "undecided": 0, "samples": [],
          "models": [], "stats": {}}
    rejects, error = [], None
    known = load_known()
    for step in registry.CHECKS[prop]:
        try:
            if step["kind"] == "mc":
                run_mc(step, tier, st)
            elif step["kind"] == "graph":
                rejects += run_graph(step, tier, seed, st)
            else:
                rejects += run_traces(step, tier, seed, st)
        except Exception as e:  # keep going: another step may still decide
            import traceback
            error = error or (step, traceback.format_exc())
        if any(not is_known(prop, r, known) for r in rejects):
            break
    fresh, seen_known = [], {}
    for r in rejects:
        k = is_known(prop, r, known)
        if k:
            seen_known[k["id"]] = k
        else:
            fresh.append(r)
    for k in known:
        if k.get("property") == prop and k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": st["states"], "transitions": st["transitions"],
                       "traces_validated_against_impl": st["traces"] - len(rejects),
                       "samples": st["samples"], "trace_events": st["events"],
                       "traces_undecided_within_budget": st["undecided"],
                       "models": st["models"], "what_the_traces_did": st["stats"]},
          "assumptions": registry.ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        fresh.sort(key=lambda r: r["at"])
        paths = [write_replay(prop, i + 1, r) for i, r in enumerate(fresh[:3])]
        r = fresh[0]
        print("%d of %d traces rejected; first: %s.%s seed %s, event %d %s" %
              (len(fresh), st["traces"], r["driver"], r["func"], r["trace"]["seed"], r["at"], r["clause"]))
        for e in last_events(r):
            print("   ", json.dumps(e)[:400])
        print("VIOLATION property=%s replay=%s" % (prop, paths[0]))
        return 1
    if error:
        print("check error in %s:\n%s" % (error[0], error[1][-4000:]))
        return 2
    print("property=%s held: %d model states, %d transitions, %d traces (%d events) validated, %.1fs" %
          (prop, st["states"], st["transitions"], st["traces"], st["events"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
