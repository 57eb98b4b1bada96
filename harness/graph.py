"""Scripts from the model: TLC walks a generator spec's state graph and prints, for every
transition, the shortest script ending with it; the driver executes each against the real code
(once settling after every call, once issuing calls back to back) and the trace spec judges."""
import json
import os
import random
import tempfile

import tlc
import tracecheck

_loaded = {}


def pick(seed, path, ops, flow):
    """What the driver has to execute."""
    if ops is not None:
        return ops, flow
    if path not in _loaded:
        with open(path) as f:
            _loaded[path] = json.load(f)
    l = _loaded[path]
    return l[seed // 2], seed % 2


def scripts(module, cfg, timeout=600):
    r = tlc.run(module, cfg, workers=1, heap="6g", timeout=timeout)
    if not r.ok:
        raise RuntimeError("exploring %s (%s) failed: %s" % (module, cfg, r.out[r.out.find("Error"):][:1500]))
    l = [tuple(json.dumps(o, sort_keys=True) for o in s) for s in tlc.unquote_prints(r.out, "SCRIPT")]
    # a script that goes on with another one covers it
    inner = {s[:-1] for s in l}
    full = sorted(set(l) - inner)
    return r, len(set(l)), [[json.loads(o) for o in s] for s in full]


def run(step, tier, seed):
    cfg = step["thorough_cfg"] if tier == "thorough" and step.get("thorough_cfg") else step["cfg"]
    r, edges, l = scripts(step["module"], cfg, 2000 if tier == "thorough" else 600)
    n = step["thorough"] if tier == "thorough" else step["quick"]
    chosen = l if n >= len(l) else random.Random(seed).sample(l, n)
    covered = set()
    for s in chosen:
        t = tuple(json.dumps(o, sort_keys=True) for o in s)
        covered.update(hash(t[:i]) for i in range(1, len(t) + 1))
    fd, path = tempfile.mkstemp(prefix="scripts", suffix=".json")
    os.close(fd)
    out = {"states": r.distinct, "edges": edges, "scripts": len(chosen), "all_scripts": len(l),
           "edges_replayed": len(covered), "rejects": [], "errors": [], "events": 0, "traces": 0,
           "judged": 0, "judged_distinct": 0, "undecided": 0, "sample": None}
    try:
        with open(path, "w") as f:
            json.dump(chosen, f)
        todo, batch = 2 * len(chosen), 8000
        for i in range(0, todo, batch):
            a = tracecheck.run(step["driver"], step["func"], step["spec"], range(i, min(i + batch, todo)),
                               dict(step["params"], path=path), cfg=step.get("tcfg"), dfs=True, heap="2g")
            for x in a["rejects"]:
                sd = x["trace"]["seed"]
                x["params"] = dict(step["params"], ops=chosen[sd // 2], flow=sd % 2)
                x["spec"] = step["spec"]
            out["rejects"] += a["rejects"]
            out["traces"] += a["traces"]
            out["events"] += a["events"]
            out["judged"] += a["states"]
            out["judged_distinct"] += a["distinct"]
            out["undecided"] += a["undecided"]
            if a["samples"] and not out["sample"]:
                out["sample"] = {"driver": step["driver"] + "." + step["func"], "spec": step["spec"], **a["samples"][0]}
            if a["errors"] and not out["rejects"]:
                raise RuntimeError(a["errors"][0])
            if out["rejects"]:
                break
    finally:
        os.unlink(path)
    return out


def play(loop, rec, rng, ops, flow, do, look, waiting):
    """Execute a script: do(call) makes a call; waiting: tasks of blocked calls, oldest first."""
    for c in ops:
        if c["op"] == "cancel":
            waiting[:] = [t for t in waiting if not t.done()]
            if len(waiting) >= c["i"]:
                waiting[c["i"] - 1].cancel()
        else:
            do(c)
        if flow == 0:
            look()
        else:
            loop.ticks(rng.choice([0, 0, 1, 2]))
    look()
