"""Generate traces from the real code in parallel and have TLC judge them."""
import json
import multiprocessing
import os
import re
import sys
import tempfile
import time
import traceback

import tlc

REPO = os.environ.get("VERIF_REPO", "/repo")
UNIT = 1024  # trace time unit: 1/1024 s


class Rec:
    """Event recorder bound to a virtual loop."""

    def __init__(self, loop):
        self.loop = loop
        self.ev = []
        self.n = 0

    def t(self):
        return int(round(self.loop._vnow * UNIT))

    def __call__(self, k, **kw):
        e = {"k": k, "t": self.t()}
        e.update(kw)
        if len(self.ev) < 60000 or k in ("hang", "spin"):
            self.ev.append(e)
        return e

    def new_id(self):
        self.n += 1
        return self.n

    async def call(self, op, thunk, mapres=None, on_ret=None, **kw):
        """Record an API call made from this task."""
        import asyncio
        id_ = self.new_id()
        self("call", id=id_, op=op, **kw)
        try:
            r = thunk()
            if asyncio.iscoroutine(r) or hasattr(r, "__await__"):
                r = await r
            r = mapres(r) if mapres else "ok"
        except asyncio.CancelledError:
            self("cancel", id=id_)
            raise
        except Exception as e:
            self("ret", id=id_, r=exc_name(e))
            return None
        self("ret", id=id_, r=r)
        if on_ret:
            on_ret(r)
        return r


def exc_name(e):
    return "EXC:" + type(e).__name__


def _import(mod):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    return __import__(mod)


def clean(x):
    """TLC's JSON reader knows no null: make it a value that no specification allows."""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return "?None" if x is None else x


def _rejects(out, traces, driver, func, params):
    return [dict(trace=traces[int(m.group(1)) - 1], at=int(m.group(2)), clause=m.group(3) or "",
                 driver=driver, func=func, params=params)
            for m in re.finditer(r'<<"REJECT", (\d+), (\d+)(?:, "([^"]*)")?>>', out)]


_STUCK = {}   # per worker process: how often a driver's scenarios hung or spun


def _worker(args):
    (driver, func, spec, cfg, seeds, params, tlc_timeout, dfs, heap) = args
    import vloop
    t0 = vloop.REAL_TIME()
    vloop.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    d = _import(driver)
    traces, early = [], []
    me = (driver, func)
    for sd in seeds:
        if _STUCK.get(me, 0) >= 40:   # it hangs or spins again and again: that is the answer
            break
        try:
            tr = getattr(d, func)(sd, **params)
        except vloop.Hang:
            _STUCK[me] = _STUCK.get(me, 0) + 20
            early.append(dict(trace={"cfg": {}, "ev": [{"k": "hang", "t": 0}], "seed": sd}, at=1,
                              clause="never gives control back", driver=driver, func=func,
                              params=params))
            continue
        except Exception as e:
            # Neither the code under test nor its users (the driver) raise on a tree where it
            # keeps its interface: it raised where no call may, or gave back what cannot be used
            if not isinstance(e, (ImportError, MemoryError)):
                tr = {"cfg": {}, "ev": [{"k": "crash", "t": 0, "exc": traceback.format_exc()[-1500:]}],
                      "seed": sd}
                early.append(dict(trace=tr, at=1, clause="raised " + repr(e)[:80], driver=driver,
                                  func=func, params=params))
                continue
            return {"error": "driver %s.%s seed %s\n%s" % (driver, func, sd, traceback.format_exc())}
        if tr is None:
            continue
        for one in (tr if isinstance(tr, list) else [tr]):
            one["seed"] = sd
            one.setdefault("cfg", {"x": 0})
            last = {e["k"] for e in one["ev"][-2:]}
            if len(one["ev"]) > 3000 and last & {"hang", "spin"}:
                one["ev"] = one["ev"][:3000] + one["ev"][-1:]   # the rest is more of the same
            _STUCK[me] = _STUCK.get(me, 0) + (20 if "hang" in last else 4 if "spin" in last else 0)
            traces.append(one)
    t1 = vloop.REAL_TIME()
    res = {"traces": len(traces), "events": sum(len(t["ev"]) for t in traces),
           "gen_s": t1 - t0, "rejects": early, "states": 0, "distinct": 0,
           "sample": None, "stats": {}}
    for t in traces:
        for k, v in t.get("stats", {}).items():
            res["stats"][k] = res["stats"].get(k, 0) + v
    if not traces:
        return res
    fd, path = tempfile.mkstemp(prefix="trace", suffix=".json")
    os.close(fd)
    try:
        # time patched in this process; subprocess timeout uses monotonic -> restore
        time.time, time.monotonic = vloop.REAL_TIME, vloop.REAL_MONO
        with open(path, "w") as f:
            json.dump(clean([{"cfg": t["cfg"], "ev": t["ev"]} for t in traces]), f, default=lambda o: "?" + type(o).__name__)
        r = tlc.run(spec, cfg or spec + ".cfg", env={"TRACE": path}, timeout=tlc_timeout,
                    dfs=dfs, heap=heap)
        res["tlc_s"] = r.wall
        res["states"], res["distinct"] = r.generated, r.distinct
        m = re.search(r'<<"CHECKED", (\d+)>>', r.out)
        viol, inv = r.violation, False
        if viol and "Invariant" in viol:
            # an invariant of the design failed along a real execution
            st = r.out[r.out.find("Error:"):]
            inv = True
            tid = re.findall(r"/\\ tid = (\d+)", st)
            ls = re.findall(r"/\\ pos = (\d+)", st)
            i = int(tid[-1]) - 1 if tid else 0
            tr = traces[i]
            res["rejects"].append(dict(trace=tr, at=int(ls[-1]) if ls else 0,
                                       clause=viol, driver=driver, func=func, params=params))
        elif not r.ok and "deserialize" not in r.out and re.search(r"/\\ tid = ", r.out) and \
                re.search("Attempted to |Overflow when computing", r.out):
            # values of a kind the specification does not know (it knows all that the code may give)
            st = r.out[re.search("Attempted to |Overflow when computing", r.out).start():]
            tid = re.findall(r"/\\ tid = (\d+)", st)
            ls = re.findall(r"/\\ pos = (\d+)", st)
            res["rejects"].append(dict(trace=traces[int(tid[-1]) - 1 if tid else 0], at=int(ls[-1]) if ls else 1,
                                       clause="unknown value: " + " ".join(st[:150].split()),
                                       driver=driver, func=func, params=params))
            inv = True
        elif not r.ok or not m or int(m.group(1)) != len(traces):
            res["error"] = "TLC failed on %s: %s" % (spec, r.out[-3000:])
            return res
        if not inv:
            res["rejects"] += _rejects(r.out, traces, driver, func, params)
            for m in list(re.finditer(r'<<"LIMIT", (\d+), (\d+)>>', r.out))[:3]:
                # search budget used up: look again at this trace alone
                one = traces[int(m.group(1)) - 1]
                with open(path, "w") as f:
                    json.dump([{"cfg": one["cfg"], "ev": one["ev"]}], f)
                r2 = tlc.run(spec, cfg or spec + ".cfg",
                             env={"TRACE": path, "LIMIT": "600000"}, timeout=120, heap="3g")
                res["states"] += r2.generated
                res["distinct"] += r2.distinct
                rj = _rejects(r2.out, [one], driver, func, params)
                if rj:
                    res["rejects"] += rj
                    break
                if '<<"CHECKED", 1>>' not in r2.out or '<<"LIMIT"' in r2.out:
                    res["undecided"] = res.get("undecided", 0) + 1
        tr = max(traces, key=lambda t: min(len(t["ev"]), 25))
        res["sample"] = {"seed": tr["seed"], "cfg": tr["cfg"], "events": tr["ev"][:25]}
    finally:
        os.unlink(path)
    return res


def run(driver, func, spec, seeds, params=None, cfg=None, procs=8, chunks=None,
        tlc_timeout=600, dfs=False, heap="1500m", deadline=None):
    """Returns an aggregate dict. seeds: iterable."""
    seeds = list(seeds)
    chunks = chunks or procs
    parts = [seeds[i::chunks] for i in range(chunks)]
    jobs = [(driver, func, spec, cfg, p, params or {}, tlc_timeout, dfs, heap) for p in parts if p]
    agg = {"traces": 0, "events": 0, "rejects": [], "states": 0, "distinct": 0, "samples": [],
           "errors": [], "undecided": 0, "gen_s": 0.0, "tlc_s": 0.0, "stats": {}}
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_worker, jobs, chunksize=1):
            if r.get("error"):
                agg["errors"].append(r["error"])
            for k in ("traces", "events", "states", "distinct", "gen_s", "tlc_s", "undecided"):
                agg[k] += r.get(k, 0)
            agg["rejects"] += r.get("rejects", [])
            for k, v in r.get("stats", {}).items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
            if r.get("sample") and len(agg["samples"]) < 2:
                agg["samples"].append(r["sample"])
    return agg
