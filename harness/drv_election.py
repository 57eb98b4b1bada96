"""Recorded runs of the real leader electors and config map locks above the real
kubernetes_asyncio client and a fake API server (C17, C18, C25)."""
import asyncio
import contextvars
import json
import random
import time

import httpfake
import vloop
from tracecheck import Rec

httpfake.install()

KEY = "control-plane.alpha.kubernetes.io/leader"
NS, NAME = "kube-system", "my-lock"
WHO = contextvars.ContextVar("who", default=(0, 0))  # (number, incarnation)


SKEW = {}
_now = time.time
# every elector's process has its own idea of the time of day
time.time = lambda: _now() + SKEW.get(WHO.get()[0], 0)


class LockServer:
    """One config map, with resource versions enforced where a request carries one."""

    def __init__(self, loop, rec, rng, lat, p_fault=0.0):
        self.loop, self.rec, self.rng = loop, rec, rng
        self.lat, self.p_fault = lat, p_fault
        self.cm, self.rv = None, rng.choice([1, 9, 99])
        self.tasks = set()
        self.dead = set()
        self.cut = set()   # electors whose requests all fail now
        self.busy = 0      # writes on their way
        self.on_write = lambda *a: None
        self.on_read = lambda *a: None
        self.stats = {"calls": 0, "faults": 0, "conflicts": 0, "outside": 0}

    # -- the stored object -------------------------------------------------
    def raw(self):
        return ((self.cm["metadata"].get("annotations") or {}).get(KEY)) if self.cm else None

    def store(self, body):
        self.rv += 1
        body = json.loads(json.dumps(body))
        body["metadata"]["resourceVersion"] = str(self.rv)
        body["metadata"].setdefault("namespace", NS)
        body["metadata"].setdefault("uid", "u%d" % self.rv)
        body.setdefault("apiVersion", "v1")
        body.setdefault("kind", "ConfigMap")
        self.cm = body

    def outside(self, how, raw=None):
        """Somebody else changes the config map."""
        self.stats["outside"] += 1
        if how == "delete":
            self.rv += 1
            self.cm = None
            return
        b = self.cm or {"metadata": {"name": NAME}}
        a = b["metadata"].get("annotations")
        if how == "touch":
            b.setdefault("data", {})["x%d" % self.rng.randrange(3)] = str(self.rng.randrange(100))
            if self.rng.random() < .4:
                b["metadata"].setdefault("labels", {})["l"] = str(self.rng.randrange(100))
            if a is not None and self.rng.random() < .4:
                a["other"] = str(self.rng.randrange(100))
            y = self.rng.random()
            if y < .2:
                b["binaryData"] = {"k%d" % self.rng.randrange(2): self.rng.choice(["AAAA", "AQID"])}
            elif y < .3:
                b["immutable"] = False
            elif y < .4:
                b["metadata"]["finalizers"] = ["f/%d" % self.rng.randrange(2)]
            elif y < .5:
                b["metadata"]["ownerReferences"] = [{"apiVersion": "v1", "kind": "Pod", "name": "p", "uid": "u",
                                                     "controller": True}]
            elif y < .55:
                b.pop("data", None)
        elif how == "strip":
            if a is not None:
                a.pop(KEY, None)
                if not a or self.rng.random() < .3:
                    b["metadata"].pop("annotations", None)
                    if self.rng.random() < .3:
                        b["metadata"]["annotations"] = {}
        elif how == "record":
            b["metadata"].setdefault("annotations", {})[KEY] = raw
        self.store(b)

    # -- requests ----------------------------------------------------------
    async def request(self, method, path, query, body, stream):
        who, inc = WHO.get()
        if (who, inc) in self.dead:
            await asyncio.Event().wait()
        self.stats["calls"] += 1
        base = "/api/v1/namespaces/%s/configmaps" % NS
        if path != base and path != base + "/" + NAME:
            raise httpfake.error(404, "no such path " + path)
        req = {"id": self.rec.new_id(), "who": who, "inc": (who, inc), "m": method, "t": self.rec.t()}
        self.rec("req", e=who, id=req["id"], m=method)
        fut = self.loop.create_future()
        total = self.rng.random() * self.lat if self.rng.random() < .8 else self.lat * .98
        d1 = total * self.rng.random()
        r = self.rng.random()
        fault = ""
        if who in self.cut or r < self.p_fault:
            fault = self.rng.choice(["before", "before", "lost"])
        if fault:
            self.stats["faults"] += 1
            self.rec("fault", e=who)
        if method != "GET":
            self.busy += 1
        t = self.loop.create_task(self.serve(req, body, fut, d1, total - d1, fault))
        self.tasks.add(t)
        t.add_done_callback(self.tasks.discard)
        try:
            out = await fut
        except asyncio.CancelledError:
            # the request may be on the wire already
            if (who, inc) in self.dead:
                if not req.get("applied") and self.rng.random() < .5:
                    t.cancel()
                raise
            if not req.get("applied") and self.rng.random() < .5:
                t.cancel()
            self.rec("abort", e=who, id=req["id"])
            raise
        except BaseException as e:
            self.rec("reply", e=who, id=req["id"], m=method, ok=False, code=getattr(e, "status", 0) or 0)
            raise
        self.rec("reply", e=who, id=req["id"], m=method, ok=True, code=200)
        return out

    async def serve(self, req, body, fut, d1, d2, fault):
        err, out = None, None
        try:
            try:
                await self.sleep(d1)
                if fault == "before":
                    err = self.rng.choice([httpfake.error(500), httpfake.error(429), httpfake.error(403),
                                           ConnectionRefusedError(), asyncio.TimeoutError()])
            finally:
                if req["m"] != "GET":
                    self.busy -= 1
            if err is None:
                req["applied"] = True
                try:
                    out = self.apply(req, body)
                except Exception as e:
                    err = e
                if fault == "lost":
                    err = self.rng.choice([httpfake.error(504), ConnectionResetError(),
                                           asyncio.TimeoutError()])
            await self.sleep(d2)
        except asyncio.CancelledError:
            return
        if fut.done() or req["inc"] in self.dead:
            return
        if err:
            fut.set_exception(err)
        else:
            fut.set_result(out)

    async def sleep(self, d):
        if d:
            await asyncio.sleep(d)
        elif self.rng.random() < .5:
            await asyncio.sleep(0)

    def apply(self, req, body):
        if req["m"] == "GET":
            self.on_read(req)
            if not self.cm:
                raise httpfake.error(404, "Not Found")
            return json.loads(json.dumps(self.cm))
        if req["m"] == "POST":
            if self.cm:
                self.stats["conflicts"] += 1
                raise httpfake.error(409, "AlreadyExists")
        elif req["m"] == "PUT":
            if not self.cm:
                raise httpfake.error(404, "Not Found")
            rv = body["metadata"].get("resourceVersion")
            if rv and rv != self.cm["metadata"]["resourceVersion"]:
                self.stats["conflicts"] += 1
                raise httpfake.error(409, "Conflict")
        else:
            raise httpfake.error(405)
        self.store(body)
        self.on_write(req)
        return json.loads(json.dumps(self.cm))

# ------------------------------------------------------------- electors
def holder_of(raw):
    """(holder, transitions, recognisable)"""
    try:
        r = json.loads(raw) if raw else {}
        h = r.get("holderIdentity")
        tr = r.get("leaderTransitions", -1)
    except Exception:
        return 98, -1
    n = 0 if not h else int(h[1:]) if h[:1] == "e" and h[1:].isdigit() else 97
    return n, tr if isinstance(tr, int) else -2


def times_of(raw, e):
    """Acquire time, renew time (also on the clock of elector e) and duration of a record."""
    def at(x, off=0):
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            return -2 * 10 ** 9
        return max(-1.9e9, min(1.9e9, (x - vloop.EPOCH - off) * 1024)).__round__()
    try:
        r = dict(json.loads(raw))
    except Exception:
        r = {}
    return {"acq": at(r.get("acquireTime")), "ren": at(r.get("renewTime")),
            "own": at(r.get("renewTime"), SKEW.get(e, 0)), "dur": r.get("leaseDurationSeconds", -1)}


PARAMS = [(15, 10, 2), (15, 10, 2), (6, 4, 1), (8, 3, 2), (4, 2.5, 1), (60, 40, 5)]


class Driver:
    def __init__(self, seed, chk, mode):
        self.seed, self.chk, self.mode = seed, chk, mode
        self.rng = random.Random(seed * 15487469 + 3)

    def run(self):
        from aiok8s.leaderelection import leaderelection, resourcelock
        rng = self.rng
        with vloop.scenario(self.seed) as loop:
            self.loop = loop
            self.rec = rec = Rec(loop)
            self.lease, self.renew, self.retry = rng.choice(PARAMS)
            slack = self.lease - self.renew - self.retry
            self.cleanup = rng.choice([0, 0, 0, slack * .3])
            lat = rng.choice([0, .01, .2, .5, .97]) * (slack - self.cleanup)
            # bounds below assume that an attempt ends within the renew deadline
            lat = min(lat, self.renew * .45)
            p = 0 if self.mode == "clean" else rng.choice([0, .05, .2, .5])
            self.srv = srv = httpfake.SERVER = LockServer(loop, rec, rng, lat, p)
            srv.on_write = self.on_write
            self.n = rng.choice([1, 2, 2, 3, 3]) if self.mode != "solo" else 1
            SKEW.clear()
            if rng.random() < .4:
                SKEW.update((e, rng.choice([0, -100, -self.lease, -1, 1, self.lease, 1e4]))
                            for e in range(1, self.n + 1))
            self.initial()
            h, tr = holder_of(srv.raw())
            cfg = {"chk": self.chk, "n": self.n, "lease": int(self.lease * 1024),
                   "renew": int(self.renew * 1024), "retry": int(self.retry * 1024),
                   "lat": int(lat * 1024) + 2, "cleanup": int(self.cleanup * 1024) + 1,
                   "h": h, "tr": tr, "acq": times_of(srv.raw(), 0)["acq"], "cm": bool(srv.cm), "rec": bool(srv.raw())}
            self.release = [None] + [rng.random() < .5 for _ in range(self.n)]
            cfg["rel"] = self.release[1:]
            self.el, self.task = [None] * (self.n + 1), [None] * (self.n + 1)
            self.state = ["" for _ in range(self.n + 1)]
            self.begun = set()
            self.inc = [0] * (self.n + 1)
            for e in range(1, self.n + 1):
                self.create(e)
            self.sample(True)
            steps = rng.randrange(4, 12)
            for _ in range(steps):
                self.act()
                d = rng.choice([0, rng.random() * self.retry, self.retry, self.renew * rng.random(),
                                self.lease * rng.random(), self.lease * 1.1])
                if rng.random() < .15:
                    loop.ticks(rng.randrange(8))
                else:
                    loop.advance_to(loop._vnow + d, self.hook)
                self.hook()
            if self.chk == "C18" or rng.random() < .3:
                srv.cut.clear()
                srv.p_fault = 0
                rec("calm")
                if not any(self.state[e] == "run" for e in range(1, self.n + 1)):
                    idle = [e for e in range(1, self.n + 1) if self.state[e] != "stopping"]
                    if idle:
                        self.start(rng.choice(idle))
                loop.advance_to(loop._vnow + self.lease + 4 * (2.2 * self.retry + 2 * lat), self.hook)
            self.hook()
            for e in range(1, self.n + 1):
                if self.state[e] == "run":
                    self.cancel(e)
                    loop.advance_to(loop._vnow + rng.choice([0, lat, self.retry]), self.hook)
            loop.advance_to(loop._vnow + 2 * lat + 2 * self.cleanup + .1, self.hook)
            self.hook()
            rec("over")
            return {"cfg": cfg, "ev": rec.ev, "stats": dict(srv.stats, leads=sum(
                x["k"] == "lead" for x in rec.ev))}

    def create(self, e):
        """A process with one elector."""
        from aiok8s.leaderelection import leaderelection, resourcelock
        self.inc[e] += 1
        i = (e, self.inc[e])
        lock = resourcelock.new(NS, NAME, resourcelock.ResourceLockConfig("e%d" % e))
        cb = leaderelection.LeaderCallbacks(
            lambda: self.lead(i), lambda: self.stopped(i), lambda who: self.new(i, who))
        self.el[e] = leaderelection.LeaderElector(leaderelection.LeaderElectionConfig(
            lock, cb, "el", self.lease, self.renew, self.retry, self.release[e]))

    def initial(self):
        rng, srv = self.rng, self.srv
        w = rng.choice(["none", "none", "bare", "empty", "other", "foreign", "foreign", "released", "old", "null"])
        if w == "none":
            return
        b = {"metadata": {"name": NAME}}
        a = None
        if w == "empty":
            a = {}
        elif w == "other":
            a = {"x": "y"}
        elif w == "foreign":
            a = {KEY: json.dumps({"holderIdentity": "e9", "leaseDurationSeconds": 15, "renewTime": vloop.EPOCH - 3,
                                  "acquireTime": vloop.EPOCH - 99, "leaderTransitions": rng.choice([0, 4])})}
        elif w == "released":
            a = {KEY: json.dumps({"leaderTransitions": 2})}
        elif w == "old":
            a = {KEY: json.dumps({"holderIdentity": rng.choice(["e9", "e1"]), "renewTime": 1.5})}
        elif w == "null":
            a = {KEY: json.dumps({"holderIdentity": "", "leaderTransitions": 3})}
        if a is not None:
            b["metadata"]["annotations"] = a
        if rng.random() < .5:
            b["data"] = {"k": "v"}
        srv.store(b)

    # -- what the electors do ---------------------------------------------
    def say(self, k, i, **kw):
        if i not in self.srv.dead:
            self.rec(k, e=i[0], **kw)

    async def lead(self, i):
        self.say("lead", i)
        try:
            r = self.rng.random()
            if r < .8:
                await asyncio.Event().wait()
            else:
                await asyncio.sleep(self.rng.random() * self.renew)
                if r > .9:
                    raise RuntimeError("leading failed")
        except asyncio.CancelledError:
            if i not in self.srv.dead:
                self.say("leadcancel", i)
                if self.cleanup and self.rng.random() < .7:
                    await asyncio.sleep(self.cleanup * self.rng.random())
            raise
        finally:
            self.say("unlead", i)

    async def stopped(self, i):
        self.say("stopped", i)

    async def new(self, i, who):
        self.say("new", i, h=holder_of(json.dumps({"holderIdentity": who}))[0])

    async def running(self, i):
        WHO.set(i)
        self.begun.add(i)
        how = "raised"
        try:
            await self.el[i[0]].run()
            how = "returned"
        except asyncio.CancelledError:
            how = "cancelled"
        finally:
            if i not in self.srv.dead:
                self.state[i[0]] = "ended"
                self.say("end", i, how=how)

    def on_write(self, req):
        h, tr = holder_of(self.srv.raw())
        self.rec("write", e=req["who"], id=req["id"], h=h, tr=tr, s=req["t"], **times_of(self.srv.raw(), req["who"]))

    # -- what the environment does ----------------------------------------
    def start(self, e):
        if self.state[e] == "dead":
            self.create(e)
            self.rec("new process", e=e)
        self.state[e] = "run"
        self.rec("start", e=e)
        self.begun.discard((e, self.inc[e]))
        self.task[e] = self.loop.create_task(self.running((e, self.inc[e])))

    def cancel(self, e):
        while (e, self.inc[e]) not in self.begun:
            self.loop.ticks(1)  # a task cancelled before its first step does nothing at all
        self.rec("cancel", e=e)
        self.task[e].cancel()
        self.state[e] = "stopping"

    def crash(self, e):
        self.rec("crash", e=e)
        self.srv.dead.add((e, self.inc[e]))
        self.state[e] = "dead"
        self.task[e].cancel()

    def act(self):
        rng = self.rng
        idle = [e for e in range(1, self.n + 1) if self.state[e] in ("", "ended")
                or self.state[e] == "dead" and rng.random() < .4]
        runs = [e for e in range(1, self.n + 1) if self.state[e] == "run"]
        r = rng.random()
        if idle and (r < .45 or not runs):
            for e in idle:
                if rng.random() < .7:
                    self.start(e)
        elif r < .57 and runs:
            self.cancel(self.pick(runs))
        elif r < .66 and runs:
            self.crash(self.pick(runs))
        elif r < .80 and runs and self.mode != "clean":
            e = self.pick(runs)
            self.srv.cut ^= {e}
            self.rec("cut", e=e, on=e in self.srv.cut)
        elif r < .88 and self.srv.cm:
            self.srv.outside("touch")
            self.rec("touch")
        elif r < .93 or self.mode == "solo":
            self.gone()

    def pick(self, runs):
        """Mostly the holder."""
        h, _ = holder_of(self.srv.raw())
        return h if h in runs and self.rng.random() < .7 else self.rng.choice(runs)

    def gone(self):
        """The record disappears, but only where nobody can rely on it."""
        h, _ = holder_of(self.srv.raw())
        srv = self.srv
        if self.mode == "solo":  # nobody else is there to take it
            if srv.cm:
                srv.outside(self.rng.choice(["delete", "strip"]))
                self.rec("gone", cm=bool(srv.cm))
            return
        ls = [x for x in self.rec.ev if x["k"] == "write"]
        last = ls[-1]["t"] / 1024 if ls else -1e9
        if srv.busy or not srv.cm or any(self.el[e].is_leader() and self.state[e] == "run"
                                         for e in range(1, self.n + 1)):
            return
        if h and self.loop._vnow < last + self.lease + 3 * srv.lat:
            return
        how = self.rng.choice(["delete", "strip"])
        srv.outside(how)
        self.rec("gone", cm=bool(srv.cm))

    def hook(self):
        self.sample(False)

    def sample(self, first):
        v = [e for e in range(1, self.n + 1) if self.state[e] != "dead" and self.el[e].is_leader()]
        last = getattr(self, "last", None)
        if v != last or first or self.rec.t() - self.last_t >= 512:
            self.rec("isl", v=v)
            self.last, self.last_t = v, self.rec.t()


def trace(seed, chk="C17", mode="any"):
    return Driver(seed, chk, mode).run()


# ------------------------------------------------------------- locks
class LockDriver:
    """Several locks of one config map, used directly, with outside changes (C25)."""

    def __init__(self, seed):
        self.seed = seed
        self.rng = random.Random(seed * 86028121 + 7)

    def rid(self, r):
        """Records by number: 0 none, 99 unknown."""
        if r is None or r == {}:
            return 0
        for i, x in enumerate(self.records):
            if x == r:
                return i + 1
        return 99

    def did(self, cm):
        """Everything but the record, by number (0: no config map)."""
        if cm is None:
            return 0
        c = json.loads(json.dumps(cm))
        m = c["metadata"]
        m.pop("resourceVersion", None)
        if m.get("annotations"):
            m["annotations"].pop(KEY, None)
        if not m.get("annotations"):
            m.pop("annotations", None)
        if m.get("creationTimestamp"):
            m["creationTimestamp"] = m["creationTimestamp"].replace("+00:00", "Z")
        if c not in self.datas:
            self.datas.append(c)
        return self.datas.index(c) + 1

    def server(self, k, **kw):
        srv = self.srv
        raw = srv.raw()
        try:
            r = self.rid(json.loads(raw) if raw else None)
        except Exception:
            r = 99
        self.rec(k, cm=bool(srv.cm), rv=int(srv.cm["metadata"]["resourceVersion"]) if srv.cm else 0,
                 r=r, d=self.did(srv.cm), **kw)

    def run(self):
        from aiok8s.leaderelection import resourcelock
        rng = self.rng
        with vloop.scenario(self.seed) as loop:
            self.loop = loop
            self.rec = rec = Rec(loop)
            self.datas = []
            SKEW.clear()
            self.records = [
                {"holderIdentity": "a", "leaderTransitions": 0},
                {"holderIdentity": "b\u00fc\"x", "renewTime": 12.5, "acquireTime": 1e6, "leaderTransitions": 3},
                {"leaderTransitions": 1}, {"holderIdentity": "", "x": None}]
            self.srv = srv = httpfake.SERVER = LockServer(
                loop, rec, rng, rng.choice([0, .5]), rng.choice([0, 0, .15]))
            srv.on_write = lambda req: self.server("stored", l=req["who"], id=req["id"])
            srv.on_read = lambda req: self.server("read", l=req["who"], id=req["id"])
            if rng.random() < .6:
                self.outside(rng.choice(["touch", "record", "strip"]), False)
            n = rng.choice([1, 2, 2, 3])
            locks = [None] + [resourcelock.new(NS, NAME, resourcelock.ResourceLockConfig("l%d" % i))
                              for i in range(1, n + 1)]
            self.server("init")
            busy = [None] * (n + 1)
            for _ in range(rng.randrange(6, 24)):
                free = [i for i in range(1, n + 1) if not busy[i] or busy[i].done()]
                x = rng.random()
                if x < .72 and free:
                    i = rng.choice(free)
                    busy[i] = loop.create_task(self.use(i, locks[i]))
                elif x < .8 and len(free) < n:
                    i = rng.choice([i for i in range(1, n + 1) if i not in free])
                    rec("cancel", l=i)
                    busy[i].cancel()
                elif x < .95:
                    self.outside(rng.choice(["touch", "record", "strip", "delete"]))
                y = rng.random()
                if y < .5:
                    loop.advance(1)
                elif y < .8:
                    loop.ticks(rng.randrange(6))
                else:
                    loop.advance(rng.random() * .6)
            loop.advance(5)
            rec("over")
            return {"cfg": {"n": n}, "ev": [x for x in rec.ev if x["k"] not in ("reply", "abort")], "stats": srv.stats}

    def outside(self, how, say=True):
        if how == "delete" and not self.srv.cm:
            return
        self.srv.outside(how, json.dumps(self.rng.choice(self.records)))
        if say:
            self.server("outside")

    async def use(self, i, lock):
        rng = self.rng
        WHO.set((i, 0))
        op = rng.choice(["get", "get", "update", "update", "create"])
        n = rng.randrange(len(self.records))
        rec = self.rec
        rec("call", l=i, op=op, r=n + 1 if op != "get" else 0)
        r, raw, how = 0, True, "ok"
        try:
            if op == "get":
                got, text = await lock.get()
                r = -1 if got is None else self.rid(got)
                try:
                    raw = (text or None) == (None if not got else text) and (
                        not got or json.loads(text) == got)
                except Exception:
                    raw = False
            elif op == "create":
                await lock.create(json.loads(json.dumps(self.records[n])))
            else:
                await lock.update(json.loads(json.dumps(self.records[n])))
        except asyncio.CancelledError:
            how = "cancelled"
        except Exception:
            how = "raised"
        rec("ret", l=i, op=op, how=how, r=r, raw=bool(raw))


def locks(seed):
    return LockDriver(seed).run()
