"""Recorded runs of the real informers against a fake API server with faults
(C01, C02, C05, C14, C15, C21, C22)."""
import asyncio
import random
from types import SimpleNamespace as NS

import vloop
from tracecheck import Rec
from vloop import SCRAMBLED, dec, enc


class Pod:
    def __init__(self, name, ns, v):
        self.metadata = NS(name=name, namespace=ns, resource_version=enc(v))
        self.api_version, self.kind = "v1", "Pod"


class Err(Exception):
    pass


def ver(o):
    try:
        return dec(o["metadata"]["resourceVersion"] if isinstance(o, dict) else o.metadata.resource_version)
    except Exception:
        return -7


def key(o):
    if isinstance(o, dict):
        ns, n = o["metadata"].get("namespace"), o["metadata"]["name"]
    else:
        ns, n = o.metadata.namespace, o.metadata.name
    return ns + "/" + n if ns else n


class Server:
    """The API server: objects, a log of events, lists and watches that can fail."""

    def __init__(self, loop, rec, rng, shape, p_fault, lat):
        self.loop, self.rec, self.rng = loop, rec, rng
        self.shape, self.p_fault, self.lat = shape, p_fault, lat
        self.objs, self.log = {}, []
        self.rv = rng.choice([1, 7, 100])
        SCRAMBLED[0] = rng.random() < .3
        self.compacted = 0
        self.more = []
        self.streams = []
        self.hold = False
        self.loose = rng.random() < .3
        self.racy = False
        self.stats = {"lists": 0, "watches": 0, "faults": 0, "changes": 0}

    def keys(self):
        return ["n/a", "n/b", "m/a", "c"] + self.more

    def mk(self, k, v):
        ns, _, n = k.rpartition("/")
        if self.shape == "dict":
            o = {"apiVersion": "v1", "kind": "Pod", "metadata": {"name": n, "resourceVersion": enc(v)}}
            if ns:
                o["metadata"]["namespace"] = ns
            return o
        return Pod(n, ns or None, v)

    def put(self, k):
        self.rv += 1
        self.stats["changes"] += 1
        ty = "MODIFIED" if k in self.objs else "ADDED"
        if self.loose and self.rng.random() < .3:
            ty = self.rng.choice(["ADDED", "MODIFIED"])
        self.objs[k] = self.mk(k, self.rv)
        self.log.append((self.rv, ty, k, self.objs[k]))
        self.wake()

    def rm(self, k):
        if k in self.objs or self.loose and self.rng.random() < .3:
            self.rv += 1
            self.stats["changes"] += 1
            self.objs.pop(k, None)
            self.log.append((self.rv, "DELETED", k, self.mk(k, self.rv)))
            self.wake()

    def end(self):
        if self.streams:
            self.streams[-1].end()

    def wake(self):
        if not self.hold:
            for s in self.streams:
                s.pump(99)

    def fault(self, scale=1.0):
        if self.rng.random() < self.p_fault * scale:
            self.stats["faults"] += 1
            return True
        return False

    async def delay(self):
        if self.lat:
            await asyncio.sleep(self.rng.random() * self.lat)
        elif self.rng.random() < .3:
            await asyncio.sleep(0)

    async def list(self, options):
        self.stats["lists"] += 1
        self.rec("list")
        await self.delay()
        if self.fault():
            self.rec("listed", ok=False)
            raise self.rng.choice([Err("list"), ConnectionRefusedError(), ValueError("x")])
        items = list(self.objs.values())
        self.rng.shuffle(items)
        rv = self.rv
        self.rec("listed", ok=True, rv=rv, l=[{"key": key(o), "v": ver(o)} for o in items])
        if self.racy and self.rng.random() < .5:
            # something comes and goes before the watch opens
            k = self.rng.choice([k for k in self.keys() if k not in self.objs] or self.keys())
            for _ in range(self.rng.choice([1, 2, 3])):
                self.put(k)
            if self.rng.random() < .8:
                self.rm(k)
        if self.shape == "dict":
            return {"metadata": {"resourceVersion": enc(rv)}, "items": items}
        return NS(metadata=NS(resource_version=enc(rv)), items=items)

    async def watch(self, options):
        self.stats["watches"] += 1
        self.rec("watch")
        rv = dec(options.get("resource_version") or 0)
        await self.delay()
        w = self.rec.new_id()
        if self.fault():
            self.rec("opened", ok=False, w=w)
            raise self.rng.choice([Err("watch"), ConnectionRefusedError()])
        self.rec("opened", ok=True, w=w)
        s = Stream(self, w, rv)
        self.streams = [x for x in self.streams if not x.closed] + [s]
        if rv < self.compacted:
            s.q.put_nowait("error")
        else:
            s.live = True
            if self.fault(.3):
                s.end()
            elif not self.hold:
                s.pump(99)
        return s


class Stream:
    def __init__(self, srv, w, rv):
        self.srv, self.w, self.rv = srv, w, rv
        self.q = asyncio.Queue()
        self.closed = self.live = self.over = False

    def pump(self, n):
        if not self.live:
            return
        for e in self.srv.log:
            if n and e[0] > self.rv:
                self.rv = e[0]
                self.q.put_nowait(e)
                n -= 1

    def bookmark(self):
        if self.live and (not self.srv.log or self.rv >= self.srv.log[-1][0]):
            self.rv = self.srv.rv
            self.q.put_nowait((self.rv, "BOOKMARK", "", self.srv.mk("", self.rv)))

    def end(self):
        if self.live:
            self.live = False
            self.q.put_nowait(self.srv.rng.choice(["clean", "clean", "raise", "error"]))

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.over:
            raise StopAsyncIteration
        e = await self.q.get()
        rec = self.srv.rec
        if e == "error":
            self.over = True
            rec("we", w=self.w, ty="ERROR", key="", v=0)
            return {"type": "ERROR", "object": {"kind": "Status", "apiVersion": "v1", "code": 410}}
        if e in ("clean", "raise"):
            self.over = True
            rec("wend", w=self.w, how=e)
            if e == "clean":
                raise StopAsyncIteration
            raise self.srv.rng.choice([Err("stream"), asyncio.TimeoutError(), ValueError("json")])
        rec("we", w=self.w, ty=e[1], key=e[2], v=e[0])
        return {"type": e[1], "object": e[3]}

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close_()

    def close_(self):
        if not self.closed:
            self.closed = True
            self.live = False
            self.srv.rec("close", w=self.w)

    async def stop(self):
        self.close_()

    close = stop


class Handler:
    def __init__(self, drv, h, kind):
        self.drv, self.h, self.kind = drv, h, kind

    async def _n(self, op, k, old, new):
        d = self.drv
        d.rec("n", h=self.h, op=op, key=k, old=old, new=new)
        d.stats["notifications"] += 1
        r = "ok"
        try:
            kind = "fast" if d.fast else self.kind
            z = d.rng.random()
            if kind == "yield":
                for _ in range(d.rng.choice([0, 1, 1, 3])):
                    await asyncio.sleep(0)
            elif kind in ("slow", "slowraise") and z < .5:
                await asyncio.sleep(d.rng.choice([.05, .5, 2, 10, 40]))
            elif kind == "block":
                if not d.blocked:
                    d.blocked = True
                    await asyncio.sleep(100)
            elif kind == "stuck" and z < .3:
                await asyncio.sleep(200)
            if kind == "raise" and z < .4 or kind == "slowraise" and .3 < z < .7:
                r = "raise"
                d.stats["handler_errors"] += 1
                raise d.rng.choice([Err("handler"), KeyError("k"), asyncio.TimeoutError()])
        except asyncio.CancelledError:
            r = "cancelled"
            raise
        finally:
            d.rec("ne", h=self.h, r=r)

    async def on_add(self, obj):
        await self._n("add", key(obj), 0, ver(obj))

    async def on_update(self, old, new):
        k = key(new)
        await self._n("update", k if key(old) == k else "?", ver(old), ver(new))

    async def on_delete(self, obj):
        from aiok8s.cache import delta_fifo
        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
            self.drv.stats["final_state_unknown"] += 1
            await self._n("delete", obj.key, ver(obj.obj) if obj.obj is not None else 0, 0)
        else:
            await self._n("delete", key(obj), ver(obj), 0)


class Driver:
    def __init__(self, seed, chk, simple, steps, late, flood):
        self.late, self.flooding = late, flood
        self.seed, self.chk, self.simple, self.steps = seed, chk, simple, steps
        self.rng = random.Random(seed * 15485863 + 7)
        self.fast = self.blocked = False

    def flood(self, controller, shared_informer, lw, ty, default):
        """Thousands of changes while one handler is held up."""
        rng, loop, srv = self.rng, self.loop, self.srv
        srv.lat = srv.p_fault = 0
        self.inf = shared_informer.new_shared_informer(lw, ty, default)
        self.idx = self.inf.get_indexer()
        for kind in rng.sample(["block", "fast"], 2):
            self.add_handler(True, kind, 0)
        task = loop.create_task(self.run())
        self.mine.add(task)
        loop.settle()
        self.idle()
        for _ in range(rng.choice([1100, 1250])):
            (srv.put if rng.random() < .9 else srv.rm)(rng.choice(srv.keys()))
            if rng.random() < .02:
                loop.settle()
                self.idle()
        loop.settle()
        self.idle()
        srv.p_fault = 0
        loop.advance_to(loop.time() + 150, hook=self.idle)
        self.idle()
        self.rec("quiet", srv=[{"key": k, "v": ver(o)} for k, o in sorted(srv.objs.items())], store=self.store(),
                 synced=bool(self.inf.has_synced()))
        self.stop(task)

    def store(self):
        return [{"key": key(o), "v": ver(o)} for o in sorted(self.idx.list(), key=key)]

    def probe(self, k):
        rv = self.inf.last_sync_resource_version()
        self.rec(k, store=self.store(), synced=bool(self.inf.has_synced()), rv=dec(rv) if str(rv).isdigit() else 0)

    def idle(self):
        if self.ended and not self.left:
            self.left = True
            n = [t for t in asyncio.all_tasks(self.loop) if not t.done() and t not in self.mine]
            self.rec("left", n=len(n))
        self.probe("idle")

    async def add(self, h, kind, req):
        self.rec("addh", h=h, req=-1 if req is None else int(req * 1024), slow=kind != "fast")
        await self.inf.add_event_handler(Handler(self, h, kind), resync_period=req)
        self.rec("addhret", h=h)

    def add_handler(self, wait=False, kind=None, req=None):
        rng = self.rng
        self.nh += 1
        kinds = {"C15": ["fast", "fast", "fast", "slow"], "C21": ["fast", "fast", "slow", "stuck", "raise", "yield"],
                 "C22": ["fast", "slow", "raise", "yield"]}.get(self.chk, ["fast", "fast", "yield", "slow", "raise"])
        pers = [None, 0, 0, 30] if self.late else [None, None, 0, 0, 1, 5, 10, 30] if self.chk != "C15" else [None, 0, 0, .25, 1, 1.5, 2, 3, 5, 7]
        t = self.loop.create_task(self.add(self.nh, kind or rng.choice(kinds), rng.choice(pers) if kind is None else req))
        self.mine.add(t)
        if wait:
            self.loop.settle()

    async def run(self):
        r = "?"
        self.rec("start")
        try:
            await self.inf.run()
            r = "returned"
        except asyncio.CancelledError:
            r = "cancelled"
        except Exception as e:
            r = type(e).__name__
        self.ended = True
        self.rec("ended", r=r)

    def go(self):
        from aiok8s.cache import controller, list_watch, shared_informer
        rng, chk = self.rng, self.chk
        with vloop.scenario(self.seed) as loop:
            self.loop = loop
            self.rec = rec = Rec(loop)
            self.stats = {"notifications": 0, "handler_errors": 0, "final_state_unknown": 0}
            self.ended = self.left = False
            self.mine = set()
            self.nh = 0
            p = rng.choice([0, .1, .3, .5]) if chk != "C15" else rng.choice([0, 0, .03])
            lat = rng.choice([0, 0, .05, 1.5]) if chk != "C15" else 0
            shape = rng.choice(["typed", "dict"])
            self.srv = srv = Server(loop, rec, rng, shape, p, lat)
            lw = list_watch.ListWatch(srv.list, srv.watch)
            if chk == "C15":
                default = rng.choice([1, 1.5, 2, 5, 30])
                srv.put("p")
            else:
                default = rng.choice([0, 0, 1, 5, 30] if not self.late else [0, 30])
            if self.late:
                srv.more = ["n/x%d" % i for i in range(6)]
                srv.racy = rng.random() < .6
                some = rng.choice([.7, 1, 1])
                for k in srv.keys():
                    if rng.random() < some:
                        srv.put(k)
            for _ in range(rng.choice([0, 1, 3, 6])):
                (srv.put if rng.random() < .8 else srv.rm)(rng.choice(srv.keys()))
            ty = rng.choice([None, dict if shape == "dict" else Pod])
            cfg = {"chk": chk, "simple": self.simple, "default": int(default * 1024)}
            try:
                (self.flood if self.flooding else self.scene)(controller, shared_informer, lw, ty, default)
            except vloop.Spin:
                rec("spin")
            except vloop.Hang:
                rec("hang")
            self.stats.update(srv.stats)
            return {"cfg": cfg, "ev": rec.ev, "stats": self.stats}

    def scene(self, controller, shared_informer, lw, ty, default):
        rng, loop, rec, srv, chk = self.rng, self.loop, self.rec, self.srv, self.chk
        if self.simple:
            rec("addh", h=1, req=-1, slow=False)
            rec("addhret", h=1)
            h = Handler(self, 1, rng.choice(["fast", "yield", "slow", "raise", "slowraise"]) if chk != "C15" else "fast")
            if rng.random() < .3:
                h = controller.ResourceEventHandlerFuncs(h.on_add, h.on_update, h.on_delete)
            self.idx, self.inf = controller.new_informer(lw, ty, default, h)
        else:
            self.inf = shared_informer.new_shared_informer(lw, ty, default)
            self.idx = self.inf.get_indexer()
            for _ in range(rng.choice([0, 1, 1, 2, 3]) if not self.late else 1):
                self.add_handler(wait=rng.random() < .8)
                if rng.random() < .2:
                    loop.advance(rng.choice([.5, 2]))
        if rng.random() < .1:
            self.probe("p")
        task = loop.create_task(self.run())
        self.mine.add(task)
        if self.late:
            # join while the first list or a burst of changes is being handed out
            for _ in range(rng.choice([1, 2, 3])):
                if rng.random() < .3:
                    k = rng.choice(srv.keys())
                    for _ in range(rng.choice([1, 2, 3])):
                        srv.put(k)
                    srv.rm(k)
                    if rng.random() < .3:
                        srv.put(k)
                elif rng.random() < .5:
                    for _ in range(rng.choice([1, 2, 6])):
                        (srv.put if rng.random() < .75 else srv.rm)(rng.choice(srv.keys()))
                loop.ticks(rng.randrange(0, 60))
                self.add_handler()
                if rng.random() < .4:
                    srv.end()
                if rng.random() < .3:
                    loop.advance(1.5)
            loop.settle()
            self.idle()
        steps = rng.randrange(1, self.steps + 1) if chk == "C22" else self.steps
        for _ in range(steps):
            y = rng.random()
            if y < (.45 if chk != "C15" else .12):
                for _ in range(rng.choice([1, 1, 1, 2, 4])):
                    k = rng.choice(srv.keys())
                    (srv.put if rng.random() < .65 else srv.rm)(k)
            elif y < .55 and srv.streams:
                if srv.fault() or rng.random() < .15 * (chk != "C15"):
                    srv.streams[-1].end()
                    if rng.random() < .3:
                        srv.compacted = srv.rv
            elif y < .6 and not self.simple and self.nh < 4:
                self.add_handler()
            elif y < .66 and chk != "C15":
                srv.hold = not srv.hold
            elif y < .7 and srv.streams:
                srv.streams[-1].bookmark()
            if srv.hold and srv.streams and rng.random() < .4:
                srv.streams[-1].pump(rng.choice([1, 1, 2]))
            z = rng.random()
            if z < .35:
                loop.ticks(rng.choice([1, 1, 2, 3, 5, 8]))
                self.probe("p")
            elif z < .65:
                loop.settle()
                self.idle()
            else:
                loop.advance_to(loop.time() + rng.choice([.125, .5, 1, 1, 2, 4, 11] if chk != "C15" else [.5, 1, 2, 4]),
                                hook=self.idle)
                self.idle()
        if chk == "C22" or rng.random() < .15:
            if rng.random() < .5:
                loop.ticks(rng.choice([1, 2, 3, 5, 9]))
            self.stop(task)
            return
        # the server calms down
        srv.p_fault, srv.hold, self.fast, srv.lat = 0, False, True, 0
        srv.wake()
        loop.advance_to(loop.time() + (12 if not self.slow() else 270), hook=self.idle)
        self.idle()
        rec("quiet", srv=[{"key": k, "v": ver(o)} for k, o in sorted(srv.objs.items())], store=self.store(),
            synced=bool(self.inf.has_synced()))
        if rng.random() < .3:
            srv.put("n/a")
            loop.settle()
            self.idle()
            rec("quiet", srv=[{"key": k, "v": ver(o)} for k, o in sorted(srv.objs.items())], store=self.store(),
                synced=bool(self.inf.has_synced()))
        self.stop(task)

    def slow(self):
        return any(e["k"] == "ne" and e["r"] == "raise" for e in self.rec.ev) or any(
            e["k"] == "n" for e in self.rec.ev) and self.busy()

    def busy(self):
        b = set()
        for e in self.rec.ev:
            if e["k"] == "n":
                b.add(e["h"])
            elif e["k"] == "ne":
                b.discard(e["h"])
        return bool(b)

    def stop(self, task):
        loop, rec, srv = self.loop, self.rec, self.srv
        rec("stop")
        task.cancel()
        if self.rng.random() < .3:
            srv.put("n/b")
        loop.settle()
        self.idle()
        if not self.simple:
            self.add_handler()
        srv.put("n/a")
        loop.advance_to(loop.time() + 70, hook=self.idle)
        self.fast = True
        loop.advance_to(loop.time() + 300, hook=self.idle)
        if not self.simple:
            self.add_handler(True)
        srv.put("n/b")
        loop.advance_to(loop.time() + 5, hook=self.idle)
        self.idle()
        rec("fin")


def trace(seed, chk="C01", simple=False, steps=40, late=False, flood=False):
    return Driver(seed, chk, simple, steps, late, flood).go()
