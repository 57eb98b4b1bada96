"""Recorded runs of the real manager, cache and controllers above the real
kubernetes_asyncio client and a fake API server (C13, C19, C22)."""
import asyncio
import logging
import random

import httpfake
import vloop
from tracecheck import Rec
from vloop import dec, enc

httpfake.install()

POOL = [("n", "a"), ("n", "b"), ("m", "a"), ("n", "n"), ("a", "n"), ("default", "a"), ("n", "x.y-z"), ("n-a", "b")]


def ver(o):
    try:
        return dec(o.metadata.resource_version)
    except Exception:
        return -7


def accept(p, op, key, old, new):
    """The predicates; Pipeline.tla computes the same."""
    if p == 1:
        return op != "delete"
    if p == 2:
        return op != "update" or old != new
    if p == 3:
        return (old if op == "delete" else new) % 2 == 0
    if p == 4:
        return op != "create"
    if p == 5:
        return key <= 2
    if p == 6:
        return op != "update" or old % 3 != 0
    return True


class Predicate:
    def __init__(self, drv, i, p):
        self.drv, self.i, self.p = drv, i, p

    def _say(self, op, obj, old, new):
        k = self.drv.key_of(obj)
        self.drv.rec("pred", i=self.i, op=op, key=k, old=old, new=new)
        return accept(self.p, op, k, old, new)

    def create(self, e):
        return self._say("create", e.object, 0, ver(e.object))

    def update(self, e):
        return self._say("update", e.object_new, ver(e.object_old), ver(e.object_new))

    def delete(self, e):
        return self._say("delete", e.object, ver(e.object), 0)


class Driver:
    def __init__(self, seed, chk, steps, cacheonly):
        self.seed, self.chk, self.steps = seed, chk, steps
        self.rng = random.Random(seed * 32452843 + 11)
        self.cacheonly = cacheonly

    def key_of(self, obj, ty=1):
        try:
            k = (obj.metadata.namespace, obj.metadata.name)
        except Exception:
            return 0
        return self.keys[ty].index(k) + 1 if k in self.keys[ty] else 0

    # -- tasks -------------------------------------------------------------
    def spawn(self, coro):
        t = self.loop.create_task(coro)
        self.mine.add(t)
        return t

    async def get(self, ty, k):
        from aiok8s.controller import reconcile
        g = self.rec.new_id()
        ns, name = self.keys[ty][k - 1]
        if ns is None:
            ns = self.rng.choice([None, ""])
        self.rec("get", g=g, ty=ty, key=k)
        r, v = "error", 0
        try:
            o = await self.cache.get(reconcile.NamespacedName(namespace=ns, name=name), self.types[ty])
            r, v = ("value", ver(o)) if self.key_of(o, ty) == k else ("wrong object", 0)
        except asyncio.CancelledError:
            r = "cancelled"
        except KeyError:
            r = "absent"
        except self.NotStarted:
            r = "notstarted"
        except Exception as e:
            r = "error"
        self.rec("got", g=g, r=r, v=v)
        self.stats["reads"] += 1

    async def informer(self, ty):
        g = self.rec.new_id()
        self.rec("inf", g=g, ty=ty)
        try:
            i = await self.cache.get_informer(self.types[ty])
            self.seen.append(i)
            self.rec("infd", g=g, r="ok", obj=[id(x) for x in self.seen].index(id(i)) + 1)
        except asyncio.CancelledError:
            self.rec("infd", g=g, r="cancelled", obj=0)
        except Exception:
            self.rec("infd", g=g, r="error", obj=0)

    async def refuse(self):
        from aiok8s.controller import reconcile
        g = self.rec.new_id()
        self.rec("bad", g=g)
        r = "returned"
        try:
            if self.rng.random() < .5:
                await self.cache.get(reconcile.NamespacedName(namespace="n", name="a"), Driver)
            else:
                await self.cache.get_informer(Driver)
        except asyncio.CancelledError:
            r = "cancelled"
        except Exception:
            r = "refused"
        self.rec("badd", g=g, r=r)

    async def wcs(self):
        g = self.rec.new_id()
        self.rec("wcs", g=g)
        try:
            r = "ok" if await self.cache.wait_for_cache_sync() else "false"
        except asyncio.CancelledError:
            r = "cancelled"
        self.rec("wcsd", g=g, r=r)

    async def run(self):
        self.rec("mstart")
        r = "?"
        try:
            await self.top.start()
            r = "returned"
        except asyncio.CancelledError:
            r = "cancelled"
        except Exception as e:
            r = type(e).__name__
        self.ended = True
        self.rec("ended", r=r)

    def hook(self):
        e = self.rec.ev[-1]
        if not (e["k"] == "idle" and self.rec.t() - e["t"] < 100):
            self.idle()

    def idle(self):
        if self.ended and not self.left:
            self.left = True
            n = [t for t in asyncio.all_tasks(self.loop) if not t.done() and t not in self.mine]
            self.rec("left", n=len(n), open=len([s for s in self.kube.streams if not s.closed]))
        self.rec("idle")

    # -- changes -----------------------------------------------------------
    def change(self, ty=None, k=None):
        rng = self.rng
        ty = ty or rng.choice(self.tys)
        k = k or rng.choice([1, 2, 3])
        key = self.keys[ty][k - 1]
        v = self.kube.put(ty, key) if rng.random() < .65 else (self.kube.rm(ty, key) and -1)
        if v and (self.ns is None or key[0] == self.ns):
            self.rec("chg", ty=ty, key=k, v=max(v, 0))

    def srv(self, ty):
        return [self.kube.objs[ty].get(k, 0) if self.ns in (None, k[0]) else 0 for k in self.keys[ty]]

    def calm(self):
        """Everything delivered: what the server has is what readers must see."""
        k = self.kube
        self.loop.settle()
        for s in k.streams:
            s.pump()
        self.loop.settle()
        self.idle()
        # a stream may have been replaced meanwhile
        behind = {s.ty for s in k.streams if s.live and any(e[0] > s.rv for e in k.log[s.ty])}
        ok = [ty for ty in self.tys if ty not in behind and any(s.live for s in k.live(ty))]
        self.rec("calm", ok=ok, srv=[self.srv(ty) for ty in (1, 2, 3)], open=not self.gated())

    def gated(self):
        return self.gate is not None

    # -- controllers -------------------------------------------------------
    def reconciler(self, c, ty):
        drv = self

        class Reconciler:
            cache = None

            def inject_cache(self, cache):
                self.cache = cache

            async def reconcile(self, request):
                from aiok8s.controller import reconcile
                nn = request.namespaced_name
                k = drv.keys[ty].index((nn.namespace, nn.name)) + 1 if (nn.namespace, nn.name) in drv.keys[ty] else 0
                drv.stats["reconciles"] += 1
                drv.rec("rs", c=c, key=k)
                r, v = "error", 0
                try:
                    o = await self.cache.get(nn, drv.types[ty])
                    r, v = ("value", ver(o)) if drv.key_of(o, ty) == k else ("wrong object", 0)
                except asyncio.CancelledError:
                    r = "cancelled"
                    raise
                except KeyError:
                    r = "absent"
                except Exception:
                    pass
                finally:
                    drv.rec("rr", c=c, key=k, r=r, v=v)
                try:
                    if drv.gate is not None:
                        await drv.gate.wait()
                    elif drv.rng.random() < .3:
                        await asyncio.sleep(0)
                finally:
                    drv.rec("re", c=c, key=k)
                return reconcile.Result()

        return Reconciler()

    async def build(self, n):
        from aiok8s.controller import builder, controller, handler, source
        for c in range(1, n + 1):
            ty = 1 if self.chk == "C13" else self.rng.choice(self.tys)
            self.watched.append(ty)
            rcn = self.reconciler(c, ty)
            if self.chk != "C13" and self.rng.random() < .6:
                await builder.build_controller(self.top, rcn, api_type=self.types[ty])
                continue
            k = controller.new(self.top, reconciler=rcn)
            await self.cache.get_informer(self.types[ty])
            if self.chk == "C13":
                k.max_concurrent_reconciles = self.rng.choice([1, 1, 2, 3])
                await k.watch(Ref(self, ty), None)
            await k.watch(source.Kind(self.types[ty]), handler.EnqueueRequestForObject(),
                          *[Predicate(self, i + 1, p) for i, p in enumerate(self.preds)])

    def go(self):
        from aiok8s.controller import cache as cache_, manager
        rng, chk = self.rng, self.chk
        self.NotStarted = cache_.CacheNotStartedError
        self.types = httpfake.classes()
        with vloop.scenario(self.seed) as loop:
            self.loop, self.rec = loop, Rec(loop)
            rec = self.rec
            self.mine, self.seen, self.watched = set(), [], []
            self.ended = self.left = False
            self.gate = None
            self.stats = {"reads": 0, "reconciles": 0, "notifications": 0}
            # three names in use, one that is never used
            first = rng.choice([("n", "a"), ("n", "b"), ("n", "n")])
            self.keys = {t: [first] + rng.sample([k for k in POOL if k != first], 3) for t in (1, 2)}
            self.keys[3] = [(None, x) for x in rng.sample(["a", "b", "n", "default", "x.y-z"], 4)]
            self.tys = [1] if chk == "C13" else rng.choice([[1], [1, 2], [1, 2, 3]])
            self.ns = None
            n = 1
            if self.cacheonly:
                if rng.random() < .5:
                    self.ns, self.tys = "n", [t for t in self.tys if t != 3]
                self.cache = self.top = cache_.new(namespace=self.ns) if rng.random() < .7 else cache_.new(
                    namespace=self.ns, resync=rng.choice([0, 3, 20]))
                n = 0
            else:
                self.top = manager.new()
                self.cache = self.top.get_cache()
                n = 1 if chk == "C13" else rng.choice([0, 1, 1, 2])
            p = rng.choice([0, 0, .2, .4])
            self.kube = httpfake.SERVER = httpfake.Kube(loop, rec, rng, p, rng.choice([0, 0, .05, 1.5]))
            self.preds = [rng.choice([0, 1, 2, 3, 4, 5, 6]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] if chk == "C13" else []
            for ty in self.tys:
                if rng.random() < .3:
                    self.kube.slow[ty] = rng.choice([.3, 2, 9])
                for _ in range(rng.choice([0, 1, 3, 5])):
                    self.change(ty)
            cfg = {"chk": chk, "tys": self.tys, "preds": self.preds, "watched": self.watched}
            try:
                self.spawn(self.build(n))
                loop.settle()
                rec("built")
                (self.pipeline if chk == "C13" else self.scene)()
            except vloop.Spin:
                rec("spin")
            except vloop.Hang:
                rec("hang")
            self.stats.update(self.kube.stats)
            return {"cfg": cfg, "ev": rec.ev, "stats": self.stats}

    def poke(self):
        """Some reads and registrations."""
        rng = self.rng
        for _ in range(rng.choice([0, 1, 1, 2])):
            z = rng.random()
            if z < .6:
                self.spawn(self.get(rng.choice(self.tys), rng.choice([1, 2, 3, 4])))
            elif z < .75:
                self.spawn(self.informer(rng.choice(self.tys)))
            elif z < .85:
                self.spawn(self.refuse())
            elif z < .95:
                self.spawn(self.wcs())
            if rng.random() < .3:
                self.loop.ticks(1)

    def churn(self):
        rng, kube, loop = self.rng, self.kube, self.loop
        y = rng.random()
        if y < .45:
            for _ in range(rng.choice([1, 1, 2, 4])):
                self.change()
        elif y < .55 and kube.streams:
            s = rng.choice(kube.streams)
            if rng.random() < .3:
                kube.compacted[s.ty] = kube.rv
            s.end()
        elif y < .65:
            kube.hold = not kube.hold
            kube.wake()
        z = rng.random()
        if z < .35:
            loop.ticks(rng.choice([1, 1, 2, 3, 5, 8]))
        elif z < .6:
            loop.settle()
            self.idle()
        else:
            loop.advance_to(loop.time() + rng.choice([.0625, .125, .5, 1, 2, 4]), hook=self.hook)
            self.idle()

    def scene(self):
        rng, loop, kube = self.rng, self.loop, self.kube
        for _ in range(rng.choice([0, 1, 2])):
            self.poke()
            if rng.random() < .7:
                loop.settle()
                self.idle()
        task = self.spawn(self.run())
        if rng.random() < .5:
            loop.ticks(rng.choice([1, 1, 2, 3]))
            self.poke()
        if rng.random() < .9 or self.chk != "C22":
            loop.settle()
            self.idle()
        steps = rng.randrange(0, self.steps) if self.chk == "C22" else self.steps
        for _ in range(steps):
            self.poke()
            self.churn()
            if rng.random() < .2:
                self.calm()
        if self.chk == "C22":
            if rng.random() < .5:
                loop.ticks(rng.choice([1, 2, 3, 5, 9]))
            self.stop(task)
            return
        kube.p_fault = 0
        kube.slow = {}
        kube.release()
        for ty in self.tys:
            if rng.random() < .7:
                self.spawn(self.get(ty, rng.choice([1, 2, 3])))
        loop.advance_to(loop.time() + 130, hook=self.hook)
        self.idle()
        self.calm()
        for ty in self.tys:
            for k in (1, 2, 3, 4):
                self.spawn(self.get(ty, k))
        loop.advance_to(loop.time() + .5, hook=self.hook)
        self.idle()
        self.rec("quiet")
        self.stop(task)

    def pipeline(self):
        rng, loop, kube = self.rng, self.loop, self.kube
        kube.hold = True
        task = self.spawn(self.run())
        loop.advance_to(loop.time() + 130, hook=self.hook)
        kube.release()
        self.calm()
        for _ in range(self.steps):
            y = rng.random()
            if y < .15:
                if self.gate is None:
                    self.gate = asyncio.Event()
                else:
                    self.ungate()
            self.churn()
            if rng.random() < .25:
                kube.hold = False
                if rng.random() < .7:
                    self.ungate()
                loop.advance_to(loop.time() + 5, hook=self.hook)
                self.calm()
        kube.p_fault = 0
        kube.release()
        self.ungate()
        loop.advance_to(loop.time() + 130, hook=self.hook)
        self.calm()
        self.rec("quiet")
        self.stop(task)

    def ungate(self):
        if self.gate is not None:
            g, self.gate = self.gate, None
            g.set()

    def stop(self, task):
        loop, rec = self.loop, self.rec
        while not any(e["k"] == "mstart" for e in rec.ev):
            loop.ticks(1)  # a task cancelled before its first step does nothing at all
        rec("stop")
        task.cancel()
        loop.settle()
        self.idle()
        self.kube.release()
        for _ in range(3):
            self.change()
        loop.advance_to(loop.time() + 200, hook=self.hook)
        self.idle()
        rec("fin")


class Ref:
    """A second source whose handler just records what the informer tells."""

    def __init__(self, drv, ty):
        self.drv, self.ty = drv, ty

    async def start(self, handler, queue, *predicates):
        i = await self.drv.cache.get_informer(self.drv.types[self.ty])
        await i.add_event_handler(self)

    def _n(self, op, obj, old, new):
        self.drv.stats["notifications"] += 1
        self.drv.rec("n", op=op, key=self.drv.key_of(obj), old=old, new=new)

    async def on_add(self, obj):
        self._n("create", obj, 0, ver(obj))

    async def on_update(self, old, new):
        self._n("update", new, ver(old), ver(new))

    async def on_delete(self, obj):
        from aiok8s.cache import delta_fifo
        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
            obj = obj.obj
            self.drv.stats["final_state_unknown"] = self.drv.stats.get("final_state_unknown", 0) + 1
        self._n("delete", obj, ver(obj), 0)


def trace(seed, chk="C19", steps=25, cacheonly=False):
    return Driver(seed, chk, steps, cacheonly).go()


def direct(seed):
    """Events handed straight to what Kind registers: all object shapes."""
    from kubernetes_asyncio.client import models
    from aiok8s.cache import delta_fifo
    from aiok8s.controller import handler, reconcile, source
    from aiok8s.workqueue import rate_limiting_queue
    rng = random.Random(seed * 86028121 + 1)
    names = [("n", "a"), rng.choice([("n", "b"), ("a", "n")]), rng.choice([("m", "a"), ("n", "n")]), (None, "a")]
    good = {}

    class Plain:
        def __init__(self, k, v):
            self.metadata = type("M", (), dict(namespace=k[0], name=k[1], resource_version=enc(v), uid="u"))()

    def mk(k, v):
        z = rng.random()
        if z < .3:
            o = models.V1Pod(metadata=models.V1ObjectMeta(namespace=k[0], name=k[1], resource_version=enc(v)))
        elif z < .6:
            m = {"name": k[1], "resourceVersion": enc(v), "uid": "u"}
            if k[0] or rng.random() < .3:
                m["namespace"] = k[0]
            o = {"metadata": m}
        else:
            o = Plain(k, v)
        good[id(o)] = (o, k, v)
        return o

    def bad():
        return rng.choice([None, 7, "pod", {}, {"meta": 1}, [], object(), models.V1Pod(), {"metadata": None}])

    def info(o):
        _, k, v = good.get(id(o), (None, None, 0))
        return (names.index(k) + 1 if k else 0), v

    preds = [rng.choice([0, 1, 2, 3, 4, 5, 6]) for _ in range(rng.choice([0, 1, 2, 3]))]
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        got = []

        class P:
            def __init__(self, i, p):
                self.i, self.p = i, p

            def create(self, e):
                k, v = info(e.object)
                return accept(self.p, "create", k, 0, v)

            def update(self, e):
                k, v = info(e.object_new)
                return accept(self.p, "update", k, info(e.object_old)[1], v)

            def delete(self, e):
                k, v = info(e.object)
                return accept(self.p, "delete", k, v, 0)

        class Inf:
            async def add_event_handler(self, h, **kw):
                got.append(h)

        class C:
            async def get_informer(self, t):
                return Inf()

        queue = rate_limiting_queue.new()
        stats = {"events": 0, "malformed": 0}

        async def drain():
            q = []
            while len(queue):
                item, _ = await queue.get()
                await queue.done(item)
                nn = getattr(item, "namespaced_name", None)
                q.append(names.index((nn.namespace, nn.name)) + 1 if nn and (nn.namespace, nn.name) in names else 0)
            return q

        async def hand():
            """Events with and without metadata for the handler itself."""
            from aiok8s.controller import event
            h = handler.EnqueueRequestForObject()
            for _ in range(5):
                ks = [rng.choice([0, 1, 2, 3, 4]), rng.choice([0, 1, 2, 3, 4])]
                m = [models.V1ObjectMeta(namespace=names[k - 1][0], name=names[k - 1][1]) if k else None for k in ks]
                op = rng.choice(["create", "update", "delete"])
                raised = False
                try:
                    if op == "update":
                        await h.update(event.UpdateEvent(m[0], object(), m[1], object()), queue)
                    else:
                        ks = ks[:1]
                        e = (event.CreateEvent if op == "create" else event.DeleteEvent)(m[0], object())
                        await getattr(h, op)(e, queue)
                except Exception:
                    raised = True
                rec("hand", op=op, keys=[k for k in ks if k], q=await drain(), raised=raised)

        async def main():
            if rng.random() < .3:
                await hand()
            kind = source.Kind(models.V1Pod)
            kind.inject_cache(C())
            await kind.start(handler.EnqueueRequestForObject(), queue, *[P(i, p) for i, p in enumerate(preds)])
            h = got[0]
            for _ in range(20):
                op = rng.choice(["create", "update", "update", "delete"])
                k = rng.choice(names)
                v1, v2 = rng.randrange(1, 9), rng.randrange(1, 9)
                okold = op == "create" or rng.random() < .8
                oknew = op == "delete" or rng.random() < .8
                old = None if op == "create" else mk(k, v1) if okold else bad()
                new = None if op == "delete" else mk(k, v2) if oknew else bad()
                unknown = op == "delete" and rng.random() < .4
                raised = False
                stats["events"] += 1
                stats["malformed"] += not (okold and oknew)
                try:
                    if op == "create":
                        await h.on_add(new)
                    elif op == "update":
                        await h.on_update(old, new)
                    elif unknown:
                        await h.on_delete(delta_fifo.DeletedFinalStateUnknown("/".join(filter(None, k)), old))
                    else:
                        await h.on_delete(old)
                except Exception:
                    raised = True
                q = await drain()
                rec("call", op=op, key=names.index(k) + 1, old=v1 if op != "create" else 0,
                    new=v2 if op != "delete" else 0, okold=bool(okold), oknew=bool(oknew), unknown=unknown, q=q, raised=raised)

        t = loop.create_task(main())
        loop.settle()
        if not t.done():
            rec("hang")
        elif t.exception():
            raise t.exception()
    return {"cfg": {"chk": "C13", "preds": preds}, "ev": rec.ev, "stats": stats}


def resync(seed):
    """Repeated updates asked for by the informers of the manager's cache."""
    from aiok8s.controller import cache as cache_, manager
    rng = random.Random(seed * 49979687 + 3)
    types = httpfake.classes()
    with vloop.scenario(seed) as loop:
        loop.late = 1 / 1024  # as on a real loop: a timer never fires early, and always a bit late
        rec = Rec(loop)
        tys = rng.choice([[1], [1, 2], [1, 2, 3]])
        r = rng.choice([0, 2, 5, 30, 30, 600, 3600, -1])
        if r == -1:
            top = cache_.new() if rng.random() < .5 else manager.new()
        else:
            top = cache_.new(resync=r)
        cache = top.get_cache() if hasattr(top, "get_cache") else top
        kube = httpfake.SERVER = httpfake.Kube(loop, rec, rng, 0, rng.choice([0, 0, .05]))
        span = 36000 if r == -1 else r or rng.choice([100, 36000])
        for ty in tys:
            kube.slow[ty] = rng.choice([0, 0, .25])
            for i in range(rng.choice([0, 1, 2, 4])):
                kube.put(ty, (None if ty == 3 else "n", "o%d" % i))
        n = {"repeats": 0, "handlers": 0}

        class H:
            def __init__(self, ty):
                n["handlers"] += 1
                self.ty, self.h = ty, n["handlers"]

            async def on_add(self, o):
                rec("see", h=self.h, key=o.metadata.name, v=ver(o))

            async def on_update(self, old, new):
                if ver(old) == ver(new):
                    n["repeats"] += 1
                    rec("again", h=self.h, key=new.metadata.name, v=ver(new))
                else:
                    rec("see", h=self.h, key=new.metadata.name, v=ver(new))

            async def on_delete(self, o):
                rec("gone", h=self.h, key=o.metadata.name if hasattr(o, "metadata") else o.obj.metadata.name)

        async def register(ty):
            h = H(ty)
            i = await cache.get_informer(types[ty])
            rec("handler", h=h.h, ty=ty)
            await i.add_event_handler(h)

        async def run():
            try:
                await top.start()
            except asyncio.CancelledError:
                pass

        early = [ty for ty in tys if rng.random() < .7]
        for ty in early:
            for _ in range(rng.choice([1, 1, 2])):
                loop.create_task(register(ty))
        loop.settle()
        rec("start")
        task = loop.create_task(run())
        loop.advance_to(loop.time() + rng.choice([0, .5, 1]))
        for ty in tys:
            if ty not in early:
                loop.create_task(register(ty))
        loop.advance_to(loop.time() + 1)
        try:
            for _ in range(rng.choice([3, 5, 7])):
                if r != -1 and rng.random() < .4:
                    ty = rng.choice(tys)
                    key = (None if ty == 3 else "n", "o%d" % rng.randrange(5))
                    if rng.random() < .7:
                        kube.put(ty, key)
                    else:
                        kube.rm(ty, key)
                loop.advance_to(loop.time() + span * rng.choice([.3, .7, 1.5]))
            rec("end")
            task.cancel()
            loop.settle()
        except vloop.Spin:
            rec("spin")
    return {"cfg": {"resync": span if r else 0}, "ev": rec.ev, "stats": n}


class Part:
    """A runnable of the manager that ends in its own way."""

    def __init__(self, drv, i, inner=None):
        self.drv, self.i, self.inner = drv, i, inner
        self.kind = drv.rng.choice(["runs", "runs", "returns", "raises", "slow", "late"]) if inner is None else "controller"
        self.after = drv.rng.choice([0, 0, .5, 1, 3, 20])

    def inject_cache(self, cache):
        if hasattr(self.inner, "inject_cache"):
            self.inner.inject_cache(cache)

    def inject_func(self, f):
        if hasattr(self.inner, "inject_func"):
            self.inner.inject_func(f)

    async def start(self):
        d = self.drv
        d.rec("ps", i=self.i)
        how, told = "returned", False
        try:
            if self.inner is not None:
                await self.inner.start()
            elif self.kind in ("returns", "raises"):
                await asyncio.sleep(self.after)
                if self.kind == "raises":
                    raise Failure(self.i)
            else:
                await asyncio.Future()
        except asyncio.CancelledError:
            how = "cancelled"
            if self.kind == "slow":
                d.slow += 1
                try:
                    await asyncio.sleep(d.rng.choice([.25, 2]))
                finally:
                    d.slow -= 1
            if self.kind == "late":
                raise Failure(-self.i)
            raise
        except Exception as e:
            how = "raised"
            if not isinstance(e, Failure):
                raise Failure(self.i) from e
            raise
        finally:
            q = getattr(self.inner, "queue", None)
            d.rec("pe", i=self.i, how=how, shut=q is None or bool(q.shutting_down()))


class Failure(Exception):
    pass


class Broken(Exception):
    pass


class Supervised:
    def __init__(self, seed):
        self.seed, self.rng, self.slow = seed, random.Random(seed * 49979693 + 17), 0

    def go(self):
        from aiok8s.controller import controller, handler, manager, reconcile, source
        rng, drv = self.rng, self
        types = httpfake.classes()
        with vloop.scenario(self.seed) as loop:
            self.rec = rec = Rec(loop)
            kube = httpfake.SERVER = httpfake.Kube(loop, rec, rng, 0, rng.choice([0, 0, .05]))
            top = manager.new()
            n = rng.choice([1, 1, 2, 3, 4])
            tys, stats = set(), {"failures": 0, "controllers": 0}
            for ty in (1, 2):
                kube.slow[ty] = rng.choice([0, 0, .5])
                for i in range(rng.choice([0, 1, 3])):
                    kube.put(ty, ("n", "o%d" % i))

            class Source:
                """A source that fails when it is started."""
                def __init__(self, d):
                    self.d = d

                async def start(self, h, q, *p):
                    if self.d:
                        await asyncio.sleep(self.d)
                    raise Broken

            def reconciler(i):
                class R:
                    async def reconcile(self, request):
                        rec("work", i=i)
                        try:
                            if rng.random() < .5:
                                await asyncio.sleep(rng.choice([0, .5, 5]))
                        except asyncio.CancelledError:
                            if rng.random() < .3:
                                drv.slow += 1
                                try:
                                    await asyncio.sleep(rng.choice([.25, 2]))
                                finally:
                                    drv.slow -= 1
                            raise
                        finally:
                            rec("work", i=i)
                        return reconcile.Result()
                return R()

            class Proxy:
                """Where a controller registers: a part of the real manager."""
                def __init__(self, i):
                    self.i = i

                def add(self, c):
                    top.add(Part(drv, self.i, c))

                def __getattr__(self, name):
                    return getattr(top, name)

            async def build():
                for i in range(1, n + 1):
                    if rng.random() < .6:
                        top.add(Part(self, i))
                        continue
                    stats["controllers"] += 1
                    c = controller.new(Proxy(i), reconciler=reconciler(i))
                    for _ in range(rng.choice([1, 2])):
                        if rng.random() < .35:
                            await c.watch(Source(rng.choice([0, .5, 3])), handler.EnqueueRequestForObject())
                        else:
                            ty = rng.choice([1, 2])
                            if rng.random() < .7:
                                tys.add(ty)
                                await top.get_cache().get_informer(types[ty])
                            await c.watch(source.Kind(types[ty]), handler.EnqueueRequestForObject())

            async def run():
                rec("mstart")
                r = -1
                try:
                    await top.start()
                except asyncio.CancelledError:
                    r = 0
                except Failure as e:
                    r = e.args[0]
                    stats["failures"] += 1
                except Exception:
                    pass
                rec("ended", r=r)
                st["ended"] = True

            st = {"ended": False, "left": False}

            def idle():
                if st["ended"] and not st["left"]:
                    st["left"] = True
                    rec("left", n=len([t for t in asyncio.all_tasks(loop) if not t.done() and t is not task]),
                        open=len([s for s in kube.streams if not s.closed]))
                rec("idle" if not self.slow else "slow")

            b = loop.create_task(build())
            loop.settle()
            b.result()
            task = loop.create_task(run())
            try:
                for _ in range(rng.choice([0, 2, 6])):
                    z = rng.random()
                    if z < .3:
                        kube.put(rng.choice([1, 2]), ("n", "o%d" % rng.randrange(3)))
                    elif z < .4 and kube.streams:
                        rng.choice(kube.streams).end()
                    if z < .5:
                        loop.ticks(rng.choice([1, 2, 5]))
                    elif z < .6:
                        loop.settle()
                        idle()
                    else:
                        loop.advance_to(loop.time() + rng.choice([.25, .5, 1, 3, 11]), hook=idle)
                        idle()
                if rng.random() < .3:
                    loop.advance_to(loop.time() + 40, hook=idle)
                if rng.random() < .8 and any(e["k"] == "mstart" for e in rec.ev):
                    rec("stop")
                    task.cancel()
                    loop.settle()
                    idle()
                for ty in (1, 2):
                    kube.put(ty, ("n", "o1"))
                loop.advance_to(loop.time() + 60, hook=idle)
                idle()
                rec("fin")
            except vloop.Spin:
                rec("spin")
            return {"cfg": {"n": n, "types": sorted(tys)}, "ev": rec.ev[:], "stats": stats}


def supervised(seed):
    return Supervised(seed).go()
