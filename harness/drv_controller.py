"""Recorded runs of the real controller with a scripted reconciler (C12, C22)."""
import asyncio
import random

import vloop
from tracecheck import Rec


class Err(Exception):
    pass


class Cache:
    def __init__(self, d):
        self.d = d

    async def wait_for_cache_sync(self):
        if self.d:
            await asyncio.sleep(self.d)
        return True


class Manager:
    """Just what controller.new() asks of a manager."""

    def __init__(self, cache):
        self.cache, self.runnables = cache, []

    def set_fields(self, i):
        if hasattr(i, "inject_cache"):
            i.inject_cache(self.cache)
        if hasattr(i, "inject_func"):
            i.inject_func(self.set_fields)

    def add(self, r):
        self.set_fields(r)
        self.runnables.append(r)

    def get_cache(self):
        return self.cache


class Source:
    """A source handing the queue to the driver."""

    queue = None

    async def start(self, handler, queue, *predicates):
        self.queue = queue


def trace(seed, chk="C12", steps=50):
    from aiok8s.controller import controller, reconcile
    rng = random.Random(seed * 49979687 + 3)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        keys = rng.choice([1, 2, 3, 4])
        workers = rng.choice([1, 1, 2, 3])
        p_err = rng.choice([0, .1, .4, .8])
        slow = rng.choice([0, .3, .7])
        stats = {"reconciles": 0, "errors": 0, "requeues": 0, "requeue_after": 0, "arrivals": 0, "cleanups": 0}
        linger = rng.random() < .5
        names = [reconcile.Request(reconcile.NamespacedName(namespace=ns, name=n))
                 for ns, n in [("n", "a"), ("n", "b"), ("m", "a"), (None, "a")]]
        budget = [80]
        calm = [False]

        class Reconciler:
            async def reconcile(self, request):
                k = names.index(request) + 1 if request in names else 99
                rec("rs", key=k)
                stats["reconciles"] += 1
                r, d = "cancelled", 0
                try:
                    z = rng.random()
                    if z < slow:
                        await asyncio.sleep(rng.choice([.003, .05, .5, 1.25, 4]) * (1 + rng.random()))
                    elif z < .8:
                        for _ in range(rng.choice([0, 1, 2])):
                            await asyncio.sleep(0)
                    y = rng.random() if not calm[0] else 1
                    if y < p_err and budget[0] > 0:
                        budget[0] -= 1
                        if rng.random() < .6:
                            r = "raise"
                            stats["errors"] += 1
                            raise rng.choice([Err("x"), KeyError("k"), asyncio.TimeoutError(), ValueError()])
                        r = "requeue"
                        stats["requeues"] += 1
                        return reconcile.Result(requeue=True)
                    if y < p_err + .15:
                        r, s = "after", rng.choice([.01, .2, 1, 2.5, 7]) * (1 + rng.random())
                        d = round(s * 1024)
                        stats["requeue_after"] += 1
                        return reconcile.Result(requeue_after=s, requeue=rng.random() < .2)
                    if y < p_err + .18:
                        r = "junk"
                        return rng.choice([None, 7])
                    r = "ok"
                    return reconcile.Result()
                except asyncio.CancelledError:
                    if linger and rng.random() < .6:
                        stats["cleanups"] += 1
                        await asyncio.sleep(rng.choice([0, .01, .5, 3]))
                    raise
                finally:
                    rec("re", key=k, r=r, d=d)

        m = Manager(Cache(rng.choice([0, 0, .5])))
        c = controller.new(m, reconciler=Reconciler())
        c.max_concurrent_reconciles = workers
        src = Source()
        t = loop.create_task(c.watch(src, object()))
        loop.settle()
        mine = {t}
        ended, left = [False], [False]

        async def run():
            r = "?"
            try:
                await c.start()
                r = "returned"
            except asyncio.CancelledError:
                r = "cancelled"
            except Exception as e:
                r = type(e).__name__
            ended[0] = True
            rec("ended", r=r, shut=bool(src.queue is None or src.queue.shutting_down()))

        def idle():
            if ended[0] and not left[0]:
                left[0] = True
                rec("left", n=len([t for t in asyncio.all_tasks(loop) if not t.done() and t not in mine]))
            rec("idle")

        def arrive(k=None):
            if src.queue is None:
                return
            if rng.random() < .03:
                rec("junk")
                mine.add(loop.create_task(src.queue.add("not a request")))
                return
            k = k or rng.randrange(1, keys + 1)
            stats["arrivals"] += 1
            # the request counts from the moment add() is called in its task
            async def go():
                rec("add", key=k)
                await src.queue.add(names[k - 1])
                rec("added", key=k)
            mine.add(loop.create_task(go()))

        try:
            task = loop.create_task(run())
            mine.add(task)
            if rng.random() < .2:
                loop.ticks(rng.choice([1, 2, 3]))
            else:
                loop.advance(.6)
                rec("start")
            n = steps if chk == "C12" else rng.randrange(0, steps)
            for i in range(n):
                if rng.random() < .6:
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        arrive()
                z = rng.random()
                if z < .35:
                    loop.ticks(rng.choice([1, 1, 2, 3, 6]))
                elif z < .6:
                    loop.settle()
                    idle()
                else:
                    loop.advance_to(loop.time() + rng.choice([.004, .03, .25, 1, 2, 5]) * (1 + rng.random()), hook=idle)
                    idle()
                if i == 3:
                    loop.advance(.6)
                    rec("start")
            if chk == "C12":
                calm[0] = True
                loop.advance_to(loop.time() + 8, hook=idle)
                for k in range(1, keys + 1):
                    arrive(k)
                loop.advance_to(loop.time() + 30, hook=idle)
                idle()
            else:
                if rng.random() < .5:
                    arrive()
                    loop.ticks(rng.choice([0, 1, 2, 3, 4, 6]))
            rec("stop")
            task.cancel()
            loop.settle()
            idle()
            for k in range(1, keys + 1):
                arrive(k)
            loop.advance_to(loop.time() + 30, hook=idle)
            idle()
            rec("fin")
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"chk": chk, "keys": keys, "workers": workers}, "ev": rec.ev, "stats": stats}
