"""Recorded wiring of the real code: configurations, parts, clients, informers (C27)."""
import asyncio
import random
from types import SimpleNamespace as NS

import vloop
from tracecheck import Rec


async def _nothing(*a):
    pass


class Part:
    """Something handed to the framework; asks for what its attributes say."""
    def __init__(self, wants, func):
        self.cache = None
        self.f = None
        if wants:
            self.inject_cache = lambda c: setattr(self, "cache", c)
        if func:
            self.inject_func = lambda f: setattr(self, "f", f)

    async def start(self, *a):
        pass

    async def reconcile(self, request):
        pass


def trace(seed):
    rng = random.Random(seed * 15487469 + 5)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)

        def run(c):
            t = loop.create_task(c)
            loop.settle()
            return t.result()

        def attempt(f):
            try:
                r = f()
                if asyncio.iscoroutine(r):
                    r = run(r)
                return "ok"
            except Exception:
                return "refused"

        for f in rng.sample([_configs, _parts, _clients, _informer], 4):
            f(seed, rng, loop, rec, run, attempt)
        return {"cfg": {"x": 0}, "ev": rec.ev, "stats": {"events": len(rec.ev)}}


def _configs(seed, rng, loop, rec, run, attempt):
    from aiok8s.leaderelection import leaderelection as le
    from aiok8s.workqueue import default_rate_limiters as rl
    vals = [-10, 0, 1, 5, 10, 12, 13, 20, 24, 50, 60, 61, 100, 120, 150]
    for _ in range(25):
        c = {"retry": rng.choice(vals), "started": True, "stopped": True, "lock": True}
        c["renew"] = rng.choice([rng.choice(vals), c["retry"] * 12 // 10, c["retry"] * 12 // 10 + 1, c["retry"] * 2])
        if c["renew"] * 10 == c["retry"] * 12 and c["retry"] not in (50, 100):
            c["renew"] += 1  # a tie that floating point does not settle
        c["lease"] = rng.choice([rng.choice(vals), c["renew"], c["renew"] + 1, c["renew"] + 10])
        if rng.random() < .3:
            c[rng.choice(["started", "stopped", "lock"])] = False
        lock = NS(identity=lambda: "me", describe=lambda: "lock")
        new = rng.choice([None, _nothing])  # nobody has to be told who leads
        rec("elector", r=attempt(lambda: le.LeaderElector(le.LeaderElectionConfig(
            lock=lock if c["lock"] else None, name="x",
            callbacks=le.LeaderCallbacks(_nothing if c["started"] else None,
                                         _nothing if c["stopped"] else None, new),
            lease_duration=c["lease"] / 10, renew_deadline=c["renew"] / 10, retry_period=c["retry"] / 10))), **c)
    for _ in range(10):
        limit, burst = rng.choice([-1000, 0, 1, 500, 1000, 10000]), rng.choice([-1000, 0, 500, 999, 1000, 1001, 5000])
        if burst % 1000 == 0 and rng.random() < .7:
            b = burst // 1000
        else:
            b = burst / 1000
        rec("bucket", limit=limit, burst=burst, r=attempt(lambda: rl.BucketRateLimiter(limit / 1000, b)))


def _parts(seed, rng, loop, rec, run, attempt):
    from aiok8s.controller import controller, manager, source
    from aiok8s.controller import cache as cachemod
    mgr = manager.new()
    parts = {}
    used = []

    def asked(cache, name):
        """Note which cache a source gets its informer from."""
        async def get_informer(obj):
            used.append(name)
            raise LookupError
        cache.get_informer = get_informer

    asked(mgr.get_cache(), "manager")

    def part():
        wants, func = rng.random() < .6, rng.random() < .5
        p = Part(wants, func)
        id_ = rec.new_id()
        rec("hand", id=id_, wants=wants, func=func, own="")
        parts[id_] = p
        return p

    def kind(own):
        k = source.Kind(int)
        id_ = rec.new_id()
        if own:
            k.own = cachemod.new()
            asked(k.own, "own")
            k.inject_cache(k.own)
        rec("hand", id=id_, wants=True, func=False, own="own" if own else "")
        parts[id_] = k
        return k

    rec("nocache", r=attempt(lambda: source.Kind(int).start(None, None)))
    for _ in range(rng.choice([1, 2])):
        c = controller.new(mgr, reconciler=part())
        for _ in range(rng.choice([1, 2])):
            s = kind(rng.random() < .4) if rng.random() < .5 else part()
            run(c.watch(s, part(), *[part() for _ in range(rng.choice([0, 1, 3]))]))
    if rng.random() < .6:
        mgr.add(part())
    for id_, p in parts.items():
        got = False
        if isinstance(p, source.Kind):
            del used[:]
            attempt(lambda: p.start(None, None))
            rec("part", id=id_, inject=False, cache="" if not used else used[0] if len(used) == 1 else "several")
            continue
        c = p.cache
        if getattr(p, "f", None):
            q = Part(True, True)
            p.f(q)
            got = q.cache is mgr.get_cache() and q.f is not None
        rec("part", id=id_, inject=got,
            cache="" if c is None else "manager" if c is mgr.get_cache() else
            "own" if c is getattr(p, "own", None) else "other")


def _clients(seed, rng, loop, rec, run, attempt):
    from aiok8s.controller import client
    from aiok8s.runtime import schema
    types = {}
    defined = set()
    before = {n: (v, v.copy()) for n, v in vars(client).items() if isinstance(v, (dict, set)) and not n.startswith("__")}
    for i in range(6):
        k = rng.choice("abc")
        gvk = schema.GroupVersionKind("g%d.x" % seed, "v1", k)
        t = type("T%d" % i, (), {}) if rng.random() < .7 else None
        types[i + 1] = t

        def define():
            type("_C%d" % i, (client._Client,), {
                "gvk": gvk, "object_type": t, "n": i + 1, "api_cls": staticmethod(lambda api_client=None: None)})
        r = attempt(define)
        rec("client", gvk=k, type=i + 1, r=r)
        defined.add(k)
    for k in sorted(defined):
        gvk = schema.GroupVersionKind("g%d.x" % seed, "v1", k)
        try:
            n = client.rest_client_for_gvk(gvk).n
            t = types[n]
            byt = client.gvk_for_object(t).kind if t is not None else k
        except Exception as e:
            n, byt = -1, "EXC:" + type(e).__name__
        rec("lookup", gvk=k, byk=n, byt=byt)
    for n, t in types.items():
        if t is not None:  # also those whose definition was refused
            try:
                r = client.gvk_for_object(t).kind
            except Exception:
                r = "none"
            rec("type", type=n, r=r)
    for v, old in before.values():  # leave nothing behind for the next trace
        v.clear()
        v.update(old)


def _informer(seed, rng, loop, rec, run, attempt):
    from aiok8s.cache import list_watch, shared_informer
    ids = [0]
    objs = []

    def obj():
        ids[0] += 1
        rec("obj", id=ids[0])
        o = NS(id=ids[0], metadata=NS(namespace="n", name="o%d" % ids[0], uid="u", resource_version=str(ids[0])))
        objs.append(o)
        return o

    feed = asyncio.Queue()

    class Watch:
        async def __aenter__(self):
            return self

        async def __aexit__(self, *a):
            pass

        def __aiter__(self):
            return self

        async def __anext__(self):
            ty, o = await feed.get()
            return {"type": ty, "object": o}

    async def list_(options):
        return NS(metadata=NS(resource_version=str(ids[0])), items=list(objs))

    async def watch(options):
        return Watch()

    seen = {}

    def handler():
        from aiok8s.cache import controller
        h = len(seen) + 1
        got = seen[h] = {"ids": [], "upd": 0, "del": 0}

        async def add(o):
            got["ids"].append(o.id)

        async def change(old, new):
            got["upd"] += 1

        async def delete(o):
            got["del"] += 1
        fs = {"add": add, "update": change, "delete": delete}
        if rng.random() < .3:
            class H:
                on_add, on_update, on_delete = staticmethod(add), staticmethod(change), staticmethod(delete)
            hd = H()
        else:
            for n in list(fs):
                if rng.random() < .5:
                    del fs[n]
            hd = controller.ResourceEventHandlerFuncs(**{n + "_func": f for n, f in fs.items()})
        rec("handler", h=h, r=attempt(lambda: inf.add_event_handler(hd)),
            **{n: n in fs for n in ("add", "update", "delete")})

    def indexers():
        names = rng.sample(["i", "j", "k"], rng.choice([0, 1, 1, 2]))
        return {n: (lambda o: ["x"]) for n in names}

    first = indexers()
    inf = shared_informer.new_shared_index_informer(list_watch.ListWatch(list_, watch), NS, 0, {})
    rec("index", names=sorted(first), r=attempt(lambda: inf.add_indexers(first)))
    for _ in range(rng.choice([0, 2])):
        obj()
    task = None
    stopped = False
    for _ in range(14):
        x = rng.random()
        if x < .3:
            ix = indexers()
            rec("index", names=sorted(ix), r=attempt(lambda: inf.add_indexers(ix)))
        elif x < .45:
            if len(seen) < 4:
                handler()
        elif x < .6:
            if task is None:
                rec("run")
                task = loop.create_task(inf.run())
                loop.advance(1)
        elif x < .8:
            if task is not None and not stopped:
                y = rng.random()
                if y < .5 or not objs:
                    feed.put_nowait(("ADDED", obj()))
                elif y < .8:
                    o = rng.choice(objs)
                    rec("changed", id=o.id)
                    feed.put_nowait(("MODIFIED", o))
                else:
                    o = objs.pop(rng.randrange(len(objs)))
                    rec("gone", id=o.id)
                    feed.put_nowait(("DELETED", o))
                loop.settle()
        elif x < .85:
            if task is not None and not stopped:
                stopped = True
                task.cancel()
                loop.advance(1)
                rec("stop")
        rec("names", names=sorted(inf.get_indexer().get_indexers()))
        if task is not None:
            for h in seen:
                rec("saw", h=h, **dict(seen[h], ids=list(seen[h]["ids"])))
            for n in inf.get_indexer().get_indexers():
                rec("by", ids=[o.id for o in run(inf.get_indexer().by_index(n, "x"))])
    if task is not None and not stopped:
        task.cancel()
        loop.settle()
    rec("names", names=sorted(inf.get_indexer().get_indexers()))
