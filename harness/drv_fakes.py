"""Recorded uses of the stand-ins for tests: FakeControllerSource and FakeWatcher (C26)."""
import asyncio
import random

import vloop
from tracecheck import Rec, exc_name

# differ in one part each
IDS = [("a", "x", "u"), ("b", "x", "u"), ("a", "y", "u"), ("a", "x", "v"), (None, "x", None)]


def _pod(k, n, raw):
    if raw:
        ns, name, uid = IDS[k - 1]
        return {"metadata": dict({"namespace": ns} if ns else {}, name=name, uid=uid, labels={"n": str(n)})}
    from kubernetes_asyncio.client.models import V1ObjectMeta, V1Pod
    ns, name, uid = IDS[k - 1]
    return V1Pod(metadata=V1ObjectMeta(namespace=ns, name=name, uid=uid, labels={"n": str(n)}))


def _show(p):
    if isinstance(p, dict):
        m = p["metadata"]
        ids = (m.get("namespace"), m.get("name"), m.get("uid"))
        n, v = m["labels"]["n"], m.get("resourceVersion")
    else:
        m = p.metadata
        ids = (m.namespace, m.name, m.uid)
        n, v = m.labels.get("n"), m.resource_version
    return "%d/%s/%s" % (IDS.index(ids) + 1 if ids in IDS else 0, n, v)


def absent(seed):
    """Changes to objects, among them a deletion of one that is not there."""
    return source(seed, steps=12, absent=True)


def source(seed, steps=40, absent=False):
    from aiok8s.cache.testing import fake_controller_source as fcs
    rng = random.Random(seed * 2654435761 + 26)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        src = fcs.FakeControllerSource()
        ws, tasks, reads = {}, [], []
        made, applied = [0], [0]
        there = set()
        shut = [False]
        stats = {"changes": 0, "silent": 0, "lists": 0, "watches": 0, "future": 0, "reads": 0,
                 "cancelled_reads": 0, "stops": 0, "shutdowns": 0}
        raw = rng.random() < .3
        keys = rng.sample(range(1, 6), rng.choice([1, 2, 3, 5]))

        def spawn(c):
            t = loop.create_task(c)
            tasks.append(t)
            return t

        def spoil(p):
            # what a reader does to its copy is nobody else's business
            if isinstance(p, dict):
                p["metadata"]["labels"]["n"] = "spoilt"
                p["metadata"]["resourceVersion"] = "0"
            elif rng.random() < .6:
                p.metadata.labels["n"] = "spoilt"
                p.metadata.resource_version = "0"
                if rng.random() < .5:
                    p.metadata.name = "other"

        async def call(op, thunk, show, **kw):
            id_ = rec.new_id()
            rec("call", id=id_, op=op, **kw)
            try:
                r = show(id_, await thunk())
            except StopAsyncIteration:
                r = "end"
            except asyncio.CancelledError:
                rec("cancel", id=id_)
                raise
            except Exception as e:
                r = exc_name(e)
            rec("ret", id=id_, r=r)

        def change():
            made[0] += 1
            stats["changes"] += 1
            k, n = rng.choice(keys), made[0]
            t = rng.choice(["ADDED", "MODIFIED", "MODIFIED", "DELETED"])
            # deleting what is not there: a known finding, shown by absent()
            if t == "DELETED" and k not in there and not absent:
                t = "ADDED"
            (there.discard if t == "DELETED" else there.add)(k)
            live = rng.random() < .75
            stats["silent"] += not live
            name = {"ADDED": "add", "MODIFIED": "modify", "DELETED": "delete"}[t] + ("" if live else "_drop_watch")
            o = _pod(k, n, raw)
            if rng.random() < .8:
                f = lambda: getattr(src, name)(o)
            else:
                f = lambda: src.change({"type": t, "object": o}, 1 if live else 0)

            def done(i, r):
                applied[0] += 1
                return "ok"
            return call("change", f, done, type=t, key=k, n=n, live=live)

        def list_():
            stats["lists"] += 1

            def show(i, l):
                from aiok8s.api import meta
                items = meta.extract_list(l)
                r = " ".join(sorted(_show(p) for p in items) + ["@" + meta.list_accessor(l).resource_version])
                for p in items:
                    spoil(p)
                return r
            return call("list", lambda: src.list({}), show)

        def watch():
            stats["watches"] += 1
            rv = rng.choice([made[0], max(0, made[0] - 1), rng.randint(0, made[0] + 1)])
            start = applied[0]  # changes that are history for it beyond doubt
            stats["future"] += rv > made[0]

            def got(i, w):
                ws[i] = (w, start)
                return "ok"
            return call("watch", lambda: src.watch({"resource_version": str(rv)}), got, rv=rv)

        def read(i):
            stats["reads"] += 1
            w, start = ws[i]

            def show(_, e):
                r = e["type"] + " " + _show(e["object"])
                o = e["object"]
                if int(o["metadata"]["resourceVersion"] if raw else o.metadata.resource_version) <= start:
                    spoil(o)
                return r
            return call("next", w.__anext__, show, w=i)

        def stop(i):
            stats["stops"] += 1
            return call("stop", ws[i][0].stop, lambda j, r: "ok", w=i)

        async def several(k):
            for _ in range(k):
                await change()

        try:
            for _ in range(steps):
                x = rng.random()
                reads[:] = [r for r in reads if not r[1].done()]
                busy = sum(not t.done() for t in tasks) - len(reads)
                if x < .4:
                    if busy < 3 and made[0] < 30 and not shut[0]:
                        spawn(several(rng.choice([1, 1, 2, 4])))
                elif x < .5:
                    if busy < 3:
                        spawn(list_())
                elif x < .62:
                    if busy < 3 and len(ws) < 4:
                        spawn(watch())
                elif x < .9:
                    if ws:
                        i = rng.choice(list(ws))
                        if not any(r[0] == i for r in reads):
                            reads.append((i, spawn(read(i))))
                elif x < .93:
                    if reads:
                        stats["cancelled_reads"] += 1
                        rng.choice(reads)[1].cancel()
                elif x < .96:
                    if ws:
                        spawn(stop(rng.choice(list(ws))))
                elif x < .97:
                    if not shut[0]:
                        shut[0] = True
                        stats["shutdowns"] += 1
                        spawn(call("shutdown", src.shutdown, lambda i, r: "ok"))
                y = rng.random()
                if y < .45:
                    loop.ticks(rng.choice([1, 1, 2, 3, 5]))
                elif y < .75:
                    loop.settle()
                    rec("idle")
            loop.settle()
            rec("idle")

            def drain():
                for i in list(ws):
                    for _ in range(60):
                        if any(r[0] == i and not r[1].done() for r in reads):
                            break
                        reads.append((i, spawn(read(i))))
                        loop.settle()
                        if rec.ev[-1].get("r") == "end":
                            break
                rec("idle")
            drain()
            spawn(list_())
            loop.settle()
            rec("idle")
            if not shut[0]:
                spawn(call("shutdown", src.shutdown, lambda i, r: "ok"))
                loop.settle()
                rec("idle")
                drain()
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"kind": "source"}, "ev": rec.ev, "stats": stats}


def watcher(seed, steps=30):
    from aiok8s.watch import watch as watchmod
    rng = random.Random(seed * 40503 + 27)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        w = watchmod.new_fake()
        stats = {"sent": 0, "reads": 0, "cancelled_reads": 0, "stops": 0, "resets": 0,
                 "cancelled_sends": 0}
        reads, sends, resets = [], [], []
        n = [0]

        async def send():
            n[0] += 1
            stats["sent"] += 1
            v, id_ = n[0], rec.new_id()
            t = rng.choice(["ADDED", "MODIFIED", "DELETED", "ERROR", "BOOKMARK"])
            rec("env", op="send", id=id_, e="%s %d" % (t, v))
            short = {"ADDED": w.add, "MODIFIED": w.modify, "DELETED": w.delete, "ERROR": w.error}.get(t)
            try:
                if short and rng.random() < .6:
                    await short(v)
                else:
                    await w.action(t, v)
            except asyncio.CancelledError:
                rec("env", op="unsend", id=id_)
                raise
            rec("env", op="sent", id=id_)

        async def sender(k):
            for _ in range(k):
                await send()

        async def call(op, thunk, show=lambda r: "ok"):
            id_ = rec.new_id()
            rec("call", id=id_, op=op)
            try:
                r = show(await thunk())
            except StopAsyncIteration:
                r = "end"
            except asyncio.CancelledError:
                rec("cancel", id=id_)
                raise
            except Exception as e:
                r = exc_name(e)
            rec("ret", id=id_, r=r)

        async def reset():
            id_ = rec.new_id()
            rec("env", op="reset", id=id_)
            await w.reset()
            rec("env", op="sent", id=id_)

        def read():
            stats["reads"] += 1
            t = loop.create_task(call("next", w.__anext__, lambda e: "%s %s" % (e["type"], e["object"])))
            reads.append(t)
            return t

        def stop():
            stats["stops"] += 1
            f = rng.choice([w.stop, lambda: w.__aexit__(None, None, None)])
            return loop.create_task(call("stop", f))

        hunger = rng.choice([.3, .6, .9])
        fickle = rng.random() < .4  # senders give up
        try:
            for _ in range(steps):
                x = rng.random()
                reads[:] = [t for t in reads if not t.done()]
                sends[:] = [t for t in sends if not t.done()]
                resets[:] = [t for t in resets if not t.done()]
                if x < .35:
                    if len(sends) < 3 and n[0] < 12:
                        sends.append(loop.create_task(sender(rng.choice([1, 1, 2, 3]))))
                elif x < .8:
                    # a reader that waits while the watcher starts over is left behind: not done
                    if not resets and len(reads) < 2 and rng.random() < hunger:
                        read()
                elif x < .88:
                    if reads:
                        stats["cancelled_reads"] += 1
                        rng.choice(reads).cancel()
                elif x < .91:
                    stop()
                elif x < .935:
                    if sends and fickle:
                        stats["cancelled_sends"] += 1
                        rng.choice(sends).cancel()
                elif x < .97:
                    if not reads and not resets:
                        stats["resets"] += 1
                        resets.append(loop.create_task(reset()))
                y = rng.random()
                if y < .4:
                    loop.ticks(rng.choice([1, 1, 2, 3, 5]))
                elif y < .75:
                    loop.settle()
                    rec("idle")
                    rec("probe", stop=w.is_stopped())
            loop.settle()
            rec("idle")
            for _ in range(40):
                if any(not t.done() for t in reads):
                    break
                t = read()
                loop.settle()
                if rec.ev[-1].get("r") == "end":
                    break
            rec("idle")
            stop()
            loop.settle()
            rec("idle")
            rec("probe", stop=w.is_stopped())
            for _ in range(2):
                read()
                loop.settle()
            rec("idle")
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"kind": "watcher"}, "ev": rec.ev, "stats": stats}


OPS = {"add": 1, "update": 1, "delete": 1, "list": 0, "list_keys": 0, "get": 1, "get_by_key": 1, "replace": 2,
       "resync": 0}


def custom(seed):
    """A store made of some functions, used by every one of its operations."""
    from aiok8s.cache import fake_custom_store
    rng = random.Random(seed * 15485867 + 3)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        given = [o for o in OPS if rng.random() < rng.choice([.3, .7, 1])]
        calls, ret, stats = [], [None], {"calls": 0, "raised": 0, "empty": 0}

        def func(op):
            def f(*args):
                calls.append({"op": op, "args": [repr(a) for a in args]})
                if isinstance(ret[0], Exception):
                    raise ret[0]
                return ret[0]
            return f

        s = fake_custom_store.FakeCustomStore(**{o + "_func": func(o) for o in given})
        for _ in range(30):
            op = rng.choice(list(OPS))
            args = [rng.choice([{"n": rng.randrange(9)}, "k%d" % rng.randrange(5), None, 0, [], ["a", "b"], ""])
                    for _ in range(OPS[op])]
            sync = op in ("list", "list_keys", "get", "get_by_key")
            ret[0] = rng.choice([ValueError("v"), KeyError("k"), [1], "x", {"m": 2}] + [None, [], 0, ""] * sync)
            if not sync and not isinstance(ret[0], Exception):
                ret[0] = None
            del calls[:]
            try:
                r = getattr(s, op)(*args)
                if not sync:
                    t = loop.create_task(r)
                    loop.settle()
                    r = t.result()
                r = repr(r)
            except Exception as e:
                r = "raised " + repr(e)
            stats["calls"] += 1
            stats["raised"] += isinstance(ret[0], Exception) and op in given
            stats["empty"] += op not in given
            rec("op", op=op, args=[repr(a) for a in args], calls=list(calls), r=r,
                ret="raised " + repr(ret[0]) if isinstance(ret[0], Exception) else repr(ret[0]))
        return {"cfg": {"given": given}, "ev": rec.ev, "stats": stats}
