"""Recorded histories of the real FIFO (C06)."""
import asyncio
import random

import vloop
from tracecheck import Rec, exc_name


class Obj:
    __slots__ = ("key", "o")

    def __init__(self, key, o):
        self.key, self.o = key, o


async def pop_call(rec, fifo, q, how, rng, stats=None):
    id_ = rec.new_id()
    got = []

    def process(o):
        got.append(o)
        if stats:
            stats["pops"] += 1
        if how == "raise":
            raise rng.choice([ValueError("x"), KeyError("y"), fifo.FIFOClosedError()])
        if how == "requeue":
            if stats:
                stats["requeues"] += 1
            raise fifo.RequeueError
        if how == "requeue+raise":
            raise fifo.RequeueError from ValueError("z")

    rec("call", id=id_, op="pop", how=how)
    try:
        item = await q.pop(process)
        r = "ok"
    except fifo.ProcessError as e:
        item, r = e.item, "ProcessError"
    except fifo.FIFOClosedError:
        item, r = Obj("", 0), "Closed"
    except asyncio.CancelledError:
        rec("cancel", id=id_)
        raise
    except Exception as e:
        item, r = Obj("", 0), exc_name(e)
    d = got[0].o if got else 0
    if len(got) > 1 or d != item.o:
        r = "Mismatch"
    rec("ret", id=id_, r={"d": d, "r": r})


def trace(seed, steps=50, chk="all"):
    from aiok8s.cache import fifo
    rng = random.Random(seed * 15485863 + 3)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        q = fifo.FIFO(lambda x: x.key)
        nk = rng.choice([1, 2, 3, 4])
        keys = ["", "a", "b/c", 0][:nk] if rng.random() < .3 else ["a", "b", "c", "d"][:nk]
        keys = [k for k in keys if isinstance(k, str)]
        ver = [0]
        stats = {"pops": 0, "requeues": 0, "replaces": 0}

        def new(k):
            ver[0] += 1
            return Obj(k, ver[0])

        def pop(how):
            return pop_call(rec, fifo, q, how, rng, stats)

        def probe():
            got = []
            for k in keys:
                o = q.get_by_key(k) if rng.random() < .5 else q.get(Obj(k, 0))
                got.append({"key": k, "o": o.o if o is not None else 0})
            rec("probe", keys=list(q.list_keys()), objs=[o.o for o in q.list()], got=got,
                synced=bool(q.has_synced()), closed=bool(q.is_closed()))

        pops, tasks = [], []
        crowd = rng.random() < .15

        def spawn(c):
            t = loop.create_task(c)
            tasks.append(t)
            return t

        def do_replace():
            stats["replaces"] += 1
            ks = [k for k in keys if rng.random() < .6]
            rng.shuffle(ks)
            if ks and rng.random() < .2:
                ks.append(rng.choice(ks))
            l = [new(k) for k in ks]
            spawn(rec.call("replace", lambda: q.replace(l, "1"),
                           l=[{"key": o.key, "o": o.o} for o in l]))

        def op():
            x = rng.random()
            k = rng.choice(keys)
            if x < .30:
                o = new(k)
                name = rng.choice(["add", "update"])
                spawn(rec.call(name, lambda: getattr(q, name)(o), key=k, o=o.o))
            elif x < .38:
                o = new(k)
                spawn(rec.call("addif", lambda: q.add_if_not_present(o), key=k, o=o.o))
            elif x < .52:
                spawn(rec.call("delete", lambda: q.delete(Obj(k, 0)), key=k))
            elif x < .60:
                do_replace()
            elif x < .63:
                spawn(rec.call("resync", lambda: q.resync()))
            elif x < .93:
                pops[:] = [t for t in pops if not t.done()]
                if len(pops) < 3:
                    pops.append(spawn(pop(rng.choice(["ok"] * 5 + ["raise", "requeue", "requeue+raise"]))))
            elif x < .98:
                pops[:] = [t for t in pops if not t.done()]
                if pops:
                    rng.choice(pops).cancel()
            elif x < .985:
                spawn(rec.call("close", lambda: q.close()))
            else:
                # an object without a key: refused, and nothing changes
                o = object()
                spawn(rec.call("bad", rng.choice([
                    lambda: q.add(o), lambda: q.update(o), lambda: q.delete(o), lambda: q.get(o),
                    lambda: q.add_if_not_present(o), lambda: q.replace([o], "1"),
                    lambda: q.replace([new(keys[0]), o], "1")])))

        try:
            if rng.random() < .5:
                do_replace()
            for _ in range(steps):
                op()
                if crowd and rng.random() < .3:
                    # something arrives and a waiting pop is cancelled at that very moment
                    while len([t for t in pops if not t.done()]) < 2:
                        pops.append(spawn(pop("ok")))
                    if rng.random() < .7:
                        loop.settle()
                    k = rng.choice(keys)
                    o = new(k)
                    spawn(rec.call("add", lambda: q.add(o), key=k, o=o.o))
                    loop.ticks(rng.choice([1, 1, 2, 3]))
                    live = [t for t in pops if not t.done()]
                    if live:
                        rng.choice(live).cancel()
                    loop.settle()
                    rec("idle")
                    probe()
                while sum(not t.done() for t in tasks) > 5 and loop.step():
                    pass
                y = rng.random()
                if y < .35:
                    pass
                elif y < .7:
                    loop.ticks(rng.choice([1, 2, 4]))
                    if rng.random() < .5:
                        probe()
                else:
                    loop.settle()
                    rec("idle")
                    probe()
            loop.settle()
            rec("idle")
            probe()
            for _ in range(12):
                pops[:] = [t for t in pops if not t.done()]
                if not q.list_keys():
                    break
                if not pops:
                    pops.append(spawn(pop("ok")))
                loop.settle()
            rec("idle")
            probe()
            if not q.is_closed():
                spawn(rec.call("close", lambda: q.close()))
            spawn(pop("ok"))
            loop.settle()
            rec("idle")
            probe()
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"chk": chk}, "ev": rec.ev, "stats": stats}


def script(seed, path=None, ops=None, flow=0, chk="all"):
    """One script of GenFifo. flow 0: settle after each call; 1: calls back to back."""
    import graph
    from aiok8s.cache import fifo
    ops, flow = graph.pick(seed, path, ops, flow)
    rng = random.Random(seed)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        q = fifo.FIFO(lambda x: x.key)
        keys = ["a", "b", "c"]
        waiting = []

        def look():
            loop.settle()
            rec("idle")
            got = []
            for k in keys:
                o = q.get_by_key(k)
                got.append({"key": k, "o": o.o if o is not None else 0})
            rec("probe", keys=list(q.list_keys()), objs=[o.o for o in q.list()], got=got,
                synced=bool(q.has_synced()), closed=bool(q.is_closed()))

        def do(c):
            op, k = c["op"], c.get("key")
            if op == "pop":
                waiting.append(loop.create_task(pop_call(rec, fifo, q, c["how"], rng)))
                return
            if op == "replace":
                l = [Obj(x["key"], x["o"]) for x in c["l"]]
                th = lambda: q.replace(l, "1")
            elif op in ("add", "addif", "delete"):
                o = Obj(k, c.get("o", 0))
                th = lambda: {"add": q.add, "addif": q.add_if_not_present, "delete": q.delete}[op](o)
            else:
                th = getattr(q, op)
            loop.create_task(rec.call(op, th, **{x: c[x] for x in ("key", "o", "l") if x in c}))

        try:
            graph.play(loop, rec, rng, ops, flow, do, look, waiting)
            for _ in range(8):
                if not q.list_keys():
                    break
                if all(t.done() for t in waiting):
                    do({"op": "pop", "how": "ok"})
                look()
            if not q.is_closed():
                do({"op": "close"})
            do({"op": "pop", "how": "ok"})
            look()
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"chk": chk}, "ev": rec.ev, "stats": {"scripts": 1}}
