"""Recorded histories of the real DeltaFIFO (C03, C04, C05)."""
import asyncio
import random

import vloop
from tracecheck import Rec, exc_name


class Obj:
    __slots__ = ("key", "o")

    def __init__(self, key, o):
        self.key, self.o = key, o


BROKEN, NOTHING = Obj("", -1), Obj("", -2)  # the lookup of a listed key raises, or finds nothing


class Known:
    """The consumer's store, as the queue sees it."""

    def __init__(self):
        self.m = {}

    def list_keys(self):
        return list(self.m)

    def get_by_key(self, k):
        o = self.m.get(k)
        if o is BROKEN:
            raise RuntimeError("lookup")
        return None if o is NOTHING else o

    def list(self):
        return list(self.m.values())


_T = {"Added": "A", "Updated": "U", "Deleted": "D", "Sync": "S"}


def enc_obj(m, o):
    """(is final-state-unknown, version or 0)."""
    f = isinstance(o, m.DeletedFinalStateUnknown)
    if f:
        o = o.obj
    if isinstance(o, m.DeletedFinalStateUnknown):
        return f, -7  # nested marker: never allowed
    return f, (0 if o is None else o.o)


def enc(m, deltas):
    r = []
    for d in deltas:
        f, o = enc_obj(m, d.object)
        r.append({"t": _T[d.type.value], "f": f, "o": o})
    return r


def trace(seed, mode="any", steps=45, chk="all"):
    from aiok8s.cache import delta_fifo as m, fifo
    rng = random.Random(seed * 104729 + 5)
    if mode == "any":
        mode = rng.choice(["follow", "follow", "free", "noknown"])
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        known = Known()
        kf = lambda x: x.key
        q = m.DeltaFIFO(kf, known if mode != "noknown" else None)
        nk = rng.choice([1, 2, 3])
        keys = ["", "a", "ns/b"][-nk:] if rng.random() < .5 else ["a", "b", "c"][:nk]
        ver = [0]
        stats = {"pops": 0, "replaces": 0, "requeues": 0, "resyncs": 0}
        server, pre = {}, []

        def new(k):
            ver[0] += 1
            return Obj(k, ver[0])

        tasks = []
        crowd = rng.random() < .15

        def spawn(c):
            t = loop.create_task(c)
            tasks.append(t)
            return t

        def setknown(k, o):
            if o is None:
                known.m.pop(k, None)
            else:
                known.m[k] = o
            rec("env", what="known", key=k, o=0 if o is None else o.o)

        slow = rng.random() < .5

        async def pop():
            id_ = rec.new_id()
            started = []
            out = {"r": "ok"}

            async def process(deltas):
                started.append(1)
                stats["pops"] += 1
                ds = enc(m, deltas)
                key = q.key_of(deltas)
                rec("ret", id=id_, r={"key": key, "ds": ds})
                how = "ok"
                if mode != "follow":
                    how = rng.choice(["ok"] * 5 + ["raise", "requeue", "requeue+raise"])
                try:
                    for _ in range(rng.choice([0, 1, 3]) if slow else 0):
                        await asyncio.sleep(0)
                    if how in ("ok",) and mode != "noknown":
                        for d in list(deltas):
                            o = d.object
                            setknown(key, None if d.type is m.DeltaType.DELETED else o)
                    if slow and rng.random() < .3:
                        await asyncio.sleep(0)
                    if how == "raise":
                        raise rng.choice([ValueError("x"), KeyError("y"), fifo.FIFOClosedError()])
                    if how == "requeue":
                        stats["requeues"] += 1
                        raise fifo.RequeueError
                    if how == "requeue+raise":
                        raise fifo.RequeueError from ValueError("z")
                except asyncio.CancelledError:
                    how = "cancel"
                    raise
                finally:
                    rec("env", what="pend", id=id_, how=how)

            rec("call", id=id_, op="pop")
            try:
                item = await q.pop(process)
                r = "ok"
            except fifo.ProcessError as e:
                item, r = e.item, "ProcessError"
            except asyncio.CancelledError:
                if started:
                    rec("env", what="popped", id=id_, r="Cancelled", ds=cur_ds(id_))
                else:
                    rec("cancel", id=id_)
                raise
            except fifo.FIFOClosedError:
                if not started:
                    rec("ret", id=id_, r={"key": "", "ds": []})
                    return
                item, r = [], "Closed"
            except Exception as e:
                if not started:
                    rec("ret", id=id_, r=exc_name(e))
                    return
                item, r = [], exc_name(e)
            rec("env", what="popped", id=id_, r=r, ds=enc(m, item))

        def cur_ds(id_):
            for e in reversed(rec.ev):
                if e["k"] == "ret" and e["id"] == id_:
                    return e["r"]["ds"]
            return []

        def probe():
            got = []
            for k in keys:
                d = q.get_by_key(k)
                if d is None:
                    d = []
                got.append({"key": k, "ds": enc(m, d)})
                if d and rng.random() < .3:
                    d.clear()  # a reader's copy: must not matter
            nw = [dict(zip("fo", enc_obj(m, o))) for o in q.list()]
            rec("probe", keys=list(q.list_keys()), got=got, newest=nw,
                synced=bool(q.has_synced()), closed=bool(q.is_closed()))

        pops = []
        first = rng.random() < .55  # a list comes first
        resync_w = .07

        def do_replace():
            stats["replaces"] += 1
            ks = [k for k in keys if rng.random() < .6] if rng.random() < .85 else []
            rng.shuffle(ks)
            l = []
            for k in ks:
                if k in server and rng.random() < .5:
                    l.append(server[k])
                else:
                    l.append(new(k))
            if l and rng.random() < .06:
                l.append(l[0])
            server.clear()
            server.update({o.key: o for o in l})
            spawn(rec.call("replace", lambda: q.replace(l, "1"),
                           l=[{"key": o.key, "o": o.o} for o in l]))

        def op():
            x = rng.random()
            k = rng.choice(keys)
            if x < .30:
                o = new(k)
                name = "add" if rng.random() < .5 else "update"
                server[k] = o
                spawn(rec.call(name, lambda: getattr(q, name)(o), key=k, o=o.o))
            elif x < .45:
                o = new(k)
                server.pop(k, None)
                if mode != "follow" and rng.random() < .3:
                    mk = m.DeletedFinalStateUnknown(k, o)
                    spawn(rec.call("deldfsu", lambda: q.delete(mk), key=k, o=o.o))
                else:
                    spawn(rec.call("delete", lambda: q.delete(o), key=k, o=o.o))
            elif x < .60:
                do_replace()
            elif x < .60 + resync_w:
                stats["resyncs"] += 1
                spawn(rec.call("resync", lambda: q.resync()))
            elif x < .70 and mode != "follow":
                o = new(k)
                ds = m.Deltas([m.Delta(m.DeltaType.ADDED, o)])
                if rng.random() < .5:
                    ds.append(m.Delta(m.DeltaType.DELETED, new(k)))
                spawn(rec.call("addif", lambda: q.add_if_not_present(ds), key=k, ds=enc(m, ds)))
            elif x < .93:
                pops[:] = [t for t in pops if not t.done()]
                if len(pops) < 2:
                    pops.append(spawn(pop()))
            elif x < .96:
                pops[:] = [t for t in pops if not t.done()]
                if pops and mode != "follow":
                    rng.choice(pops).cancel()
            elif x < .965:
                spawn(rec.call("close", lambda: q.close()))

        try:
            if mode != "noknown" and rng.random() < .3:
                # the consumer knew objects before the queue was made
                for k in keys:
                    if rng.random() < .6:
                        server[k] = known.m[k] = new(k)
                        pre.append({"key": k, "o": server[k].o})
            if first:
                do_replace()
            for _ in range(steps):
                op()
                if crowd and rng.random() < .3:
                    # something arrives and a waiting pop is cancelled at that very moment
                    while len([t for t in pops if not t.done()]) < 2:
                        pops.append(spawn(pop()))
                    if rng.random() < .7:
                        loop.settle()
                    k = rng.choice(keys)
                    o = server[k] = new(k)
                    spawn(rec.call("add", lambda: q.add(o), key=k, o=o.o))
                    loop.ticks(rng.choice([1, 1, 2, 3]))
                    live = [t for t in pops if not t.done()]
                    if live and mode != "follow":
                        rng.choice(live).cancel()
                    loop.settle()
                    rec("idle")
                    probe()
                if mode == "free" and rng.random() < .05:
                    k = rng.choice(keys)
                    setknown(k, rng.choice([None, new(k), new(k), BROKEN, NOTHING]))
                while sum(not t.done() for t in tasks) > 5 and loop.step():
                    pass
                y = rng.random()
                if y < .35:
                    pass
                elif y < .7:
                    loop.ticks(rng.choice([1, 2, 4]))
                    if rng.random() < .5:
                        probe()
                else:
                    loop.settle()
                    rec("idle")
                    probe()
            loop.settle()
            rec("idle")
            probe()
            for _ in range(12):
                pops[:] = [t for t in pops if not t.done()]
                if not q.list_keys():
                    break
                if not pops:
                    pops.append(spawn(pop()))
                loop.settle()
            rec("idle")
            probe()
            if not q.is_closed():
                spawn(rec.call("close", lambda: q.close()))
            spawn(pop())
            loop.settle()
            rec("idle")
            probe()
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"known": mode != "noknown", "follow": mode == "follow", "gated": False, "chk": chk, "pre": pre}, "ev": rec.ev,
                "stats": stats}


def script(seed, path=None, ops=None, flow=0, hasknown=True, chk="all"):
    """One script of GenDeltaFifo. flow 0: settle after each call; 1: calls back to back."""
    import graph
    from aiok8s.cache import delta_fifo as m, fifo
    ops, flow = graph.pick(seed, path, ops, flow)
    rng = random.Random(seed)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        known = Known()
        q = m.DeltaFIFO(lambda x: x.key, known if hasknown else None)
        gate = []  # the callback under way waits for its end
        waiting, at_work = [], set()

        async def pop():
            id_ = rec.new_id()
            started = []

            async def process(deltas):
                started.append(enc(m, deltas))
                key = q.key_of(deltas)
                rec("ret", id=id_, r={"key": key, "ds": started[0]})
                f = loop.create_future()
                gate.append(f)
                at_work.add(asyncio.current_task())
                how = "cancel"
                try:
                    how = await f
                    if how == "ok" and hasknown:
                        for d in list(deltas):
                            o = None if d.type is m.DeltaType.DELETED else d.object
                            if o is None:
                                known.m.pop(key, None)
                            else:
                                known.m[key] = o
                            rec("env", what="known", key=key, o=0 if o is None else o.o)
                    if how == "raise":
                        raise ValueError("x")
                    if how == "requeue":
                        raise fifo.RequeueError
                    if how == "requeue+raise":
                        raise fifo.RequeueError from ValueError("z")
                finally:
                    gate.remove(f)
                    rec("env", what="pend", id=id_, how=how)

            rec("call", id=id_, op="pop")
            try:
                item = await q.pop(process)
                r = "ok"
            except fifo.ProcessError as e:
                item, r = e.item, "ProcessError"
            except asyncio.CancelledError:
                if started:
                    rec("env", what="popped", id=id_, r="Cancelled", ds=started[0])
                else:
                    rec("cancel", id=id_)
                raise
            except fifo.FIFOClosedError:
                if not started:
                    rec("ret", id=id_, r={"key": "", "ds": []})
                    return
                item, r = [], "Closed"
            except Exception as e:
                if not started:
                    rec("ret", id=id_, r=exc_name(e))
                    return
                item, r = [], exc_name(e)
            rec("env", what="popped", id=id_, r=r, ds=enc(m, item))

        def probe():
            keys = ["a", "b"]
            got = [{"key": k, "ds": enc(m, q.get_by_key(k) or [])} for k in keys]
            rec("probe", keys=list(q.list_keys()), got=got, newest=[dict(zip("fo", enc_obj(m, o))) for o in q.list()],
                synced=bool(q.has_synced()), closed=bool(q.is_closed()))

        def do(c):
            op = c["op"]
            if op == "end":
                if not gate:
                    loop.settle()
                if gate and not gate[0].done():
                    gate[0].set_result(c["how"])
                return
            if op == "cancel":
                waiting[:] = [t for t in waiting if not t.done() and t not in at_work]
                if len(waiting) >= c["i"]:
                    waiting[c["i"] - 1].cancel()
                return
            if op == "pop":
                waiting.append(loop.create_task(pop()))
                return
            kw = {x: c[x] for x in ("key", "o", "l", "ds") if x in c}
            k = c.get("key")
            if op in ("add", "update", "delete"):
                o = Obj(k, c["o"])
                th = lambda: getattr(q, op)(o)
            elif op == "deldfsu":
                mk = m.DeletedFinalStateUnknown(k, Obj(k, c["o"]))
                th = lambda: q.delete(mk)
            elif op == "addif":
                ds = m.Deltas([m.Delta(m.DeltaType.ADDED, Obj(k, c["o"]))])
                th = lambda: q.add_if_not_present(ds)
            elif op == "replace":
                l = [Obj(x["key"], x["o"]) for x in c["l"]]
                th = lambda: q.replace(l, "1")
            else:
                th = getattr(q, op)
            waiting.append(loop.create_task(rec.call(op, th, **kw)))

        def look():
            loop.settle()
            rec("idle")
            probe()
        try:
            for c in ops:
                do(c)
                if flow == 0:
                    look()
                else:
                    loop.ticks(rng.choice([0, 0, 1, 2]))
            look()
            for _ in range(8):
                if gate:
                    do({"op": "end", "how": "ok"})
                    look()
                elif q.list_keys():
                    if not any(t.get_name() == "drain" and not t.done() for t in waiting):
                        waiting.append(loop.create_task(pop(), name="drain"))
                    look()
                else:
                    break
            if not q.is_closed():
                do({"op": "close"})
                look()
            do({"op": "pop"})
            look()
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"known": hasknown, "follow": False, "gated": True, "chk": chk, "pre": []}, "ev": rec.ev,
                "stats": {"scripts": 1}}
