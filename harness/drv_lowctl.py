"""Recorded runs of the controller made from a configuration, with a process
function that fails (C28)."""
import asyncio
import random

import vloop
from drv_informer import Err, Pod, Server, key, ver
from tracecheck import Rec
from vloop import dec


class Idx:
    """Known objects, kept by the process function."""

    def __init__(self):
        self.d = {}

    def list_keys(self):
        return list(self.d)

    def get_by_key(self, k):
        return self.d.get(k)


def trace(seed):
    from aiok8s.cache import controller, delta_fifo, fifo, list_watch, store
    rng = random.Random(seed * 86028157 + 13)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        shape = rng.choice(["typed", "dict"])
        srv = Server(loop, rec, rng, shape, rng.choice([0, 0, .1, .3]), rng.choice([0, 0, .05]))
        idx = Idx()
        q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, idx)
        retry = rng.random() < .75
        period = rng.choice([0, 0, 3])
        p_fail = rng.choice([0, .2, .5, .8])
        p_sick = rng.choice([0, 0, .1])
        mine, st = set(), {"ended": False, "left": False, "calm": False, "sick": False}
        stats = {"batches": 0, "failed": 0}

        def batch(item):
            out, k = [], q.key_of(item)
            for d in item:
                o, op = d.object, d.type.name.capitalize()
                if isinstance(o, delta_fifo.DeletedFinalStateUnknown):
                    k, o = o.key, o.obj
                out.append({"op": op, "v": ver(o) if o is not None else 0})
            return k, out

        async def process(item):
            k, b = batch(item)
            stats["batches"] += 1
            rec("h", key=k, b=b)
            r = "cancelled"
            try:
                z = rng.random()
                if st["sick"]:
                    z = 1   # fails at once, every time
                elif z < .2:
                    await asyncio.sleep(0)
                elif z < .4 and not st["calm"]:
                    await asyncio.sleep(rng.choice([.05, .3, 1]))
                r = "ok"
                if st["sick"] or rng.random() < p_fail:
                    stats["failed"] += 1
                    r = rng.choice(["fail", "fail", "fail", "requeue"])
                    if r == "requeue":
                        if rng.random() < .5:
                            raise fifo.RequeueError
                        raise fifo.RequeueError from Err("why")
                    raise rng.choice([Err("process"), KeyError("k"), asyncio.TimeoutError(), fifo.ProcessError(item)])
                for d in item:
                    if d.type is delta_fifo.DeltaType.DELETED:
                        idx.d.pop(k, None)
                    else:
                        idx.d[k] = d.object
            except asyncio.CancelledError:
                r = "cancelled"
                raise
            finally:
                rec("he", r=r, wait=sorted(q.list_keys()))

        def idle():
            if st["ended"] and not st["left"]:
                st["left"] = True
                rec("left", n=len([t for t in asyncio.all_tasks(loop) if not t.done() and t not in mine]),
                    open=len([s for s in srv.streams if not s.closed]), closed=bool(q.is_closed()))
            rec("idle", live=bool(srv.streams and srv.streams[-1].live and not srv.hold))

        async def run():
            rec("start")
            r = "returned"
            try:
                await c.run()
            except asyncio.CancelledError:
                r = "cancelled"
            except Exception as e:
                r = type(e).__name__
            st["ended"] = True
            rec("ended", r=r)

        def quiet():
            rec("quiet", synced=bool(c.has_synced()), rv=str(dec(c.last_sync_resource_version() or 0)),
                srv=[{"key": k, "v": ver(o)} for k, o in sorted(srv.objs.items())],
                seen=[{"key": k, "v": ver(idx.d[k])} for k in sorted(idx.d)])

        for _ in range(rng.choice([0, 1, 3, 6])):
            srv.put(rng.choice(srv.keys()))
        c = controller.new(controller.Config(
            queue=q, lister_watcher=list_watch.ListWatch(srv.list, srv.watch), process=process,
            object_type=rng.choice([None, dict if shape == "dict" else Pod]), full_resync_period=period,
            retry_on_error=retry))
        rec("before", synced=bool(c.has_synced()), rv=str(c.last_sync_resource_version()))
        task = loop.create_task(run())
        mine.add(task)
        try:
            for _ in range(rng.randrange(5, 25)):
                y = rng.random()
                if y < .6:
                    for _ in range(rng.choice([1, 1, 2, 4])):
                        (srv.put if rng.random() < .75 else srv.rm)(rng.choice(srv.keys()))
                elif y < .68:
                    srv.end()
                    if rng.random() < .3:
                        srv.compacted = srv.rv
                elif y < .75:
                    srv.hold = not srv.hold
                    srv.wake()
                z = rng.random()
                if rng.random() < p_sick:
                    st["sick"] = True
                    loop.ticks(rng.choice([3, 10, 40]))
                    st["sick"] = False
                elif z < .5:
                    loop.ticks(rng.choice([1, 2, 3, 5, 8]))
                elif z < .7:
                    loop.settle()
                    idle()
                else:
                    loop.advance_to(loop.time() + rng.choice([.125, .5, 1, 4]))
                    idle()
            if rng.random() < .75:
                srv.p_fault, srv.hold, p_fail, st["calm"] = 0, False, 0, True
                srv.wake()
                loop.advance_to(loop.time() + 120)
                idle()
                quiet()
            rec("stop")
            task.cancel()
            loop.settle()
            idle()
            srv.put("n/a")
            loop.advance_to(loop.time() + 30)
            idle()
            rec("fin")
        except vloop.Spin:
            rec("spin")
        except vloop.Hang:
            rec("hang")
        stats.update(srv.stats)
        return {"cfg": {"retry": retry}, "ev": rec.ev, "stats": stats}
