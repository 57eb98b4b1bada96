"""Recorded uses of the real Broadcaster (C16)."""
import asyncio
import random

import vloop
from tracecheck import Rec, exc_name


def trace(seed, steps=45, flood=False):
    from aiok8s.watch import mux
    rng = random.Random(seed * 982451653 + 1)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        drop = rng.random() < .35
        qlen = rng.choice([0, 1, 1, 2, 4, 30])
        b = mux.Broadcaster(qlen, mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL if drop
                            else mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
        n = [0]
        ws = {}
        stopped = set()
        tasks, reads = [], []
        stats = {"events": 0, "reads": 0, "watchers": 0, "stops": 0, "cancelled_reads": 0, "shutdowns": 0}
        shut = [False]

        def spawn(c):
            t = loop.create_task(c)
            tasks.append(t)
            return t

        async def request(op, thunk, got=None, **kw):
            id_ = rec.new_id()
            rec("env", op=op, id=id_, **kw)
            r = await thunk()
            rec("env", op="answered", id=id_)
            if got:
                got(id_, r)

        def new_ev():
            n[0] += 1
            stats["events"] += 1
            return n[0]

        async def send(k):
            for _ in range(k):
                v = new_ev()
                await request("act", lambda: b.action(rng.choice(["ADDED", "MODIFIED", "DELETED"]), v), n=v)

        def watch():
            stats["watchers"] += 1
            def got(id_, w):
                ws[id_] = w
            cap = qlen or (100000 if drop else 0)
            if rng.random() < .3:
                pre = [new_ev() for _ in range(rng.choice([0, 1, 2, 5]))]
                cap = max(qlen, len(pre) + 1)
                l = [{"type": "ADDED", "object": x} for x in pre]
                return spawn(request("watch", lambda: b.watch_with_prefix(l), got, cap=cap, pre=pre))
            return spawn(request("watch", b.watch, got, cap=cap, pre=[]))

        async def read(wid):
            id_ = rec.new_id()
            rec("call", id=id_, op="next", w=wid)
            try:
                e = await ws[wid].__anext__()
                r = e["object"]
                stats["reads"] += 1
            except StopAsyncIteration:
                r = 0
            except asyncio.CancelledError:
                rec("cancel", id=id_)
                raise
            except Exception as e:
                r = exc_name(e)
            rec("ret", id=id_, r=r)

        async def stop(wid):
            id_ = rec.new_id()
            rec("env", op="stop", id=id_, w=wid)
            stats["stops"] += 1
            if rng.random() < .5:
                await ws[wid].stop()
            else:
                await ws[wid].__aexit__(None, None, None)
            rec("env", op="stopped", id=id_)

        def busy():
            return sum(not t.done() for t in tasks)

        hungry = {}
        try:
            if rng.random() < .8:
                for _ in range(rng.choice([1, 1, 2])):
                    watch()
                loop.settle()
            if flood:
                spawn(send(rng.choice([24, 26, 27, 40])))
                loop.settle()
                rec("idle")
            for _ in range(steps):
                x = rng.random()
                reads[:] = [r for r in reads if not r[1].done()]
                if x < .33:
                    if not shut[0] and busy() < 5:
                        spawn(send(rng.choice([1, 1, 2, 3])))
                elif x < .40:
                    if not shut[0] and len(ws) < 4 and busy() < 4:
                        watch()
                elif x < .80:
                    if ws and busy() < 6:
                        w = rng.choice(list(ws))
                        if hungry.setdefault(w, rng.random()) > rng.random() * .8:
                            if sum(r[0] == w for r in reads) < 2:
                                reads.append((w, spawn(read(w))))
                elif x < .86:
                    if reads:
                        stats["cancelled_reads"] += 1
                        rng.choice(reads)[1].cancel()
                elif x < .90:
                    if ws and busy() < 6:
                        w = rng.choice(list(ws))
                        spawn(stop(w))
                elif x < .915:
                    if not shut[0] and rng.random() < .6:
                        shut[0] = True
                        stats["shutdowns"] += 1
                        spawn(request("shut", b.shutdown))
                y = rng.random()
                if y < .3:
                    pass
                elif y < .65:
                    loop.ticks(rng.choice([1, 1, 2, 3, 5]))
                else:
                    loop.settle()
                    rec("idle")
            loop.settle()
            rec("idle")
            # now everybody reads or goes away
            for w in list(ws):
                if rng.random() < .3:
                    spawn(stop(w))
                    loop.settle()
            rec("idle")
            for _ in range(60):
                progress = False
                for w in list(ws):
                    if not any(r[0] == w and not r[1].done() for r in reads):
                        t = spawn(read(w))
                        reads.append((w, t))
                        loop.settle()
                        last = rec.ev[-1] if rec.ev else None
                        if t.done() and not (last and last.get("r") == 0):
                            progress = True
                if not progress:
                    break
            rec("idle")
            if not shut[0]:
                spawn(request("shut", b.shutdown))
                loop.settle()
                rec("idle")
                for w in list(ws):
                    if not any(r[0] == w and not r[1].done() for r in reads):
                        spawn(read(w))
                loop.settle()
                rec("idle")
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"drop": drop}, "ev": rec.ev, "stats": stats}


def script(seed, path=None, ops=None, flow=0, drop=False, qlen=0):
    """One script of GenBroadcast. flow 0: settle after each call; 1: calls back to back."""
    import graph
    from aiok8s.watch import mux
    ops, flow = graph.pick(seed, path, ops, flow)
    rng = random.Random(seed)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        b = mux.Broadcaster(qlen, mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL if drop
                            else mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
        ws, waiting = {}, []
        rec.n = 5000  # ids of calls; requests keep the script's

        async def request(op, id_, thunk, watcher=False, **kw):
            rec("env", op=op, id=id_, **kw)
            r = await thunk()
            rec("env", op="answered", id=id_)
            if watcher:
                ws[id_] = r

        async def read(w):
            id_ = rec.new_id()
            rec("call", id=id_, op="next", w=w)
            try:
                r = (await ws[w].__anext__())["object"]
            except StopAsyncIteration:
                r = 0
            except asyncio.CancelledError:
                rec("cancel", id=id_)
                raise
            except Exception as e:
                r = exc_name(e)
            rec("ret", id=id_, r=r)
            return r

        async def stop(w):
            id_ = rec.new_id()
            rec("env", op="stop", id=id_, w=w)
            await ws[w].stop()
            rec("env", op="stopped", id=id_)

        def do(c):
            op, id_ = c["op"], c.get("id")
            if op in ("next", "stop") and c["w"] not in ws:
                loop.settle()
            if op == "act":
                loop.create_task(request("act", id_, lambda: b.action("ADDED", id_), n=id_))
            elif op == "shut":
                loop.create_task(request("shut", id_, b.shutdown))
            elif op == "watch":
                pre = c["pre"]
                cap = max(qlen, len(pre) + 1) if pre else qlen or (100000 if drop else 0)
                l = [{"type": "ADDED", "object": x} for x in pre]
                th = (lambda: b.watch_with_prefix(l)) if pre else b.watch
                loop.create_task(request("watch", id_, th, True, cap=cap, pre=pre))
            elif c["w"] not in ws:
                pass  # asked for behind an event that somebody else has to read first
            elif op == "next":
                waiting.append(loop.create_task(read(c["w"])))
            else:
                loop.create_task(stop(c["w"]))

        def look():
            loop.settle()
            rec("idle")

        try:
            graph.play(loop, rec, rng, ops, flow, do, look, waiting)
            for t in waiting:
                t.cancel()
            look()
            # everybody reads what is left
            for i in range(12):
                more = []
                for w in sorted(ws):
                    t = loop.create_task(read(w))
                    look()
                    if not t.done():
                        t.cancel()
                        look()
                    else:
                        more.append(t.result())
                if not any(more):
                    break
            if not any(c["op"] == "shut" for c in ops):
                loop.create_task(request("shut", 4999, b.shutdown))
                look()
            for w in sorted(ws):
                loop.create_task(read(w))
                look()
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"drop": drop}, "ev": rec.ev, "stats": {"scripts": 1}}
