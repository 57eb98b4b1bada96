"""Recorded uses of the real FakeClock / FakePassiveClock / RealClock (C23)."""
import asyncio
import random

import vloop
from tracecheck import Rec

NONE = -1000000


def trace(seed, steps=60):
    from aiok8s.util import clock
    rng = random.Random(seed * 7368787 + 5)
    real = rng.random() < .2
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        # times are integers in the trace; the clock gets base + n * unit
        base = rng.choice([0, 0, 1000.5]) if not real else vloop.EPOCH
        unit = rng.choice([1, .25, 2]) if not real else 1 / 64
        F = lambda n: base + n * unit
        I = lambda v: int(round((v - base) / unit))
        passive = not real and rng.random() < .15   # a clock one only reads and sets
        c = clock.RealClock() if real else (
            clock.FakePassiveClock if passive else clock.FakeClock)(F(0))
        now = [0]
        ws = []      # (id, kind, object, every)
        waits = {}
        resetted = [0]
        stats = {"steps": 0, "timers": 0, "tickers": 0, "deliveries": 0}

        def new():
            id_ = rec.new_id()
            if rng.random() < .6:
                d = rng.choice([0, 1, 2, 3, 5, 8, -1]) if not real else rng.choice([1, 2, 3, 5, 8])
                w = c.new_timer(d * unit)
                rec("timer", id=id_, d=d)
                ws.append((id_, "timer", w))
                stats["timers"] += 1
            else:
                d = rng.choice([1, 2, 3, 5, 7])
                w = c.new_ticker(d * unit)
                rec("ticker", id=id_, d=d)
                ws.append((id_, "ticker", w))
                stats["tickers"] += 1
            if real:
                loop.settle()

        def poll(id_, w):
            try:
                v = w.c().get_nowait()
                stats["deliveries"] += 1
                rec("poll", id=id_, v=I(v))
            except asyncio.QueueEmpty:
                rec("poll", id=id_, v=NONE)

        async def consumer(id_, w):
            try:
                v = await w.c().get()
            except asyncio.CancelledError:
                rec("unawait", id=id_)
                raise
            stats["deliveries"] += 1
            rec("got", id=id_, v=I(v))

        def move(to):
            stats["steps"] += 1
            if real:
                to = max(to, now[0] + 1)
                while now[0] < to:
                    now[0] += 1
                    rec("set", to=now[0], done=True)
                    loop.advance_to(now[0] * unit)
                return
            if not passive and rng.random() < .6:
                t = loop.create_task(c.step((to - now[0]) * unit))
            else:
                t = loop.create_task(c.set_time(F(to)))
            e = rec("set", to=to, done=True)
            loop.settle()
            if not t.done() or t.exception() is not None:
                e["done"] = False
            now[0] = to

        try:
            for _ in range(steps):
                x = rng.random()
                if passive:
                    x = .3 if x < .5 else .9
                if x < .2 and len(ws) < 6 or not ws and not passive:
                    new()
                elif x < .5:
                    move(now[0] + rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 6, 11, 23, -2]))
                    loop.settle()
                    rec("idle")
                elif x < .7:
                    id_, kind, w = rng.choice(ws)
                    if id_ not in waits or waits[id_].done():
                        if rng.random() < .6:
                            poll(id_, w)
                        else:
                            rec("await", id=id_)
                            waits[id_] = loop.create_task(consumer(id_, w))
                            loop.settle()
                    elif rng.random() < .5:
                        waits[id_].cancel()
                        loop.settle()
                elif x < .78:
                    id_, kind, w = rng.choice(ws)
                    r = w.stop()
                    rec("stop", id=id_, r=bool(r))
                elif x < .86 and not real:
                    id_, kind, w = rng.choice(ws)
                    if kind == "timer":
                        d = rng.choice([0, 1, 2, 4, 9])
                        rec("reset", id=id_, d=d, r=bool(w.reset(d * unit)))
                elif x < .93:
                    ts = rng.choice([0, 3, now[0]])
                    rec("now", v=I(c.now()), ts=ts, since=int(round(c.since(F(ts)) / unit)))
                elif not real:
                    rec("has", v=bool(c.has_waiters()))
            for id_, kind, w in ws:
                if id_ not in waits or waits[id_].done():
                    poll(id_, w)
            rec("idle")
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"t0": 0, "real": real}, "ev": rec.ev, "stats": stats}


def script(seed, path=None, ops=None, flow=0):
    """One script of GenClock. flow 1: everything delivered is looked at after each call."""
    import graph
    from aiok8s.util import clock
    ops, flow = graph.pick(seed, path, ops, flow)
    base, unit = [(0, 1), (1000.5, .25), (7, 2)][seed % 3]
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        I = lambda v: int(round((v - base) / unit))
        c = clock.FakeClock(base)
        now, ws = 0, {}

        def poll(i):
            try:
                rec("poll", id=i, v=I(ws[i].c().get_nowait()))
            except asyncio.QueueEmpty:
                rec("poll", id=i, v=NONE)

        try:
            for o in ops:
                op, i, d = o["op"], o.get("id"), o.get("d")
                if op == "timer":
                    ws[i] = c.new_timer(d * unit)
                    rec("timer", id=i, d=d)
                elif op == "ticker":
                    ws[i] = c.new_ticker(d * unit)
                    rec("ticker", id=i, d=d)
                elif op == "move":
                    now += d
                    t = loop.create_task(c.step(d * unit) if d % 2 else c.set_time(base + now * unit))
                    e = rec("set", to=now, done=True)
                    loop.settle()
                    e["done"] = t.done() and t.exception() is None
                elif op == "stop":
                    rec("stop", id=i, r=bool(ws[i].stop()))
                elif op == "reset":
                    rec("reset", id=i, d=d, r=bool(ws[i].reset(d * unit)))
                elif op == "poll":
                    poll(i)
                loop.settle()
                rec("now", v=I(c.now()), ts=3, since=int(round(c.since(base + 3 * unit) / unit)))
                rec("has", v=bool(c.has_waiters()))
                if flow:
                    for i in ws:
                        poll(i)
            for _ in range(2):
                for i in ws:
                    poll(i)
                now += 1
                t = loop.create_task(c.step(unit))
                rec("set", to=now, done=True)
                loop.settle()
            rec("idle")
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"t0": 0, "real": False}, "ev": rec.ev, "stats": {"scripts": 1}}
