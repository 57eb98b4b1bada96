"""Drivers for the work queue family (C08, C09, C10)."""
import asyncio
import random
from typing import NamedTuple

import vloop
from tracecheck import Rec, UNIT


class Req(NamedTuple):
    ns: str
    name: str


def _item(name):
    """A fresh python object per use: equal, not identical, for most names."""
    return {
        "a": lambda: "a",
        "b": lambda: 0,
        "c": lambda: "",
        "d": lambda: None,
        "e": lambda: Req("ns", "".join(["n", "1"])),
        "f": lambda: ("x", 12345678901),
    }.get(name, lambda: name)()


_NAMES = "abcdef"


def _name(obj):
    for n in _NAMES:
        o = _item(n)
        if type(o) is type(obj) and o == obj:
            return n
    return "?" + repr(obj)


class _Limiter:
    def __init__(self):
        self.delay = 0

    def when(self, item):
        return self.delay

    def forget(self, item):
        pass

    def num_requeues(self, item):
        return 0


def trace(seed, kind="any", steps=40, focus=None, nodelay=False):
    from aiok8s.workqueue import delaying_queue, queue, rate_limiting_queue
    rng = random.Random(seed * 7919 + 13)
    if kind == "any":
        kind = rng.choice(["plain", "delay", "rate"])
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        lim = _Limiter()
        if kind == "plain":
            q = queue.new()
        elif kind == "delay":
            q = delaying_queue.new()
        else:
            q = rate_limiting_queue.new(lim)
        names = rng.sample(_NAMES, rng.choice([1, 2, 3, 4]))
        held = []
        gets = []
        others = []
        stats = {"gets": 0, "cancels": 0, "afters": 0, "shuts": 0}

        def spawn(coro, lst=others):
            t = loop.create_task(coro)
            lst.append(t)
            return t

        def mapget(r):
            item, down = r
            if down:
                return "SHUTDOWN"
            return _name(item)

        def got(r):
            if r != "SHUTDOWN":
                held.append(r)
                stats["gets"] += 1

        def probe():
            rec("probe", len=len(q), down=bool(q.shutting_down()))

        p_shut = {"shut": 0.03, "late": 0}.get(focus, 0.004)
        units = [1, 2, 3, 5, 8, 64, 512, 1024, 5000, 20480] if focus != "late" else [512, 1024]

        def durations():
            return rng.choice([0, -3] + units * 2) if rng.random() < .95 else rng.randint(1, 30000)

        def one_op():
            x = rng.random()
            if x < p_shut:
                stats["shuts"] += 1
                spawn(rec.call("shut", lambda: q.shut_down()))
            elif x < 0.30:
                n = rng.choice(names)
                spawn(rec.call("add", lambda: q.add(_item(n)), x=n))
            elif x < 0.52 and kind != "plain" and not nodelay:
                n = rng.choice(names)
                d = durations()
                stats["afters"] += 1
                if kind == "rate" and rng.random() < 0.7:
                    async def rl(n=n, d=d):
                        lim.delay = d / UNIT
                        await q.add_rate_limited(_item(n))
                    spawn(rec.call("after", rl, x=n, d=d))
                else:
                    spawn(rec.call("after", lambda: q.add_after(_item(n), d / UNIT), x=n, d=d))
            elif x < 0.74:
                gets[:] = [g for g in gets if not g.done()]
                if len(gets) < 3:
                    spawn(rec.call("get", lambda: q.get(), mapget, got), gets)
            elif x < 0.90 and held:
                n = held.pop(rng.randrange(len(held)))
                spawn(rec.call("done", lambda: q.done(_item(n)), x=n))
            elif x < 0.97:
                gets[:] = [g for g in gets if not g.done()]
                if gets:
                    stats["cancels"] += 1
                    rng.choice(gets).cancel()
            else:
                live = [t for t in others if not t.done()]
                if live and rng.random() < 0.0:
                    rng.choice(live).cancel()

        try:
            for _ in range(steps):
                for _ in range(rng.choice([1, 1, 2, 3])):
                    one_op()
                y = rng.random()
                if y < 0.45:
                    loop.ticks(rng.choice([1, 1, 2, 3, 5]))
                    if rng.random() < .5:
                        probe()
                else:
                    loop.settle()
                    rec("idle")
                    probe()
                    if y < 0.75 and kind != "plain":
                        loop.advance(rng.choice(units + [30000]) / UNIT)
                        rec("idle")
                        probe()
            loop.settle()
            rec("idle")
            loop.advance(100.0)
            rec("idle")
            probe()
            # drain what is left, then shut down and release everyone
            for _ in range(3):
                while held:
                    n = held.pop()
                    spawn(rec.call("done", lambda: q.done(_item(n)), x=n))
                    loop.settle()
                for _ in range(len(q) + 1):
                    spawn(rec.call("get", lambda: q.get(), mapget, got), gets)
                loop.settle()
                rec("idle")
            spawn(rec.call("shut", lambda: q.shut_down()))
            loop.settle()
            rec("idle")
            for n in names[:2]:
                spawn(rec.call("add", lambda: q.add(_item(n)), x=n))
                if kind != "plain" and not nodelay:
                    spawn(rec.call("after", lambda: q.add_after(_item(n), 1), x=n, d=UNIT))
            while held:
                n = held.pop()
                spawn(rec.call("done", lambda: q.done(_item(n)), x=n))
            spawn(rec.call("get", lambda: q.get(), mapget, got), gets)
            loop.advance(5.0)
            rec("idle")
            probe()
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"kind": kind}, "ev": rec.ev, "stats": stats}


def many(seed, kind="delay"):
    """More waiting items than the internal hand-off buffer, many due times."""
    from aiok8s.workqueue import delaying_queue
    rng = random.Random(seed)
    with vloop.scenario(seed, wall=60) as loop:
        rec = Rec(loop)
        q = delaying_queue.new()
        n = rng.choice([30, 60])
        names = ["i%d" % i for i in range(n)]

        def mapget(r):
            return "SHUTDOWN" if r[1] else r[0]

        # distinct due times: the order of equal due times is not promised
        ds = rng.sample([5 * k for k in range(1, 200)], n)
        for nm, d in zip(names, ds):
            loop.create_task(rec.call("after", lambda nm=nm, d=d: q.add_after(nm, d / UNIT), x=nm, d=d))
            if rng.random() < .9:
                loop.settle()
        try:
            loop.settle()
            rec("idle")
            for dt in (5, 20, 100, 100, 200, 300, 1000):
                loop.advance(dt / UNIT)
                rec("idle")
                rec("probe", len=len(q), down=q.shutting_down())
            while len(q):
                loop.create_task(rec.call("get", lambda: q.get(), mapget))
                loop.settle()
            rec("idle")
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"kind": kind}, "ev": rec.ev}


def burst(seed, kind="any", shut=False, big=False):
    """Thousands of waiting items, whole bursts added at once, and a loop that is busy now and
    then, with workers that take and finish whatever comes."""
    from aiok8s.workqueue import delaying_queue, rate_limiting_queue
    rng = random.Random(seed * 6151 + 29)
    with vloop.scenario(seed, wall=100) as loop:
        loop.MAX_ITER = 400000
        rec = Rec(loop)
        lim = _Limiter()
        if kind == "any":
            kind = rng.choice(["delay", "rate"])
        q = delaying_queue.new() if kind == "delay" else rate_limiting_queue.new(lim)
        n = rng.choice([1100, 1300] if big else [3, 12, 40, 150])
        stats = {"bursts": 0, "gets": 0, "jumps": 0}
        busy_loop = rng.random() < .3
        pend = [0]
        gets = [0]

        def ev(k, **kw):
            rec(k, **kw)

        async def worker():
            while True:
                gets[0] += 1
                item, down = await q.get()
                gets[0] -= 1
                if down:
                    ev("end")
                    return
                stats["gets"] += 1
                ev("get", x=item)
                await q.done(item)

        async def after(x, d):
            pend[0] += 1
            ev("after", x=x, d=d)
            if kind == "rate" and x % 2:
                lim.delay = d / UNIT
                await q.add_rate_limited(x)
            else:
                await q.add_after(x, d / UNIT)
            pend[0] -= 1

        def idle():
            ev("idle", pend=pend[0], len=len(q), gets=gets[0])

        def go(dt):
            loop.advance_to(loop.time() + dt / UNIT, hook=idle)
            idle()

        def addall(cnt, dup, spread, now=.03):
            stats["bursts"] += 1
            how = rng.choice(["random", "down", "up", "same"])
            ds = [rng.randint(1, spread) for _ in range(cnt)]
            if how == "down":
                ds.sort(reverse=True)
            elif how == "up":
                ds.sort()
            elif how == "same":
                ds = [spread] * cnt
            for i in range(cnt):
                if fresh and not (dup and rng.random() < dup):
                    x = fresh.pop()
                else:
                    x = rng.randint(1, n)
                loop.create_task(after(x, ds[i] if rng.random() >= now else rng.choice([0, -5])))

        workers = rng.choice([1, 1, 2])
        try:
            for _ in range(workers):
                loop.create_task(worker())
            loop.settle()
            fresh = list(range(1, n + 1))
            rng.shuffle(fresh)
            if busy_loop and rng.random() < .6:
                # they wait for later already: one delivery each, at the earlier time
                for x in range(1, n + 1):
                    loop.create_task(after(x, 90000 + rng.randint(0, 500)))
                loop.settle()
            for r in range(rng.choice([1, 2]) if big else rng.choice([2, 4, 8])):
                # with a busy loop, what is due before and after it is known for each item asked for once
                dup = 0 if busy_loop else rng.choice([0, .1, .5])
                cnt = n if r == 0 else rng.choice([1, n // 3 + 1, n])
                if busy_loop:
                    cnt = min(cnt, len(fresh))
                addall(cnt, dup, rng.choice([3, 50, 400]) if big else rng.choice([3, 50, 400, 5000, 40000]))
                if busy_loop:
                    loop.ticks(rng.choice([0, 1, 2, 3, 5]))
                    stats["jumps"] += 1
                    rec("jump", **{"from": rec.t()})
                    loop._vnow += rng.choice([1, 7, 100, 600]) / UNIT
                loop.settle()
                idle()
                if busy_loop and rng.random() < .5:
                    rec("jump", **{"from": rec.t()})
                    loop._vnow += rng.choice([1, 20, 200]) / UNIT
                go(rng.choice([1, 30, 200, 3000]))
            if not shut:
                go(100000)
            if rng.random() < .5:
                go(rng.choice([1, 100]))
            if shut and not busy_loop and rng.random() < .5:
                # some are still trying to get in
                addall(n, 0, 300, now=0)
                loop.ticks(rng.choice([0, 0, 1, 2, 3, 6]))
            rec("shut")
            loop.create_task(q.shut_down())
            loop.settle()
            idle()
            fresh = list(range(1, n + 1))
            if shut:
                addall(n, 0, 300)
                loop.settle()
                idle()
                for x in range(1, n, 7):
                    loop.create_task(q.add(x))
            loop.create_task(q.shut_down())
            loop.create_task(worker())
            go(500)
            go(20000)
            rec("fin", workers=workers + 1)
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"n": n}, "ev": rec.ev, "stats": stats}


def script(seed, path=None, ops=None, flow=0, kind="plain", unit=512):
    """One script of GenWorkQueue. flow 0: settle after each call; 1: calls back to back."""
    import graph
    from aiok8s.workqueue import delaying_queue, queue, rate_limiting_queue
    ops, flow = graph.pick(seed, path, ops, flow)
    rng = random.Random(seed)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        lim = _Limiter()
        q = {"plain": queue.new, "delay": delaying_queue.new, "rate": lambda: rate_limiting_queue.new(lim)}[kind]()
        waiting, held = [], []

        def got(r):
            if r != "SHUTDOWN":
                held.append(r)

        def get():
            waiting.append(loop.create_task(rec.call(
                "get", lambda: q.get(), lambda r: "SHUTDOWN" if r[1] else _name(r[0]), got)))

        def look():
            loop.settle()
            rec("idle")
            rec("probe", len=len(q), down=bool(q.shutting_down()))

        def do(c):
            op, x = c["op"], c.get("x")
            if op == "get":
                get()
            elif op == "add":
                loop.create_task(rec.call("add", lambda: q.add(_item(x)), x=x))
            elif op == "done":
                if x in held:  # only what somebody holds is ever given back
                    held.remove(x)
                    loop.create_task(rec.call("done", lambda: q.done(_item(x)), x=x))
            elif op == "shut":
                loop.create_task(rec.call("shut", lambda: q.shut_down()))
            elif op == "after":
                d = c["d"] * unit
                if kind == "rate":
                    async def rl():
                        lim.delay = d / UNIT
                        await q.add_rate_limited(_item(x))
                    loop.create_task(rec.call("after", rl, x=x, d=d))
                else:
                    loop.create_task(rec.call("after", lambda: q.add_after(_item(x), d / UNIT), x=x, d=d))
            elif op == "advance":
                loop.advance(c["d"] * unit / UNIT)

        try:
            graph.play(loop, rec, rng, ops, flow, do, look, waiting)
            if kind != "plain":
                loop.advance(6 * unit / UNIT)
                look()
            for _ in range(3):
                while held:
                    do({"op": "done", "x": held[0]})
                    loop.settle()
                for _ in range(len(q)):
                    get()
                look()
            do({"op": "shut"})
            get()
            look()
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"kind": kind}, "ev": rec.ev, "stats": {"scripts": 1}}
