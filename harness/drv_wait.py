"""Recorded runs of the real retry/poll/loop helpers (C20)."""
import asyncio
import random

import vloop
from tracecheck import Rec, UNIT


class Boom(Exception):
    pass


def trace(seed):
    from aiok8s.util import wait, retry
    rng = random.Random(seed * 2750159 + 11)
    kind = rng.choice(["backoff"] * 4 + ["step", "poll", "poll", "poll_immediate", "poll_immediate",
                       "poll_infinite", "poll_immediate_infinite", "loop", "jitter_loop", "jitter_loop",
                       "until", "jitter_until", "jitter_until", "jitter_until", "default", "jitter"])
    S = 1 / UNIT
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        loop._vnow = t0 = rng.choice([0, 0, 5])
        cfg = {"mode": "poll", "steps": 0, "dur": 0, "fn": 0, "fd": 1, "jn": 0, "jd": 1, "cap": 0,
               "imm": False, "timeout": -1, "sliding": False, "stoppable": False, "t0": t0 * UNIT}
        stats = {"attempts": 0, "stops": 0, "timeouts": 0}
        cur = {"in": False}
        p_true = rng.choice([0, .05, .2, .5])
        p_raise = rng.choice([0, 0, .05, .2])
        durs = rng.choice([[0], [0, 64], [0, 100, 700, 64], [2000, 100]])
        max_att = rng.choice([3, 8, 30])

        async def f():
            rec("in")
            stats["attempts"] += 1
            cur["in"] = True
            r = "none" if cfg["mode"] == "loop" else "false"
            try:
                d = rng.choice(durs)
                if d:
                    await asyncio.sleep(d * S)
                elif rng.random() < .3:
                    await asyncio.sleep(0)
                if rng.random() < p_raise:
                    rec("out", r="raise")
                    raise rng.choice([Boom(), ValueError("x"), KeyError("y")])
                if cfg["mode"] != "loop" and rng.random() < p_true:
                    r = "true"
                rec("out", r=r)
                return rng.choice([True, 1, "yes"]) if r == "true" else rng.choice([False, None, 0])
            except asyncio.CancelledError:
                rec("out", r="cancelled")
                raise
            finally:
                cur["in"] = False

        stop = asyncio.Event()
        b = None
        if kind == "jitter":
            for _ in range(20):
                d, (n, m) = rng.choice([0, 64, 1000, 100000]), rng.choice([(0, 1), (-1, 1), (1, 10), (1, 1), (5, 2)])
                rec("jit", d=d, n=n, m=m, r=int(round(wait.jitter(d * S, n / m) * UNIT)))
            return {"cfg": cfg, "ev": rec.ev, "stats": stats}
        if kind in ("backoff", "step", "default"):
            cfg["mode"] = "backoff"
            if kind == "default":
                b = retry.default_retry
                cfg.update(steps=5, dur=10, fn=1, fd=1, jn=1, jd=10)
            else:
                steps = rng.choice([0, 1, 2, 3, 5, 9])
                dur = rng.choice([0, 64, 128, 512, 1024])
                fn, fd = rng.choice([(0, 1), (1, 1), (2, 1), (2, 1), (3, 2), (3, 1), (1, 2)])
                jn, jd = rng.choice([(0, 1), (0, 1), (1, 10), (1, 2), (1, 1), (2, 1)])
                cap = rng.choice([0, 0, 100, 600, 1024, 4000])
                cfg.update(steps=steps, dur=dur, fn=fn, fd=fd, jn=jn, jd=jd, cap=cap)
                b = wait.Backoff(steps=steps, duration=dur * S, factor=fn / fd, jitter=jn / jd, cap=cap * S)
            if kind == "step":
                for _ in range(12):
                    rec("bstep", d=int(round(b.step() * UNIT)))
                return {"cfg": cfg, "ev": rec.ev, "stats": stats}
            thunk = lambda: wait.exponential_backoff(b, f)
        else:
            dur = rng.choice([64, 100, 512, 1024, 3000])
            cfg["dur"] = dur
            if kind in ("loop", "jitter_loop", "until", "jitter_until"):
                cfg["mode"] = "loop"
                sliding, (jn, jd) = True, (0, 1)
                if kind.startswith("jitter"):
                    sliding = rng.random() < .5
                    jn, jd = rng.choice([(0, 1), (1, 2), (1, 1), (3, 1)])
                cfg.update(sliding=sliding, jn=jn, jd=jd, stoppable="until" in kind)
                p = dur * S
                thunk = {"loop": lambda: wait.loop(f, p),
                         "jitter_loop": lambda: wait.jitter_loop(f, p, jn / jd, sliding),
                         "until": lambda: wait.until(f, p, stop),
                         "jitter_until": lambda: wait.jitter_until(f, p, jn / jd, sliding, stop)}[kind]
            else:
                cfg["imm"] = "immediate" in kind
                if "infinite" not in kind:
                    cfg["timeout"] = rng.choice([0, 64, 500, 1024, 2048, 5000, 10240])
                to = cfg["timeout"] * S
                if kind == "poll" and rng.random() < .1:
                    cfg["timeout"], to = -1, None
                thunk = {"poll": lambda: wait.poll(dur * S, to, f),
                         "poll_immediate": lambda: wait.poll_immediate(dur * S, to, f),
                         "poll_infinite": lambda: wait.poll_infinite(dur * S, f),
                         "poll_immediate_infinite": lambda: wait.poll_immediate_infinite(dur * S, f)}[kind]

        runs = 2 if kind == "backoff" and rng.random() < .3 else 1
        before = dict(b.__dict__) if b is not None else None
        evs = []
        for _ in range(runs):
            loop._vnow = float(round(loop._vnow + 0.5))
            cfg = dict(cfg, t0=rec.t())
            rec.ev = []
            stopped = False
            if cfg["stoppable"] and rng.random() < .1:
                rec("stop")
                stop.set()
                stopped = True

            async def main():
                try:
                    await thunk()
                    r = "none" if cfg["mode"] == "loop" else "ok"
                except wait.WaitTimeoutError:
                    r = "timeout"
                    stats["timeouts"] += 1
                except asyncio.CancelledError:
                    rec("end", r="cancelled")
                    raise
                except (Boom, ValueError, KeyError):
                    r = "raise"
                rec("end", r=r)

            task = loop.create_task(main())
            att0 = stats["attempts"]
            cancelled = False
            try:
                for _ in range(rng.choice([20, 60, 200])):
                    if rng.random() < .7:
                        loop.advance(rng.choice([1, 10, 64, 100, 333, 512, 1024]) * S)
                    else:
                        loop.ticks(rng.choice([1, 2, 3]))
                    if task.done():
                        break
                    x = rng.random()
                    if cfg["stoppable"] and not stopped and x < .04:
                        rec("stop")
                        stop.set()
                        stopped = True
                        stats["stops"] += 1
                    elif not cancelled and x > .98:
                        loop.settle()
                        if not task.done():
                            rec("cancel")
                            task.cancel()
                            cancelled = True
                    if stats["attempts"] - att0 > max_att and cfg["mode"] != "backoff":
                        break
                loop.settle()
                endless = cfg["timeout"] < 0 and cfg["mode"] != "backoff"
                if endless and not task.done() and not cancelled:
                    if cfg["stoppable"] and rng.random() < .7:
                        if not stopped:
                            rec("stop")
                            stop.set()
                            stats["stops"] += 1
                    else:
                        rec("cancel")
                        task.cancel()
                loop.advance(100)
                if b is not None:
                    rec("same", v=b.__dict__ == before)
                rec("fin", expect=True)
            except vloop.Spin:
                rec("spin")
            evs.append({"cfg": cfg, "ev": rec.ev, "stats": stats if not evs else {}})
        return evs
