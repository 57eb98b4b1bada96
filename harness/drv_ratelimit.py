"""Recorded histories of the real rate limiters (C11)."""
import math
import random

import vloop
from tracecheck import Rec

_US = 1_000_000


def _items():
    return [("a", "a"), ("b", "b"), ("c", ("x", 1)), ("d", None), ("e", 0)]


def trace(seed, kind="any"):
    from aiok8s.workqueue import default_rate_limiters as m
    rng = random.Random(seed * 31 + 7)
    if kind == "any":
        kind = rng.choice(["item", "bucket", "default", "deep", "max"])
    queued = kind != "deep" and rng.random() < .3
    if kind == "max" and not hasattr(m, "_MaxOfRateLimiters"):
        kind = "default"
    def mkitem():
        base, mx = rng.choice([(5000, 10 ** 9), (1000, 10 ** 6), (500, 3000), (250000, 250000),
                               (1000, 700), (60000000, 2000000000), (125, 64000)])
        # base * 2^-skip: many doublings until the delay is worth a microsecond
        skip = rng.choice([0, 0, 0, 5, 40, 64, 900]) if kind != "deep" else rng.choice([0, 0, 30, 900])
        return (m.ItemExponentialFailureRateLimiter(base / _US / 2 ** skip, mx / _US),
                {"kind": "item", "base": base, "max": mx, "skip": skip})

    def mkbucket():
        rate, den, burst = rng.choice([(1, 1, 1), (2, 1, 3), (10, 1, 5), (16, 1, 1), (10, 1, 100), (128, 1, 4),
                                       (3, 1, 2), (5, 2, 3), (1, 8, 2), (1, 3, 1), (1, 20, 10)])
        return (m.BucketRateLimiter(rate if den == 1 else rate / den, burst),
                {"kind": "bucket", "rate": rate, "den": den, "burst": burst})

    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        if kind in ("item", "deep"):
            lim, p = mkitem()
            parts = [p]
        elif kind == "bucket":
            lim, p = mkbucket()
            parts = [p]
        elif kind == "max":
            ls = [mkitem(), rng.choice([mkbucket, mkitem])()]
            if rng.random() < .5:
                ls.append(mkbucket())
            rng.shuffle(ls)
            lim = m._MaxOfRateLimiters(*[x[0] for x in ls])
            parts = [x[1] for x in ls]
        else:
            lim = m.default_controller_rate_limiter()
            parts = [{"kind": "item", "base": 5000, "max": 10 ** 9, "skip": 0},
                     {"kind": "bucket", "rate": 10, "den": 1, "burst": 100}]
        items = dict(_items())
        names = list(items)
        stats = {"whens": 0, "queued": 0}

        if queued:
            # the same through a rate limiting queue: the delay is what passes until the item can be had
            from aiok8s.workqueue import rate_limiting_queue
            q = rate_limiting_queue.new() if kind == "default" else rate_limiting_queue.new(lim)
            lim = q

        def delay(item):
            if not queued:
                return lim.when(item)
            t0 = loop._vnow
            a, g = loop.create_task(q.add_rate_limited(item)), loop.create_task(q.get())
            loop.settle()
            while not g.done() and not a.done() or not g.done() and loop._head() is not None and loop._vnow < t0 + 2 ** 17:
                loop._vnow = max(loop._vnow, loop._head())
                loop.settle()
            a.result()
            if not g.done() or g.result() != (item, False):
                raise LookupError
            d = loop._vnow - t0
            loop._vnow = math.ceil(loop._vnow * 1024) / 1024
            loop.create_task(q.done(item))
            loop.settle()
            return d

        def when(n, quiet=False):
            e = rec("when", x=n, us=0, u=0)
            d = delay(items[n])
            stats["whens"] += 1
            stats["queued"] += queued
            e["us"], e["u"] = int(min(round(d * _US), 2 ** 31 - 1)), int(min(round(d * 16384), 2 ** 31 - 1))

        try:
            if kind == "deep":
                # far beyond any test: the cap must hold for every n
                for _ in range(rng.choice([70, 1030, 2100])):
                    when("a")
                rec("count", x="a", n=lim.num_requeues(items["a"]))
                when("b")
                lim.forget(items["a"])
                rec("forget", x="a")
                rec("count", x="a", n=lim.num_requeues(items["a"]))
                when("a")
            else:
                w = [rng.random() + .05 for _ in names]
                burst = rng.choice([.3, .8, .95])
                for _ in range(rng.choice([60, 160])):
                    n = rng.choices(names, w)[0]
                    x = rng.random()
                    if x < .75:
                        when(n)
                    elif x < .83:
                        lim.forget(items[n])
                        rec("forget", x=n)
                    else:
                        rec("count", x=n, n=lim.num_requeues(items[n]))
                    if rng.random() > burst:
                        loop._vnow += rng.choice([1, 3, 16, 64, 100, 512, 1024, 3000, 20000]) / 1024
        except Exception as e:
            rec("exc " + type(e).__name__)
        return {"cfg": {"parts": parts}, "ev": rec.ev, "stats": stats}
