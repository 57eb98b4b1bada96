"""Recorded histories of the real indexed store (C07)."""
import random

import vloop
from tracecheck import Rec

# index values as the index functions return them <-> numbers in traces
VALS = {1: "x", 2: "", 3: None, 4: ("t", 1), 5: 0}
KEYS = {1: "a", 2: "", 3: "ns/b", 4: "c"}


def _num(d, v):
    for n, x in d.items():
        if type(x) is type(v) and x == v:
            return n
    return -99


class Obj:
    __slots__ = ("key", "o", "iv")

    def __init__(self, key, o, iv):
        self.key, self.o, self.iv = key, o, iv


def _vals(iv):
    if 0 in iv:
        raise ValueError("an index function cannot make sense of this object")
    return (VALS[v] for v in iv)


def _srt(l):
    r = sorted(l)
    return r if len(set(r)) == len(r) else [-1] + r


def trace(seed, steps=45):
    from aiok8s.cache import index, store
    rng = random.Random(seed * 6700417 + 11)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        names = ["i", "j", "k"]
        kind = {n: rng.choice([list, list, tuple]) for n in names}

        def func(n):
            return lambda o: kind[n](_vals(o.iv[n]))

        start = names[:rng.choice([0, 1, 2, 3])]
        st = store.new_indexer(lambda o: KEYS[o.key], index.Indexers({n: func(n) for n in start}))
        ver = [0]
        nk, nv = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 5])

        odd = rng.choice([0, 0, .1])

        def iv(odd=odd):
            # an index function raises for a value of 0
            return {n: [0 if rng.random() < odd else rng.randint(1, nv) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
                    for n in names}

        def new(k, odd=odd):
            ver[0] += 1
            return Obj(k, ver[0], iv(odd))

        tasks = []
        stats = {"writes": 0, "lookups": 0}

        def ok(_):
            return []

        async def call(op, thunk, mapres, **kw):
            id_ = rec.new_id()
            rec("call", id=id_, op=op, **kw)
            try:
                r = mapres(await thunk())
            except KeyError:
                r = [-404]
            except Exception:
                r = [-500]
            rec("ret", id=id_, r=r)

        def spawn(c):
            tasks.append(loop.create_task(c))

        def take(r):
            """A caller may do what it likes with what it was given."""
            c = list(r)
            if type(r) is list and rng.random() < .2:
                r.clear()
            return c

        objs = lambda r: _srt([o.o for o in take(r)])

        def probe():
            got = []
            for k in range(1, nk + 1):
                o = st.get_by_key(KEYS[k]) if rng.random() < .5 else st.get(Obj(k, 0, {}))
                got.append({"key": k, "o": 0 if o is None else o.o})
            rec("probe", keys=_srt([_num(KEYS, k) for k in take(st.list_keys())]), objs=objs(st.list()),
                got=got, names=list(st.get_indexers()))

        def op():
            x = rng.random()
            k = rng.randint(1, nk)
            n = rng.choice(names)
            v = rng.randint(1, nv)
            if x < .30:
                o = new(k)
                name = rng.choice(["add", "update"])
                stats["writes"] += 1
                spawn(call(name, lambda: getattr(st, name)(o), ok, key=k, o=o.o, iv=o.iv))
            elif x < .45:
                o = Obj(k, 0, iv())  # the deleted object may differ from the stored one
                spawn(call("delete", lambda: st.delete(o), ok, key=k))
            elif x < .52:
                ks = [k for k in range(1, nk + 1) if rng.random() < .6]
                if ks and rng.random() < .2:
                    ks.append(ks[0])
                l = [new(k, odd if len(set(ks)) == len(ks) else 0) for k in ks]
                stats["writes"] += 1
                spawn(call("replace", lambda: st.replace(l, "1"), ok,
                           l=[{"key": o.key, "o": o.o, "iv": o.iv} for o in l]))
            elif x < .535:
                # objects without a key are refused, and nothing changes
                o = object()
                l = [new(k, 0), o]
                spawn(call("bad", rng.choice([lambda: st.add(o), lambda: st.update(o), lambda: st.delete(o),
                                              lambda: st.replace(l, "1"), lambda: st.get(o)]), ok))
            elif x < .545:
                spawn(call("resync", lambda: st.resync(), ok))
            elif x < .58:
                new_names = [n for n in names if rng.random() < .5]
                spawn(call("add_indexers",
                           lambda: st.add_indexers(index.Indexers({n: func(n) for n in new_names})),
                           ok, names=new_names))
            else:
                stats["lookups"] += 1
                y = rng.randrange(4)
                if y == 0:
                    spawn(call("by_index", lambda: st.by_index(n, VALS[v]), objs, n=n, v=v))
                elif y == 1:
                    spawn(call("index_keys", lambda: st.index_keys(n, VALS[v]),
                               lambda r: _srt([_num(KEYS, k) for k in take(r)]), n=n, v=v))
                elif y == 2:
                    o = Obj(k, 0, iv())
                    spawn(call("index", lambda: st.index(n, o), objs, n=n, iv=o.iv))
                else:
                    spawn(call("values", lambda: st.list_index_func_values(n),
                               lambda r: _srt([_num(VALS, k) for k in take(r)]), n=n))

        try:
            for _ in range(steps):
                op()
                while sum(not t.done() for t in tasks) > 4 and loop.step():
                    pass
                if rng.random() < .6:
                    loop.settle()
                    rec("idle")
                    if rng.random() < .4:
                        probe()
            loop.settle()
            rec("idle")
            probe()
            for n in names:
                for v in range(1, nv + 1):
                    spawn(call("by_index", lambda: st.by_index(n, VALS[v]), objs, n=n, v=v))
                    loop.settle()
                spawn(call("values", lambda: st.list_index_func_values(n),
                           lambda r: _srt([_num(VALS, k) for k in take(r)]), n=n))
                loop.settle()
            rec("idle")
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"names": start}, "ev": rec.ev, "stats": stats}


def script(seed, path=None, ops=None, flow=0):
    """One script of GenIndexer. flow 0: all lookups after each call; 1: only at the end."""
    import graph
    from aiok8s.cache import index, store
    ops, flow = graph.pick(seed, path, ops, flow)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        st = store.new_indexer(lambda o: KEYS[o.key],
                               index.Indexers({"i": lambda o: list(_vals(o.iv["i"]))}))

        async def call(op, thunk, mapres=lambda _: [], **kw):
            id_ = rec.new_id()
            rec("call", id=id_, op=op, **kw)
            try:
                r = mapres(await thunk())
            except KeyError:
                r = [-404]
            except Exception:
                r = [-500]
            rec("ret", id=id_, r=r)

        objs = lambda r: _srt([o.o for o in r])
        keys = lambda r: _srt([_num(KEYS, k) for k in r])

        async def lookups():
            for v in (1, 2):
                await call("by_index", lambda: st.by_index("i", VALS[v]), objs, n="i", v=v)
                await call("index_keys", lambda: st.index_keys("i", VALS[v]), keys, n="i", v=v)
            for iv in ([], [1], [1, 2]):
                o = Obj(1, 0, {"i": iv})
                await call("index", lambda: st.index("i", o), objs, n="i", iv=o.iv)
            await call("values", lambda: st.list_index_func_values("i"),
                       lambda r: _srt([_num(VALS, k) for k in r]), n="i")

        def look(full=True):
            loop.settle()
            if full:
                loop.create_task(lookups())
                loop.settle()
            rec("idle")
            got = []
            for k in (1, 2):
                o = st.get_by_key(KEYS[k])
                got.append({"key": k, "o": 0 if o is None else o.o})
            rec("probe", keys=keys(st.list_keys()), objs=objs(st.list()), got=got, names=list(st.get_indexers()))

        try:
            for c in ops:
                op = c["op"]
                if op == "replace":
                    l = [Obj(x["key"], x["o"], x["iv"]) for x in c["l"]]
                    th = lambda: st.replace(l, "1")
                else:
                    o = Obj(c["key"], c.get("o", 0), c.get("iv", {"i": [1]}))
                    th = lambda: getattr(st, op)(o)
                loop.create_task(call(op, th, **{x: c[x] for x in ("key", "o", "iv", "l") if x in c}))
                look(flow == 0)
            look()
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"names": ["i"]}, "ev": rec.ev, "stats": {"scripts": 1}}
