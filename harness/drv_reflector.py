"""Recorded runs of the real Reflector against a faulty API and a faulty store (C14, C22, C24)."""
import asyncio
import random
from types import SimpleNamespace as NS

import vloop
from tracecheck import Rec
from vloop import SCRAMBLED, dec, enc


class Pod:
    def __init__(self, id_, rv, ns="n", meta=True):
        self.id = id_
        if meta:
            self.metadata = NS(namespace=ns, name="p", resource_version=enc(rv), uid="u%d" % id_)
        self.api_version, self.kind = "v1", "Pod"


class Node:
    __init__ = Pod.__init__


class SubPod(Pod):
    pass


class Obj(dict):
    """dict object carrying its trace id"""
    id = 0


class Junk:
    def __init__(self, id_):
        self.id = id_


class Err(Exception):
    pass


def mk(rng, id_, rv, shape, g="", v="v1", kind="Pod", ns="n", meta=True, typed=True, hasrv=True):
    if shape == "typed":
        cls = {"Pod": Pod, "Node": Node, "SubPod": SubPod}[kind]
        return cls(id_, rv, ns, meta)
    if shape == "junk":
        return Junk(id_)
    o = Obj()
    o.id = id_
    if typed:
        o["apiVersion"] = (g + "/" if g else "") + v
        o["kind"] = kind
    if meta:
        o["metadata"] = {"name": "p", "uid": "u%d" % id_}
        if hasrv:
            o["metadata"]["resourceVersion"] = enc(rv)
        if ns:
            o["metadata"]["namespace"] = ns
    return o


def trace(seed, chk="C14", steps=60):
    from aiok8s.cache import reflector, list_watch
    from aiok8s.runtime import schema
    rng = random.Random(seed * 104395301 + 17)
    mixed = chk == "C24"
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)
        rv = [rng.choice([0, 5, 100])]
        SCRAMBLED[0] = rng.random() < .3
        ids = [0]
        stats = {"lists": 0, "watches": 0, "events": 0, "faults": 0, "store_faults": 0, "resyncs": 0,
                 "skipped_kinds": 0}
        how = rng.choice(["none", "class", "gvk", "gvk"])
        x = {"how": how, "cls": "", "g": "", "v": "", "kind": ""}
        exp = None
        listshape = rng.choice(["typed", "dict"])
        if how == "class":
            exp = rng.choice([Pod, Node, dict])
            x["cls"] = {Pod: "Pod", Node: "Node", dict: "dict"}[exp]
        elif how == "gvk":
            x.update(g=rng.choice(["", "apps", "x.io"]), v=rng.choice(["v1", "v2beta1"]), kind=rng.choice(["Pod", "Node"]))
            exp = schema.GroupVersionKind(x["g"], x["v"], x["kind"])
        p_api = rng.choice([0, .1, .3, .6]) if not mixed else rng.choice([0, 0, .1])
        p_store = rng.choice([0, 0, .1, .3]) if not mixed else 0
        lat = rng.choice([0, 0, .1, 2.0])
        slat = rng.choice([0, 0, 0, .05])
        period = rng.choice([0, 0, 1, 2.5]) if not mixed else 0
        p_rs = rng.choice([0, .2, .5])

        def new_obj(good):
            rv[0] += rng.choice([1, 1, 2, 7])
            ids[0] += 1
            kw = dict(shape="dict", g=x["g"], v=x["v"] or "v1", kind=x["kind"] or "Pod", ns=rng.choice(["n", "", "m"]),
                      meta=True, typed=True, hasrv=True)
            if how == "class" and x["cls"] != "dict":
                kw.update(shape="typed", kind=x["cls"])
            elif how == "none":
                kw["shape"] = rng.choice(["typed", "dict"])
            if not good:
                stats["skipped_kinds"] += 1
                z = rng.random()
                if z < .35:
                    kw["shape"] = rng.choice(["typed", "dict", "junk"])
                    kw["kind"] = rng.choice(["Pod", "Node"] + (["SubPod"] if kw["shape"] == "typed" else []))
                elif z < .6:
                    kw.update(rng.choice([{"g": "other"}, {"v": "v9"}, {"kind": "Node"}, {"g": "apps"}, {"g": ""}]))
                elif z < .8:
                    kw["meta"] = False
                elif z < .9:
                    kw["typed"] = False
                else:
                    kw["hasrv"] = False
            if kw["shape"] == "typed" and kw["kind"] not in ("Pod", "Node", "SubPod"):
                kw["kind"] = "Pod"
            if kw["shape"] == "typed":
                kw.update(typed=True, hasrv=True)
            o = mk(rng, ids[0], rv[0], **kw)
            cls = kw["shape"]
            if cls == "typed":
                cls = kw["kind"]
                if cls == "SubPod" and x["cls"] == "Pod":
                    cls = "Pod"     # a subclass is of the class
            d = {"id": ids[0], "rv": rv[0], "cls": cls, "shape": kw["shape"], "g": kw["g"], "v": kw["v"],
                 "kind": kw["kind"], "meta": kw["meta"] and kw["hasrv"] and kw["shape"] != "junk", "typed": kw["typed"]}
            return o, d

        class Watch:
            def __init__(self, wid):
                self.wid = wid
                self.items = asyncio.Queue()
                self.ended = None
                self.closed = False

            async def __aenter__(self):
                return self

            async def __aexit__(self, *a):
                self._close()

            def __aiter__(self):
                return self

            async def __anext__(self):
                if self.ended == "stop":
                    raise StopAsyncIteration
                k = await self.items.get()
                if k[0] == "ev":
                    rec("we", w=self.wid, ty=k[1]["type"], o=k[2])
                    return k[1]
                if k[0] == "block":
                    await asyncio.Event().wait()
                self.ended = "stop"
                rec("wend", w=self.wid, how="clean" if k[0] == "clean" else "bad")
                if k[0] == "clean":
                    raise StopAsyncIteration
                raise rng.choice([Err("stream"), ValueError("bad json"), ConnectionResetError(), asyncio.TimeoutError()])

            def _close(self):
                if not self.closed:
                    self.closed = True
                    rec("close", w=self.wid)

            async def stop(self):
                self._close()

            close = stop

        cur = {"w": None}
        feed = {"burst": []}

        async def delay(l):
            if l:
                await asyncio.sleep(rng.random() * l)
            elif rng.random() < .3:
                await asyncio.sleep(0)

        async def list_func(options):
            stats["lists"] += 1
            o = options.get("resource_version")
            rec("list", rv=dec(o) if str(o).isdigit() else -1)
            await delay(lat)
            if rng.random() < p_api:
                stats["faults"] += 1
                rec("listed", ok=False)
                raise rng.choice([Err("list"), ValueError("x"), ConnectionRefusedError()])
            items = []
            for _ in range(rng.choice([0, 1, 3])):
                items.append(new_obj(True)[0])
            rv[0] += rng.choice([0, 1])
            rec("listed", ok=True, rv=rv[0], ids=[i.id for i in items])
            if listshape == "dict":
                return {"metadata": {"resourceVersion": enc(rv[0])}, "items": items}
            return NS(metadata=NS(resource_version=enc(rv[0])), items=items)

        async def watch_func(options):
            stats["watches"] += 1
            o = options.get("resource_version")
            to = options.get("timeout_seconds")
            rec("watch", rv=dec(o) if str(o).isdigit() else -1, to=int(to) if isinstance(to, (int, float)) else -1)
            await delay(lat)
            wid = rec.new_id()
            if rng.random() < p_api:
                stats["faults"] += 1
                rec("opened", ok=False, w=wid)
                raise rng.choice([Err("watch"), ConnectionRefusedError(), ValueError("x")])
            rec("opened", ok=True, w=wid)
            w = cur["w"] = Watch(wid)
            if rng.random() < p_api * .7:
                # already broken or finished when opened
                for _ in range(rng.choice([0, 0, 1, 2])):
                    give(w)
                finish(w)
            return w

        def give(w):
            stats["events"] += 1
            o, d = new_obj(not mixed or rng.random() < .5)
            ty = rng.choice(["ADDED", "MODIFIED", "MODIFIED", "DELETED"])
            if rng.random() < .07:
                ty = "BOOKMARK"
            elif rng.random() < .05:
                ty = rng.choice(["STRANGE", "added", ""])
            w.items.put_nowait(("ev", {"type": ty, "object": o}, d))

        def finish(w):
            y = rng.random()
            if y < .45:
                w.items.put_nowait(("clean",))
            elif y < .75:
                w.items.put_nowait(("raise",))
            else:
                w.items.put_nowait(("ev", {"type": "ERROR", "object": {"code": 410, "kind": "Status"}},
                                    {"id": 0, "rv": 0, "cls": "dict", "shape": "dict", "g": "", "v": "v1",
                                     "kind": "Status", "meta": False, "typed": True}))
                w.items.put_nowait(rng.choice([("block",), ("clean",)]))
            if cur["w"] is w:
                cur["w"] = None

        class Store:
            async def _op(self, op, obj):
                rec("op", op=op, id=obj.id)
                await self._end()

            async def _end(self):
                await delay(slat)
                if rng.random() < p_store:
                    stats["store_faults"] += 1
                    rec("opend", ok=False)
                    raise rng.choice([Err("store"), KeyError("k"), ValueError("v")])
                rec("opend", ok=True)

            async def add(self, obj):
                await self._op("add", obj)

            async def update(self, obj):
                await self._op("update", obj)

            async def delete(self, obj):
                await self._op("delete", obj)

            async def replace(self, list_, resource_version):
                rec("op", op="replace", id=0, ids=[o.id for o in list_],
                    rv=dec(resource_version) if str(resource_version).isdigit() else -1)
                await self._end()

            async def resync(self):
                stats["resyncs"] += 1
                rec("rs")
                await delay(slat)
                if rng.random() < p_rs:
                    rec("rsend", ok=False)
                    raise Err("resync")
                rec("rsend", ok=True)

        r = reflector.Reflector(list_watch.ListWatch(list_func, watch_func), exp, Store(), period)
        if rng.random() < .4:
            r.should_resync = lambda: rng.random() < .6

        def probe():
            v = r.last_sync_resource_version()
            rec("rv", v=dec(v) if str(v).isdigit() else (0 if not v else -1))

        async def run():
            try:
                await r.run()
            finally:
                left = [t for t in asyncio.all_tasks() if not t.done() and t is not asyncio.current_task()]
                rec("ended", left=len(left))

        task = loop.create_task(run())
        stopped = False
        try:
            for _ in range(steps):
                y = rng.random()
                w = cur["w"]
                if w is not None and not w.closed:
                    if y < .4:
                        for _ in range(rng.choice([1, 1, 2, 4])):
                            give(w)
                    elif y < .4 + p_api * .4 + .03:
                        for _ in range(rng.choice([0, 0, 1])):
                            give(w)
                        finish(w)
                z = rng.random()
                if z < .3:
                    loop.ticks(rng.choice([1, 1, 2, 3, 5]))
                elif z < .6:
                    loop.settle()
                    rec("idle")
                    probe()
                else:
                    loop.advance(rng.choice([.125, .25, .5, 1, 1, 2, 3]))
                    rec("idle")
                    probe()
                if chk == "C22" and rng.random() < .04:
                    break
            if chk != "C22":
                if cur["w"] is not None:
                    give(cur["w"])
                loop.advance(30)
                rec("idle")
                probe()
            rec("stop")
            task.cancel()
            loop.settle()
            rec("fin")
            if cur["w"] is not None:
                give(cur["w"])
            loop.advance(20)
            rec("idle")
            rec("fin")
        except vloop.Spin:
            rec("spin")
        return {"cfg": {"chk": chk, "period": int(period * 1024), "x": x}, "ev": rec.ev, "stats": stats}
