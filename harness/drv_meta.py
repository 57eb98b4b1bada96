"""Recorded key and type computations of the real code (C24)."""
import copy
import random
from types import SimpleNamespace as NS

import vloop
from tracecheck import Rec


def odd(rng, rec, run, o, ns, name):
    """Explicit keys, objects that are none, and what a delta queue says of an object."""
    from aiok8s.api import meta
    from aiok8s.cache import store, controller, delta_fifo
    y = rng.random()
    if y < .2:
        k = rng.choice(["x", "n/p", "a/b/c", ""])
        f = rng.choice([store.meta_namespace_key_func, controller.deletion_handling_meta_namespace_key_func])
        rec("explicit", key=k, r=str(f(store.ExplicitKey(k))))
    elif y < .6:
        bad = rng.choice([None, 7, "pod", {}, {"meta": 1}, [], {"metadata": None}, NS(), NS(metadata=None)])
        kind = rng.choice(["store", "queue", "fifo", "accessor"])
        r, keys = "accepted", ["n/keep"]
        try:
            if kind == "accessor":
                a = meta.accessor(bad)
            else:
                from aiok8s.cache import fifo
                s = {"store": lambda: store.new_store(store.meta_namespace_key_func),
                     "queue": lambda: delta_fifo.DeltaFIFO(store.meta_namespace_key_func),
                     "fifo": lambda: fifo.FIFO(store.meta_namespace_key_func)}[kind]()
                run(s.add({"metadata": {"name": "keep", "namespace": "n"}}))
                op = rng.choice(["add", "update", "delete"] + ["replace"] + ["get"] * (kind != "queue"))
                try:
                    if op == "get":
                        s.get(bad)
                    elif op == "replace":
                        run(s.replace([{"metadata": {"name": "other"}}, bad], "5"))
                    else:
                        run(getattr(s, op)(bad))
                finally:
                    keys = sorted(s.list_keys())
        except store.StoreKeyError as e:
            r = "key error" if kind != "accessor" and e.obj is bad else "other"
        except Exception:
            r = "refused"
        rec("odd", kind=kind, r=r, keys=keys)
    elif y < .75:
        bad = rng.choice([None, 7, "x", {}, {"items": []}, NS(), NS(items=[])])
        try:
            meta.list_accessor(bad)
            r = "accepted"
        except Exception:
            r = "refused"
        rec("odd", kind="list", r=r, keys=["n/keep"])
    else:
        q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func)
        n = rng.choice([0, 1, 2, 3])
        os = []
        for _ in range(n):
            os.append(copy.copy(o))
            run((q.add if not os[1:] else q.update)(os[-1]))
        d = q.get(o) if rng.random() < .5 else q.get_by_key(store.meta_namespace_key_func(o))
        ids = [id(x) for x in os]
        at = lambda x: ids.index(id(x.object)) + 1 if x is not None and id(x.object) in ids else 0
        if not d:
            d = delta_fifo.Deltas()
            rec("deltas", n=n, len=len(d), oldest=at(d.oldest()), newest=at(d.newest()), key="", want="")
            return
        rec("deltas", n=n, len=len(d), oldest=at(d.oldest()), newest=at(d.newest()),
            key=str(q.key_of(d)), want=store.meta_namespace_key_func(o))


def trace(seed):
    from aiok8s.api import meta
    from aiok8s.cache import store, controller, delta_fifo
    from kubernetes_asyncio.client import models
    rng = random.Random(seed * 67867967 + 1)
    with vloop.scenario(seed) as loop:
        rec = Rec(loop)

        def run(c):
            t = loop.create_task(c)
            loop.settle()
            return t.result()

        for _ in range(30):
            ns = rng.choice(["", "n", "kube-system", "a.b"])
            name = rng.choice(["p", "q-1", "x.y.z", "n"])
            uid, rv = "u%d" % rng.randrange(9), str(rng.randrange(1, 99))
            g, v, kind = rng.choice(["", "apps", "x.io"]), rng.choice(["v1", "v2beta1"]), rng.choice(["Pod", "Foo"])
            av = g + "/" + v if g else v
            rec("mkav", g=g, v=v, av=av)
            shape = rng.choice(["typed", "dict", "ns"])
            if shape == "typed":
                o = models.V1Pod(api_version=av, kind=kind,
                                 metadata=models.V1ObjectMeta(namespace=ns or None, name=name, uid=uid,
                                                              resource_version=rv))
            elif shape == "ns":
                o = NS(api_version=av, kind=kind,
                       metadata=NS(namespace=ns or rng.choice([None, ""]), name=name, uid=uid, resource_version=rv))
            else:
                md = {"name": name, "uid": uid, "resourceVersion": rv}
                if ns:
                    md["namespace"] = ns
                elif rng.random() < .3:
                    md["namespace"] = rng.choice([None, ""])
                o = {"apiVersion": av, "kind": kind, "metadata": md}
            x = rng.random()
            if rng.random() < .2:
                odd(rng, rec, run, o, ns, name)
                continue
            if x < .3:
                fn = rng.choice(["meta_namespace_key_func", "deletion_handling_meta_namespace_key_func"])
                f = getattr(store if fn[0] == "m" else controller, fn)
                rec("key", fn=fn, ns=ns, name=name, r=str(f(o)))
            elif x < .45:
                s = store.new_store(controller.deletion_handling_meta_namespace_key_func) if rng.random() < .5 else \
                    store.new_indexer(store.meta_namespace_key_func, {})
                run(rng.choice([s.add, s.update])(o))
                rec("key", fn="store", ns=ns, name=name, r="|".join(s.list_keys()))
            elif x < .6:
                q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func)
                run(rng.choice([q.add, q.update])(o))
                rec("key", fn="queue", ns=ns, name=name, r="|".join(q.list_keys()))
                # an object missing from the next list leaves a marker with its key
                run(q.replace([], "1"))
                d = q.list()[0]
                rec("marker", key=store.meta_namespace_key_func(o),
                    r=str(controller.deletion_handling_meta_namespace_key_func(d)))
                rec("marker", key=store.meta_namespace_key_func(o), r=str(q.key_of(d)))
                # so does any marker, whatever its object is by now
                k = rng.choice(["made/for", "k", "a/b"])
                d = delta_fifo.DeletedFinalStateUnknown(k, rng.choice([o, None, {"junk": 1}]))
                f = rng.choice([controller.deletion_handling_meta_namespace_key_func, q.key_of])
                rec("marker", key=k, r=str(f(d)))
            elif x < .75:
                a = meta.accessor(o)
                if rng.random() < .4:
                    rv = str(rng.randrange(1, 99))
                    a.resource_version = rv
                    a = meta.accessor(o)
                rec("read", ns=ns, name=name, uid=uid, rv=rv,
                    r=[a.namespace or "", a.name, a.uid, a.resource_version])
            elif x < .9:
                gvk = meta.type_accessor(o).group_version_kind
                rec("gvk", g=g, v=v, kind=kind, r=[gvk.group, gvk.version, gvk.kind])
            else:
                ids = list(range(rng.randrange(4)))
                l = {"metadata": {"resourceVersion": rv}, "items": ids} if rng.random() < .5 else \
                    NS(metadata=NS(resource_version=rv), items=ids)
                if rng.random() < .4:
                    rv, ids = str(rng.randrange(1, 99)), list(range(5, 5 + rng.randrange(4)))
                    meta.set_list(l, list(ids))
                    meta.list_accessor(l).resource_version = rv
                rec("list", rv=rv, ids=ids, r=meta.list_accessor(l).resource_version, got=list(meta.extract_list(l)))
        return {"cfg": {"x": 0}, "ev": rec.ev, "stats": {}}
