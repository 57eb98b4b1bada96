"""A fake Kubernetes API server at the HTTP seam of kubernetes_asyncio: the
client library and its watch run for real above it."""
import asyncio
import json
import urllib.parse

from vloop import SCRAMBLED, dec, enc

SERVER = None  # whoever handles requests: async request(method, path, query, body, stream)


def install():
    from kubernetes_asyncio.client import rest

    class Pool:
        closed = False

        async def close(self):
            self.closed = True

    def init(self, configuration, pools_size=4, maxsize=None):
        self.pool_manager = Pool()

    async def close(self):
        pass

    async def request(self, method, url, query_params=None, headers=None, body=None, post_params=None,
                      _preload_content=True, _request_timeout=None):
        path = urllib.parse.urlsplit(url).path
        q = {k: str(v) for k, v in (query_params or [])}
        r = await SERVER.request(method, path, q, json.loads(json.dumps(body)), not _preload_content)
        return r if not _preload_content else Response(r)

    rest.RESTClientObject.__init__ = init
    rest.RESTClientObject.close = close
    rest.RESTClientObject.request = request


class Response:
    status, reason = 200, "OK"

    def __init__(self, obj):
        self.data = json.dumps(obj).encode()

    def getheader(self, name, default=None):
        return "application/json"

    def getheaders(self):
        return {}


def error(status, reason="error"):
    from kubernetes_asyncio.client.exceptions import ApiException
    e = ApiException(status=status, reason=reason)
    e.body = json.dumps({"kind": "Status", "status": "Failure", "code": status, "message": reason}).encode()
    return e


# path of the collection -> type number (1 is the only type aiok8s registers itself)
TYPES = {1: ("/api/v1/pods", "/api/v1/namespaces/%s/pods", "Pod"),
         2: ("/api/v1/configmaps", "/api/v1/namespaces/%s/configmaps", "ConfigMap"),
         3: ("/api/v1/nodes", None, "Node")}


def classes():
    """Object type per type number; registers clients for the types aiok8s lacks."""
    from kubernetes_asyncio.client import api, models
    from aiok8s.controller import client
    from aiok8s.runtime import schema
    out = {1: models.V1Pod, 2: models.V1ConfigMap, 3: models.V1Node}
    for ty, kind in ((2, "ConfigMap"), (3, "Node")):
        try:
            client.gvk_for_object(out[ty])
        except KeyError:
            def lister(self, namespace, ty=ty):
                a = self._api_client
                if ty == 3:
                    return a.list_node
                return a.list_namespaced_config_map if namespace else a.list_config_map_for_all_namespaces
            type("_%sClient" % kind, (client._Client,), {
                "gvk": schema.GroupVersionKind("", "v1", kind), "object_type": out[ty],
                "api_cls": api.CoreV1Api, "_get_lister": lister})
    return out


class Kube:
    """Objects, a log of changes, lists and watches that can fail, per type."""

    def __init__(self, loop, rec, rng, p_fault=0.0, lat=0.0, scope=None):
        self.loop, self.rec, self.rng = loop, rec, rng
        self.p_fault, self.lat, self.scope = p_fault, lat, scope
        self.rv = rng.choice([1, 7, 100])
        SCRAMBLED[0] = rng.random() < .3
        self.objs = {ty: {} for ty in TYPES}
        self.log = {ty: [] for ty in TYPES}
        self.compacted = {ty: 0 for ty in TYPES}
        self.slow = {}  # type -> extra latency of lists
        self.streams = []
        self.hold = False
        self.stats = {"lists": 0, "watches": 0, "faults": 0, "changes": 0}

    def live(self, ty):
        return [s for s in self.streams if s.ty == ty and not s.closed]

    def body(self, ty, key, v):
        ns, name = key
        m = {"name": name, "resourceVersion": enc(v), "uid": "u%d" % v}
        if ns:
            m["namespace"] = ns
        return {"apiVersion": "v1", "kind": TYPES[ty][2], "metadata": m}

    def put(self, ty, key):
        self.rv += 1
        self.stats["changes"] += 1
        how = "MODIFIED" if key in self.objs[ty] else "ADDED"
        self.objs[ty][key] = self.rv
        self.log[ty].append((self.rv, how, key))
        self.wake()
        return self.rv

    def rm(self, ty, key):
        if key not in self.objs[ty]:
            return 0
        self.rv += 1
        self.stats["changes"] += 1
        del self.objs[ty][key]
        self.log[ty].append((self.rv, "DELETED", key))
        self.wake()
        return self.rv

    def wake(self):
        if not self.hold:
            for s in self.streams:
                s.pump()

    def release(self):
        self.hold = False
        self.wake()

    def fault(self, scale=1.0):
        if self.rng.random() < self.p_fault * scale:
            self.stats["faults"] += 1
            return True
        return False

    async def delay(self):
        if self.lat:
            await asyncio.sleep(self.rng.random() * self.lat)
        elif self.rng.random() < .3:
            await asyncio.sleep(0)

    def route(self, path):
        for ty, (all_, one, _) in TYPES.items():
            if path == all_:
                return ty, None
            p = path.split("/")
            if one and len(p) == len(one.split("/")) and one % p[-2] == path:
                return ty, p[-2]
        raise error(404, "no such path " + path)

    async def request(self, method, path, query, body, stream):
        ty, ns = self.route(path)
        if "watch" in query and query["watch"] in ("True", "true", "1"):
            return await self.watch(ty, ns, query)
        return await self.list(ty, ns)

    async def list(self, ty, ns):
        self.stats["lists"] += 1
        self.rec("list", ty=ty)
        try:
            await self.delay()
            if self.slow.get(ty):
                await asyncio.sleep(self.slow[ty])
            if self.fault():
                raise self.rng.choice([error(500), error(429), ConnectionRefusedError()])
        except BaseException:
            self.rec("listed", ty=ty, ok=False)
            raise
        items = [self.body(ty, k, v) for k, v in self.objs[ty].items() if ns in (None, k[0])]
        self.rng.shuffle(items)
        self.rec("listed", ty=ty, ok=True)
        return {"kind": TYPES[ty][2] + "List", "apiVersion": "v1",
                "metadata": {"resourceVersion": enc(self.rv)}, "items": items}

    async def watch(self, ty, ns, query):
        self.stats["watches"] += 1
        await self.delay()
        if self.fault():
            raise self.rng.choice([error(500), ConnectionRefusedError()])
        rv = dec(query.get("resourceVersion") or 0)
        s = Stream(self, ty, ns, rv)
        self.streams = [x for x in self.streams if not x.closed] + [s]
        self.rec("open", ty=ty, w=s.w)
        if rv < self.compacted[ty]:
            s.q.put_nowait({"type": "ERROR", "object": {"kind": "Status", "code": 410, "reason": "Expired",
                                                        "message": "too old"}})
            s.live = False
        elif not self.hold:
            s.pump()
        return s


class Stream:
    """The response of a watch, as aiohttp would give it."""

    def __init__(self, srv, ty, ns, rv):
        self.srv, self.ty, self.ns, self.rv = srv, ty, ns, rv
        self.w = srv.rec.new_id()
        self.q = asyncio.Queue()
        self.live, self.closed = True, False
        self.content = self

    def pump(self, n=10 ** 9):
        if not self.live:
            return
        for rv, how, key in self.srv.log[self.ty]:
            if n and rv > self.rv:
                self.rv = rv
                if self.ns in (None, key[0]):
                    self.q.put_nowait({"type": how, "object": self.srv.body(self.ty, key, rv)})
                    n -= 1

    def end(self):
        if self.live:
            self.live = False
            self.q.put_nowait(self.srv.rng.choice(["eof", "eof", "raise", "garbage"]))

    async def readline(self):
        e = await self.q.get()
        if e == "eof":
            return b""
        if e == "raise":
            raise self.srv.rng.choice([asyncio.TimeoutError(), ConnectionResetError()])
        if e == "garbage":
            return b'{"kind": "Status", "code": 500}\n'
        return json.dumps(e).encode() + b"\n"

    def release(self):
        if not self.closed:
            self.closed, self.live = True, False
            self.srv.rec("closed", ty=self.ty, w=self.w)

    close = release
