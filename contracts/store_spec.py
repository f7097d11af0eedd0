"""The registry: an abstract store of types by name and version, and its HTTP interface."""
from __future__ import annotations

import asyncio
import copy
import itertools
import json
import posixpath
from urllib.parse import quote

from contracts.speclib import Rejected
from recap.storage.registry import RegistryStorage
from recap.types import from_dict, to_dict

IDS = itertools.count()


class Store:
    """A store with the given content {name: {version: description}}; rival: a version that
    another client writes while a request is waiting for its payload."""

    def __init__(self, content, rival=None):
        self.content = content
        self.rival = rival
        self._root = None

    def __deepcopy__(self, memo):
        return Store(copy.deepcopy(self.content), self.rival)

    def __repr__(self):
        return f"Store({self.content}" + (f", rival={self.rival}" if self.rival else "") + ")"


# ---- native counterparts of the verifier's store model ---------------------------------
def store_url(store):
    from fsspec.implementations.memory import MemoryFileSystem as M

    if store._root is None:
        M.store.clear()
        M.pseudo_dirs[:] = [""]
        store._root = f"/verif-{next(IDS)}/registry"
        s = RegistryStorage("memory:/" + store._root)
        for n, vs in store.content.items():
            for v, d in vs.items():
                s.put(n, from_dict(d), v)
    return "memory:/" + store._root


def snapshot(store):
    """Everything in the store, read back through a new connection, and stray files."""
    from fsspec.implementations.memory import MemoryFileSystem as M

    s = RegistryStorage(store_url(store))
    out = {}
    for n in s.ls():
        out[n] = {v: s.get(n, v)[0] for v in s.versions(n)}
    stray = [k for k in M.store if not posixpath.normpath(k).startswith(store._root + "/")]
    return (out, sorted(stray))


def after(store, n, v, d):
    """The store's content once version v of n is d."""
    out = {k: {w: from_dict(x) for w, x in vs.items()} for k, vs in store.content.items()}
    if v is not None:
        out.setdefault(n, {})[v] = from_dict(d)
    return (out, [])


def known_versions(store, n):
    """The versions of n in ascending order, or None."""
    return sorted(store.content[n]) if n in store.content else None


def document(store, n, v):
    return store.content.get(n, {}).get(v)


def names(store):
    return sorted(store.content)


# ---- storage ---------------------------------------------------------------------------
def code_put(store, n, t, v):
    s = RegistryStorage(store_url(store))
    r = s.put(n, t, v)
    return (r, snapshot(store))


def code_put_new(store, n, t):
    s = RegistryStorage(store_url(store))
    r = s.put(n, t)
    return (r, snapshot(store))


def spec_put(store, n, t, v):
    """Stores the type under that version and changes nothing else."""
    if n == "":
        raise Rejected()
    return (v, after(store, n, v, to_dict(t)))


def spec_put_new(store, n, t):
    """The next free version: one more than the highest, or 1."""
    if n == "":
        raise Rejected()
    vs = known_versions(store, n)
    v = 1 if vs is None else max(vs) + 1
    return (v, after(store, n, v, to_dict(t)))


def code_get(store, n, v):
    return (RegistryStorage(store_url(store)).get(n, v), snapshot(store))


def code_get_latest(store, n):
    return (RegistryStorage(store_url(store)).get(n), snapshot(store))


def lookup(store, n, v):
    d = document(store, n, v)
    return None if d is None else (from_dict(d), v)


def spec_get(store, n, v):
    if n == "":
        raise Rejected()
    return (lookup(store, n, v), after(store, n, None, None))


def spec_get_latest(store, n):
    if n == "":
        raise Rejected()
    vs = known_versions(store, n)
    return (None if vs is None else lookup(store, n, max(vs)), after(store, n, None, None))


def code_versions(store, n):
    return (RegistryStorage(store_url(store)).versions(n), snapshot(store))


def spec_versions(store, n):
    if n == "":
        raise Rejected()
    return (known_versions(store, n), after(store, n, None, None))


def code_latest(store, n):
    return (RegistryStorage(store_url(store)).latest(n), snapshot(store))


def spec_latest(store, n):
    if n == "":
        raise Rejected()
    vs = known_versions(store, n)
    return (None if vs is None else max(vs), after(store, n, None, None))


def code_ls(store):
    return (RegistryStorage(store_url(store)).ls(), snapshot(store))


def spec_ls(store):
    return (names(store), after(store, None, None, None))


# ---- histories (bounded) -----------------------------------------------------------------
def code_history(store, ops):
    """Run a history of operations, each through a new connection; list all answers."""
    out = []
    for op in ops:
        s = RegistryStorage(store_url(store))
        try:
            if op[0] == "put":
                out.append(s.put(op[1], from_dict(op[2]), op[3]))
            elif op[0] == "get":
                out.append(s.get(op[1], op[2]))
            elif op[0] == "versions":
                out.append(s.versions(op[1]))
            elif op[0] == "latest":
                out.append(s.latest(op[1]))
            else:
                out.append(s.ls())
        except ValueError:
            out.append("rejected")
    return (out, snapshot(store))


def spec_history(store, ops):
    out = []
    for op in ops:
        if op[0] != "ls" and op[1] == "":
            out.append("rejected")
            continue
        if op[0] == "put":
            vs = store.content.setdefault(op[1], {})
            v = op[3] if op[3] is not None else max(vs, default=0) + 1
            vs[v] = op[2]
            out.append(v)
        elif op[0] == "get":
            vs = store.content.get(op[1], {})
            v = op[2] if op[2] is not None else max(vs, default=None)
            out.append((from_dict(vs[v]), v) if v in vs else None)
        elif op[0] == "versions":
            out.append(known_versions(store, op[1]))
        elif op[0] == "latest":
            out.append(max(store.content[op[1]]) if op[1] in store.content else None)
        else:
            out.append(names(store))
    return (out, after(store, None, None, None))


# ---- HTTP --------------------------------------------------------------------------------
def serve(store, method, template, n, v, ctype, body):
    """One request to the server; a rival write happens while the payload is on its way."""
    from recap.server import registry as R
    from recap.server.app import app

    url = store_url(store)
    path = template.replace("{name}", n).replace("{version}", str(v))
    headers = [] if ctype is None else [(b"content-type", ctype.encode())]
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "path": path,
             "raw_path": quote(path).encode(), "query_string": b"", "headers": headers, "client": ("c", 1),
             "server": ("s", 80), "scheme": "http", "root_path": ""}
    got = {"body": b""}

    async def receive():
        if store.rival is not None and not got.get("rival"):
            got["rival"] = True
            w, x, d = store.rival
            r = RegistryStorage(url)
            if r.get(w, x) is None:
                r.put(w, from_dict(d), x)
        return {"type": "http.request", "body": body or b"", "more_body": False}

    async def send(m):
        if m["type"] == "http.response.start":
            got["status"] = m["status"]
        else:
            got["body"] += m.get("body", b"")

    app.dependency_overrides[R.get_storage] = lambda: RegistryStorage(url)
    try:
        asyncio.run(app(scope, receive, send))
    finally:
        app.dependency_overrides.clear()
    return (got["status"], json.loads(got["body"]) if got["status"] == 200 else None)


def arrive(store):
    """The payload arrives; a rival may have written meanwhile."""
    if store.rival is not None:
        w, x, d = store.rival
        store.content.setdefault(w, {}).setdefault(x, d)


def utf8(body):
    try:
        body.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def payload(body):
    """The description in a payload: its JSON value, or else the text itself."""
    text = body.decode("utf-8")
    try:
        return json.loads(text)
    except json.JSONDecodeError:
        return text


def parse_type(d):
    """The type, or None if the description is not valid."""
    try:
        return from_dict(d)
    except Exception:
        return None


def read_type(store, ctype, body):
    """(status, type) of a request's payload."""
    if (ctype or "application/x-recap+json") != "application/x-recap+json":
        return 415, None
    arrive(store)
    if not utf8(body):
        return 400, None
    t = parse_type(payload(body))
    return (400, None) if t is None else (200, t)


def code_http_put(store, n, v, ctype, body):
    return (serve(store, "PUT", "/registry/{name}/versions/{version}", n, v, ctype, body), snapshot(store))


def spec_http_put(store, n, v, ctype, body):
    """Writes the version only if it is free at the time of writing."""
    status, t = read_type(store, ctype, body)
    if status != 200:
        return ((status, None), after(store, n, None, None))
    if document(store, n, v) is not None:
        return ((409, None), after(store, n, None, None))
    return ((200, v), after(store, n, v, to_dict(t)))


def code_http_post(store, n, ctype, body):
    return (serve(store, "POST", "/registry/{name}", n, 0, ctype, body), snapshot(store))


def spec_http_post(store, n, ctype, body):
    """Writes a version that is free at the time of writing."""
    status, t = read_type(store, ctype, body)
    if status != 200:
        return ((status, None), after(store, n, None, None))
    vs = known_versions(store, n)
    v = 1 if vs is None else max(vs) + 1
    return ((200, v), after(store, n, v, to_dict(t)))


def code_http_latest(store, n):
    return (serve(store, "GET", "/registry/{name}", n, 0, None, None), snapshot(store))


def shown(store, n, v):
    d = document(store, n, v)
    return (404, None) if d is None else (200, [to_dict(from_dict(d)), v])


def spec_http_latest(store, n):
    vs = known_versions(store, n)
    return ((404, None) if vs is None else shown(store, n, max(vs)), after(store, n, None, None))


def code_http_version(store, n, v):
    return (serve(store, "GET", "/registry/{name}/versions/{version}", n, v, None, None), snapshot(store))


def spec_http_version(store, n, v):
    return (shown(store, n, v), after(store, n, None, None))


def code_http_versions(store, n):
    return (serve(store, "GET", "/registry/{name}/versions", n, 0, None, None), snapshot(store))


def spec_http_versions(store, n):
    vs = known_versions(store, n)
    return ((404, None) if vs is None else (200, vs), after(store, n, None, None))


def code_http_ls(store):
    return (serve(store, "GET", "/registry/", "", 0, None, None), snapshot(store))


def spec_http_ls(store):
    return ((200, names(store)), after(store, None, None, None))


def routable(n):
    """Names a path segment can carry."""
    return n != "" and "/" not in n


def r_put(store, n, v, ctype, body):
    return routable(n)


def r_post(store, n, ctype, body):
    return routable(n)


def r_name(store, n):
    return routable(n)


def r_version(store, n, v):
    return routable(n)
