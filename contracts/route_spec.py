"""Requested URLs: which client they go to, what it connects to and what it is asked for."""
from __future__ import annotations

import inspect
import re
import sqlite3
from contextlib import contextmanager
from unittest import mock
from urllib.parse import parse_qs, unquote

import recap.clients as C
from contracts.speclib import Rejected
from contracts.url_spec import Url, segments, split, text

# What a client connects with; anything else is not the client's business.
KEPT = {
    "PostgresqlClient": ("dbname", "host", "port", "user", "password", "sslmode", "application_name", "junk"),
    "MysqlClient": ("database", "host", "port", "user", "password", "charset", "junk"),
    "SnowflakeClient": ("account", "database", "schema", "user", "password", "warehouse"),
    "SQLiteClient": ("database", "timeout", "uri", "junk"),
    "BigQueryClient": (),
    "ConfluentRegistryClient": ("url", "ssl.ca.location", "junk"),
    "HiveMetastoreClient": ("host", "port"),
    "FilesystemClient": ("scheme",),
}
NAMES = {"postgresql": "PostgresqlClient", "mysql": "MysqlClient", "snowflake": "SnowflakeClient", "sqlite": "SQLiteClient",
         "bigquery": "BigQueryClient", "http+csr": "ConfluentRegistryClient", "https+csr": "ConfluentRegistryClient",
         "thrift+hms": "HiveMetastoreClient", "file": "FilesystemClient"}


class Connection:
    def __init__(self, kwargs):
        self.kwargs = kwargs

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return None


@contextmanager
def connectors(opened):
    """Connections that only record what they were opened with."""
    import confluent_kafka.schema_registry
    import google.cloud.bigquery
    import mysql.connector
    import psycopg2
    import pymetastore.metastore
    import snowflake.connector

    import recap.clients.confluent_registry

    def record(*args, **kwargs):
        if args:
            kwargs = args[0] if isinstance(args[0], dict) else dict(zip(("host", "port"), args), **kwargs)
        opened.append(kwargs)
        return Connection(kwargs)

    spots = [(psycopg2, "connect"), (mysql.connector, "connect"), (snowflake.connector, "connect"), (sqlite3, "connect"), (google.cloud.bigquery, "Client"),
             (pymetastore.metastore.HMS, "create"), (confluent_kafka.schema_registry, "SchemaRegistryClient"), (recap.clients.confluent_registry, "SchemaRegistryClient")]
    patches = [mock.patch.object(o, n, record) for o, n in spots if hasattr(o, n)]
    for p in patches:
        p.start()
    try:
        yield
    finally:
        for p in patches:
            p.stop()


def kept(client, opened):
    """The part of the arguments that matters."""
    name = type(client).__name__
    kwargs = opened[0] if opened else {"scheme": getattr(client, "scheme", None)}
    return {k: kwargs[k] for k in KEPT[name] if kwargs.get(k) not in (None, "")}


def accepts(client, method, args):
    inspect.signature(getattr(client, method)).bind(*args)


def r_route(u, method):
    """The URL is written the way its parts are read back."""
    q = parse_qs(u.query)
    if "port" in q and not re.search(r":\d+$", u.hostport) or "host" in q and not u.hostport or {"paths", "path", "url", "query"} & set(q) and not u.path.strip("/"):
        return False
    try:
        return vars(split(text(u))) == vars(u) and "+" not in u.hostport + u.path and ";" not in u.path and not re.search(r"%|\[|\]", u.hostport.replace("[::1]", ""))
    except ValueError:
        return False


def code_route(u, method):
    opened = []
    with connectors(opened):
        url, args = C.parse_url(method, text(u), False)
        with C.create_client(url) as client:
            accepts(client, method, args)
            name = type(client).__name__
            return [name, kept(client, opened), [location(a) for a in args] if name == "FilesystemClient" else args]


def location(path):
    """A path without repeated or trailing slashes, which mean nothing."""
    return "/" + "/".join([p for p in path.split("/") if p]) if path.startswith("/") else path


def asked(name, u, method, names):
    """What the client is asked for."""
    n = len(names)
    at = lambda i: names[i] if i < n else None
    if name in ("PostgresqlClient", "SnowflakeClient"):
        if method == "ls" and n <= 2:
            return [at(0), at(1)]
        if method == "schema" and n >= 3:
            return names[:3]
    elif name == "MysqlClient":
        if method == "ls":
            return [at(0)]
        if method == "schema" and n >= 2:
            return names[:2]
    elif name in ("SQLiteClient", "ConfluentRegistryClient"):
        if method == "ls":
            return []
        if method == "schema" and n:
            return [names[-1]]
    elif name == "BigQueryClient":
        return [at(0), at(1), at(2)]
    elif name == "HiveMetastoreClient":
        if method == "ls" and n <= 2:
            return names
        if method == "schema" and n == 2:
            return [*names, "include_stats" in parse_qs(u.query)]
    elif name == "FilesystemClient":
        return [location("/" + u.hostport + "/" + u.path)]
    raise Rejected()


def opened_with(name, u, method, names):
    """What the client connects to."""
    host = re.sub(r"[\[\]]", "", re.fullmatch(r"(\[[^\]]*\]|[^:]*)(:\d*)?", u.hostport)[1]).lower()
    port = re.fullmatch(r"(\[[^\]]*\]|[^:]*):?(\d*)", u.hostport)[2]
    user, _, password = (u.userinfo or "").partition(":")
    q = {k: v[0] if len(v) == 1 else v for k, v in parse_qs(u.query).items()}
    own = {"host": host, "port": int(port) if port else None, "user": unquote(user), "password": unquote(password)}
    base = {k: v for k, v in own.items() if v not in (None, "")}
    out = {k: v for k, v in q.items() if k in KEPT[name] and k != "junk"}
    out.update(base)
    if name == "PostgresqlClient":
        if names:
            out["dbname"] = names[0]
    elif name == "MysqlClient":
        if names:
            out["database"] = names[0]
    elif name == "SnowflakeClient":
        out["account"] = out.pop("host")
        if names:
            out["database"] = names[0]
    elif name == "SQLiteClient":
        path = u.path
        if method == "schema":
            path = ("/" if path.startswith("//") else "") + "/" + "/".join(names[:-1])
        out = {k: v for k, v in out.items() if k in ("timeout", "uri")}
        out["database"] = path[1:] + ("?" + u.query if u.query else "") + ("#" + u.fragment if u.fragment else "")
    elif name == "BigQueryClient":
        out = {}
    elif name == "ConfluentRegistryClient":
        path = u.path if method == "ls" else "/" * (len(names) > 1) + "/".join(names[:-1])
        out = {k: v for k, v in out.items() if k in ("ssl.ca.location",)}
        out["url"] = text(Url(u.scheme.split("+")[0], u.userinfo, u.hostport, path, u.query, u.fragment))
    elif name == "HiveMetastoreClient":
        out = {k: v for k, v in base.items() if k in ("host", "port")}
    elif name == "FilesystemClient":
        out = {"scheme": "file"}
    return {k: out[k] for k in KEPT[name] if out.get(k) not in (None, "")}


def spec_route(u, method):
    name = NAMES.get(u.scheme)
    if name is None:
        raise Rejected()
    names = [s for s in u.path.split("/") if s]
    if name in ("HiveMetastoreClient", "SnowflakeClient") and not u.hostport:
        raise Rejected()
    return [name, opened_with(name, u, method, names), asked(name, u, method, names)]


# Each client on its own, from the parts of a URL.
CLASSES = {"PostgresqlClient": "recap.clients.postgresql", "MysqlClient": "recap.clients.mysql", "SnowflakeClient": "recap.clients.snowflake",
           "SQLiteClient": "recap.clients.sqlite", "BigQueryClient": "recap.clients.bigquery", "ConfluentRegistryClient": "recap.clients.confluent_registry",
           "HiveMetastoreClient": "recap.clients.hive_metastore"}


def client_class(name):
    import importlib

    return getattr(importlib.import_module(CLASSES[name]), name)


def code_asked(name, method, n, a, b, c, d, e, stats):
    paths = [a, b, c, d, e][:n]
    args = {"scheme": "x", "netloc": "h", "path": "/p", "params": "", "query": "", "fragment": "", "username": None, "password": None, "hostname": "h",
            "host": "h", "port": None, "paths": paths, "url": "x://h/p"}
    if stats:
        args["include_stats"] = ""
    cls = client_class(name)
    out = cls.parse(method, **args)[1]
    if len(out) > LIMIT[name][method]:
        raise ValueError("too many arguments")
    return out


LIMIT = {"PostgresqlClient": {"ls": 2, "schema": 3}, "MysqlClient": {"ls": 1, "schema": 2}, "SnowflakeClient": {"ls": 2, "schema": 3}, "SQLiteClient": {"ls": 0, "schema": 1},
         "BigQueryClient": {"ls": 3, "schema": 3}, "ConfluentRegistryClient": {"ls": 0, "schema": 1}, "HiveMetastoreClient": {"ls": 2, "schema": 3}}


def spec_asked(name, method, n, a, b, c, d, e, stats):
    return asked(name, Url("x", None, "h", "/p", "include_stats=1" if stats else "", ""), method, [a, b, c, d, e][:n])


def r_asked(name, method, n, a, b, c, d, e, stats):
    return all(x != "" for x in [a, b, c, d, e])


def code_opened(name, args, n, a, b, c):
    args["paths"] = [a, b, c][:n]
    cls = client_class(name)
    with connectors([]):
        with cls.create(**args) as client:
            kwargs = client.connection.kwargs
            return [[k, kwargs[k]] for k in KEPT[name] if kwargs.get(k) is not None]


def spec_opened(name, args, n, a, b, c):
    out = {}
    for k in KEPT[name]:
        if args.get(k) is not None and k != "junk":
            out[k] = args[k]
    if name == "SnowflakeClient":
        out["account"] = args["host"]
    if n:
        out["dbname" if name == "PostgresqlClient" else "database"] = a
    if n > 1 and name == "SnowflakeClient":
        out["schema"] = b
    return [[k, out[k]] for k in KEPT[name] if out.get(k) is not None]


def r_opened(name, args, n, a, b, c):
    return all(x != "" for x in [a, b, c])
