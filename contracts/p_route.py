"""Dispatch of URLs to clients (C22)."""
import z3

from engine.contract import Task
from engine.interp import Model
from engine.sorts import Bool, Choice, DictOf, Int, Maybe, Str
from engine.values import *

from contracts import route_spec as S
from contracts.p_url import UrlSort, SEGS
from contracts.url_spec import Url

KEYS = ["sslmode", "application_name", "charset", "warehouse", "timeout", "uri", "ssl.ca.location", "include_stats", "junk", "host", "port", "user", "password",
        "paths", "path", "url", "scheme", "netloc", "hostname", "username", "dialect", "driver", "params", "fragment", "dbname", "database", "account", "schema"]


class RouteUrl(UrlSort):
    def sym(self, it, name):
        raise Unsupported("URL with query parameters")

    def conc(self, c, name):
        return Url("file", None, "", "", "", "")

    def rand(self, r):
        u = self.fresh(r)
        u.scheme = r.choice([*S.NAMES, *S.NAMES, "ftp", "http", "mysql+x"])
        u.path = "".join(r.choice(["/", "/", "/", "/", "//"]) + r.choice(["a", "b", "c d", "db", "t.x", "x%20y", "A"]) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4])))
        if r.random() < 0.2:
            u.path += "/"
        if u.scheme in ("sqlite", "file"):
            u.hostport, u.userinfo = r.choice(["", "Data"]) if u.scheme == "file" else "", None
            if u.scheme == "sqlite":
                u.path = "/" + u.path.lstrip("/") if r.random() < 0.6 else "//" + u.path.lstrip("/")
        elif not u.hostport and r.random() < 0.9:
            u.hostport = "db.example:5432"
        u.query = "&".join(f"{r.choice(KEYS)}={r.choice(['1', 'x', 'evil', 'a%20b'])}" for _ in range(r.choice([0, 0, 1, 2, 3])))
        if u.query and u.scheme in ("bigquery", "file") and r.random() < 0.8:
            u.query = ""
        return u


SEG = Str(words=["a", "b", "main", "x y", "t.x", "%", "A"])
WORD = Str(words=["", "x", "evil"])
OWN = {"scheme": WORD, "netloc": WORD, "path": WORD, "params": WORD, "query": WORD, "fragment": WORD, "host": WORD, "url": WORD}
MORE = {"PostgresqlClient": ["user", "password", "sslmode", "application_name", "junk"], "MysqlClient": ["user", "password", "charset", "junk"],
        "SnowflakeClient": ["user", "password", "warehouse"]}


class ConnectionModel(Model):
    def __init__(self, kwargs):
        self.kwargs = kwargs

    def clone(self, memo, cloner):
        return ConnectionModel(cloner(self.kwargs))

    def a_kwargs(self, it):
        return self.kwargs

    def enter(self, it):
        return self

    def exit(self, it, *_):
        return None


class Nothing(ConnectionModel):
    def __init__(self):
        super().__init__(None)


def models(e):
    import urllib.parse

    import mysql.connector
    import psycopg2
    import snowflake.connector

    e.models[S.connectors] = lambda it, args, kw: Nothing()
    for f in (psycopg2.connect, mysql.connector.connect, snowflake.connector.connect):
        e.models[f] = lambda it, args, kw: ConnectionModel(kw)
    e.models[urllib.parse.urlunparse] = lambda it, args, kw: it.fresh_str("url") if hasattr(it, "fresh_str") else Sym(z3.String("urlunparse"))


class C22:
    trusted = ["the drivers connect to what their keyword arguments say"]
    assumptions = ["hosts, paths and users have no '+', paths no ';'"]

    @staticmethod
    def tasks(tier):
        out = []
        for name in S.CLASSES:
            out.append(Task(f"{name}.asked", S.code_asked, S.spec_asked, {"name": Choice(name), "method": Choice("ls", "schema"), "n": Choice(0, 1, 2, 3, 4, 5),
                       **{k: SEG for k in "abcde"}, "stats": Bool()}, requires=S.r_asked, frame=False, setup=models))
        for name, more in MORE.items():
            args = DictOf({**OWN, "port": Int(), **{k: Maybe(WORD) for k in more}})
            out.append(Task(f"{name}.opened", S.code_opened, S.spec_opened, {"name": Choice(name), "args": args, "n": Choice(0, 1, 2, 3), **{k: SEG for k in "abc"}},
                       requires=S.r_opened, frame=False, setup=models))
        out.append(Task("clients.route", S.code_route, S.spec_route, {"u": RouteUrl(), "method": Choice("ls", "schema")}, requires=S.r_route, frame=False,
                   bounded_only=True, note="bounded: URLs of every scheme with up to four path segments and three query parameters"))
        return out
