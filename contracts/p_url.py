"""URLs: settings (C07, C08), dispatch to clients (C22), commands and gateway (C23).

A URL's text is a term; urlsplit of it gives its parts as terms, so the code is followed
through every operation on the parts.  pathlib and the query functions are known by their
contracts (uninterpreted functions shared with the specification)."""
import pathlib
import urllib.parse

import z3

from engine.builtins_ import call_method, cut, join_pieces, pieces
from engine.contract import Contract, Task
from engine.interp import Model, mk, zs
from engine.sorts import Bool, Choice, ListOf, Sort
from engine.values import *

from contracts import url_spec as U

ST, B = z3.StringSort(), z3.BoolSort()
TEXT = {}  # URL text constant -> UrlModel
HOST = z3.Function("hostname", ST, Val)
PORT = z3.Function("port", ST, Val)
BELOW = z3.Function("below", ST, ST, B)
CLIMBS = z3.Function("climbs", ST, B)
POSIX = z3.Function("as_posix", ST, ST)
MERGE = z3.Function("merge_query", ST, ST, ST)
USES = [s for s in urllib.parse.uses_netloc if s]


class UrlModel(Model):
    """A URL by its parts."""

    pycls = U.Url

    def __init__(self, it, name):
        self.name = name
        s = lambda p: z3.String(f"{name}.{p}")
        self.scheme, self.hostport, self.path, self.query, self.fragment = [s(p) for p in ("scheme", "hostport", "path", "query", "fragment")]
        self.has_user, self.user = z3.Bool(f"{name}.has_user"), s("userinfo")
        self.text = s("text")
        TEXT[self.text.decl().name()] = self

    def facts(self, it):
        a = it.path.assume
        has = lambda t, c: z3.Contains(t, zstr(c))
        a(self.scheme != zstr(""))
        for c in ":/?#@":
            a(z3.Not(has(self.scheme, c)))
        for c in "/?#@":
            a(z3.Not(has(self.hostport, c)))
            a(z3.Not(has(self.user, c)))
        a(z3.Or(self.path == zstr(""), z3.PrefixOf(zstr("/"), self.path)))
        for c in "?#":
            a(z3.Not(has(self.path, c)))
        a(z3.Not(has(self.query, "#")))

    def userinfo(self, it):
        return Sym(self.user) if it.path.decide(self.has_user) else None

    def netloc(self, it):
        u = self.userinfo(it)
        return Sym(self.hostport) if u is None else mk(z3.Concat(self.user, zstr("@"), self.hostport))

    a_scheme = lambda self, it: Sym(self.scheme)
    a_hostport = lambda self, it: Sym(self.hostport)
    a_path = lambda self, it: Sym(self.path)
    a_query = lambda self, it: Sym(self.query)
    a_fragment = lambda self, it: Sym(self.fragment)
    a_userinfo = lambda self, it: self.userinfo(it)
    a_text = lambda self, it: Sym(self.text)

    def m_unicode_string(self, it, args, kw):
        return Sym(self.text)

    def to_str(self, it):
        return Sym(self.text)

    def __repr__(self):
        return f"Url({self.name})"


def hostname(it, h):
    it.path.assume(z3.Or(Val.is_vnone(HOST(h)), Val.is_vstr(HOST(h))))
    return Sym(HOST(h))


def port(it, h):
    it.path.assume(z3.Or(Val.is_vnone(PORT(h)), Val.is_vint(PORT(h))))
    return Sym(PORT(h))


class Split(Model):
    """The result of urlsplit."""

    def __init__(self, scheme, netloc, path, query, fragment):
        self.p = dict(scheme=scheme, netloc=netloc, path=path, query=query, fragment=fragment)

    def getattr(self, it, name):
        if name in self.p:
            return self.p[name]
        if name in ("hostname", "port", "username", "password"):
            c = cut(it, zs(self.p["netloc"]), "@", "r")
            host = self.p["netloc"] if c is None else join_pieces(c[1])
            if name == "hostname":
                return hostname(it, zs(host))
            if name == "port":
                return port(it, zs(host))
            if c is None:
                return None
            user = zs(join_pieces(c[0]))
            d = cut(it, user, ":", "l")
            if name == "username":
                return Sym(user) if d is None else join_pieces(d[0])
            return None if d is None else join_pieces(d[1])
        return super().getattr(it, name)

    def m__replace(self, it, args, kw):
        return Split(**{**self.p, **kw.entries})

    def m_geturl(self, it, args, kw):
        return unsplit(it, list(self.p.values()))

    def getitem(self, it, k):
        return list(self.p.values())[it.concrete(k)]

    def segments(self, it):
        return list(self.p.values())


def m_urlsplit(it, args, kw):
    v = it.force(args[0])
    if len(args) == 1 and not kw.entries and isinstance(v, Sym) and z3.is_const(v.t) and v.t.decl().name() in TEXT:
        u = TEXT[v.t.decl().name()]
        return Split(Sym(u.scheme), u.netloc(it), Sym(u.path), Sym(u.query), Sym(u.fragment))
    if isinstance(v, UrlModel):
        it.throw(AttributeError, "not a string")
    raise Unsupported("urlsplit of an unknown text")


def has(it, v):
    """Whether a text is not empty."""
    return v is not None and it.truth(v)


def begins(it, v, c):
    v = it.scalar(v)
    return v.startswith(c) if isinstance(v, str) else it.path.decide(z3.PrefixOf(zstr(c), v.t))


def unsplit(it, parts):
    """urllib.parse.urlunsplit, as in the standard library."""
    scheme, netloc, url, query, fragment = [it.force(x) for x in parts]
    uses = lambda: (scheme in USES) if isinstance(scheme, str) else it.path.decide(z3.Or([scheme.t == zstr(s) for s in USES]))
    cat = lambda *xs: join_pieces([p for x in xs for p in ([x] if isinstance(x, str) else pieces(x.t))])
    if has(it, netloc) or (has(it, scheme) and uses() and not begins(it, url, "//")):
        if has(it, url) and not begins(it, url, "/"):
            url = cat("/", url)
        url = cat("//", "" if netloc is None else netloc, url)
    if has(it, scheme):
        url = cat(scheme, ":", url)
    if has(it, query):
        url = cat(url, "?", query)
    if has(it, fragment):
        url = cat(url, "#", fragment)
    return url


def strip_path(v):
    """The path a text denotes, up to slashes at its ends."""
    t = zs(v)
    while True:
        ps = [p for p in pieces(t)]
        while ps and isinstance(ps[0], str):
            if ps[0].strip("/"):
                break
            ps.pop(0)
        while ps and isinstance(ps[-1], str) and not ps[-1].strip("/"):
            ps.pop()
        if len(ps) == 1 and not isinstance(ps[0], str) and ps[0].num_args() == 1 and ps[0].decl().name() in ("py.lstrip('/')", "py.rstrip('/')", "py.strip('/')", "as_posix"):
            t = ps[0].arg(0)
            continue
        return zs(join_pieces(ps)) if ps else zstr("")


def absolute(it, v):
    return begins(it, v, "/")


class PathM(Model):
    pycls = pathlib.PurePath

    def __init__(self, v):
        self.v = v

    def to_str(self, it):
        return self.m_as_posix(it, [], None)

    def m_as_posix(self, it, args, kw):
        v = self.v
        if isinstance(v, str):
            return pathlib.PurePosixPath(v).as_posix()
        return Sym(POSIX(v.t))

    def m_is_relative_to(self, it, args, kw):
        if len(args) != 1 or kw.entries:
            raise Unsupported("is_relative_to")
        o = it.force(args[0])
        o = o.v if isinstance(o, PathM) else o
        if not absolute(it, self.v) or not absolute(it, o):
            raise Unsupported("relative path")
        one = lambda v: not begins(it, v, "//") or begins(it, v, "///")
        if not one(self.v) or not one(o):
            raise Unsupported("path with two leading slashes")
        return Sym(BELOW(strip_path(self.v), strip_path(o)))

    def a_parts(self, it):
        return Parts(self)


class Parts(Model):
    def __init__(self, p):
        self.p = p

    def contains(self, it, x):
        if it.concrete(x) != "..":
            raise Unsupported("member of the path's parts")
        return it.path.decide(CLIMBS(strip_path(self.p.v)))


class Query(Model):
    """parse_qs of a query, or the union of two."""

    pycls = dict

    def __init__(self, a, b=None):
        self.a, self.b = a, b

    def bitor(self, it, o):
        if not isinstance(o, Query) or self.b is not None or o.b is not None:
            raise Unsupported("union of query parameters")
        return Query(self.a, o.a)


def m_parse_qs(it, args, kw):
    if len(args) != 1 or kw.entries:
        raise Unsupported("parse_qs options")
    return Query(zs(it.force(args[0])))


def m_urlencode(it, args, kw):
    q = it.force(args[0])
    if not isinstance(q, Query) or q.b is None or len(args) != 1 or list(kw.entries) != ["doseq"] or kw.entries["doseq"] is not True:
        raise Unsupported("urlencode")
    return Sym(MERGE(q.a, q.b))


def setup(e):
    from recap.settings import RecapSettings

    e.models[urllib.parse.urlsplit] = m_urlsplit
    e.models[urllib.parse.urlunsplit] = lambda it, args, kw: unsplit(it, it.segments(args[0]))
    e.models[urllib.parse.parse_qs] = m_parse_qs
    e.models[urllib.parse.urlencode] = m_urlencode
    path = lambda it, args, kw: PathM(it.scalar(args[0])) if len(args) == 1 else _no("path of several parts")
    e.models[pathlib.Path] = path
    e.models[pathlib.PurePath] = path
    e.models[pathlib.PurePosixPath] = path
    e.models[U.settings] = lambda it, args, kw: VObj(RecapSettings, {"urls": it.force(args[0])})
    e.models[U.configured] = lambda it, args, kw: it.force(args[0])
    e.models[U.valid] = lambda it, args, kw: True
    e.models[U.below] = lambda it, args, kw: Sym(BELOW(strip_path(it.scalar(args[0])), strip_path(it.scalar(args[1]))))
    e.models[U.climbs] = lambda it, args, kw: Sym(CLIMBS(strip_path(it.scalar(args[0]))))
    e.models[U.merge_query] = lambda it, args, kw: Sym(MERGE(zs(it.scalar(args[0])), zs(it.scalar(args[1]))))

    def host(it, args, kw):
        h = zs(it.getattr(args[0], "hostport"))
        return (hostname(it, h), port(it, h))

    e.models[U.host] = host

    def tidy(it, args, kw):
        v = it.scalar(args[0])
        if not it.truth(v):
            return ""
        return call_method(it, Sym(POSIX(v.t)), "rstrip", ["/"], VDict())

    e.models[U.tidy] = tidy

    def text(it, args, kw):
        v = it.force(args[0])
        return Sym(v.text) if isinstance(v, UrlModel) else it.call_pyfunc(U.text, args, kw)

    e.models[U.text] = text


def _no(m):
    raise Unsupported(m)


# ---- inputs ------------------------------------------------------------------------------
HOSTS = ["h", "h", "h", "h:1", "h:2", "H", "host.example", "host.example:8080", "[::1]", "[::1]:80", "", "1.2.3.4"]
SEGS = ["a", "b", "ab", "a.b", ".", "..", "a%2Fb", "%2e%2e", "c d", "table"]


class UrlSort(Sort):
    def __init__(self, schemes=("http", "https", "postgresql", "sqlite", "file", "bigquery", "mysql", "http+csr"), users=True, near=0):
        self.schemes, self.users, self.near, self.last = schemes, users, near, None

    def sym(self, it, name):
        u = UrlModel(it, name)
        u.facts(it)
        return u

    def conc(self, c, name):
        s = lambda p, d="": c.string(f"{name}.{p}", d)
        return U.Url(s("scheme", "http"), s("userinfo", "u") if c.boolean(f"{name}.has_user") else None, s("hostport", "h"), s("path"), s("query"), s("fragment"))

    def rand(self, r):
        u = self.fresh(r)
        if self.last is not None and r.random() < self.near:
            # a near miss of the previous URL: the same but for one part or two
            k = U.Url(*[getattr(self.last, x) for x in PARTS])
            for _ in range(r.choice([0, 1, 1, 2])):
                x = r.choice(PARTS)
                setattr(k, x, getattr(u, x))
                h, p = self.last.hostport, self.last.path
                if x == "hostport" and h and not h.startswith("[") and r.random() < 0.7:
                    k.hostport = r.choice([f"sub.{h}", f"x{h}", h[1:], h.partition(".")[2] or h, h.upper(), h.partition(":")[0], h.partition(":")[0] + ":99"])
                if x == "path" and r.random() < 0.7:
                    k.path = r.choice([p + "/a", p + "a" if p else "/a", p[:-1], p.rpartition("/")[0], p + "/", p + "/../a", "/a" + p, p.upper()])
            u = k
        self.last = u
        return u

    def fresh(self, r):
        path = "".join(r.choice(["/", "/", "/", "//"]) + r.choice(SEGS[:4] if r.random() < 0.8 else SEGS) for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
        if r.random() < 0.2:
            path += "/"
        q = "&".join(f"{r.choice('xyz')}={r.choice(['1', '2', 'a%20b', ''])}" for _ in range(r.choice([0, 0, 1, 2])))
        user = r.choice([None, None, "u", "u:p", ":p", "u:", "", "u:p%40q", "u%3Ax:p:q", "p@q", "u+v:p+q"]) if self.users else None
        return U.Url(r.choice(self.schemes), user, r.choice(HOSTS), path, q, r.choice(["", "", "f"]))


PARTS = ("scheme", "userinfo", "hostport", "path", "query", "fragment")


class C07:
    trusted = ["urlsplit, urlunsplit, parse_qs, urlencode and pathlib are known by their contracts", "pydantic keeps the configured URLs in order"]
    assumptions = ["a configured URL's path is empty or starts with a slash"]

    @staticmethod
    def tasks(tier):
        return [Task("settings.safe_urls", U.code_safe, U.spec_safe, {"urls": ListOf(UrlSort(near=0.4))}, requires=U.r_urls, setup=setup, frame=False)]


class C08:
    trusted = C07.trusted
    assumptions = C07.assumptions + ["the requested URL's port is a number"]

    @staticmethod
    def tasks(tier):
        few = UrlSort(("http", "http", "postgresql", "file"), near=0.6)
        return [Task("settings.unsafe_url", U.code_unsafe, U.spec_unsafe, {"urls": ListOf(few), "u": few, "strict": Bool()},
                     requires=U.r_unsafe, setup=setup, frame=False)]
