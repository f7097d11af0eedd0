"""Registry storage and its HTTP interface.

The verifier's store is an abstract state: which versions a name has (any number), the
document of each, and the writes done so far.  The file system model maps paths of the form
root/segment/version.json onto it; a path outside that form is a stray write."""
import inspect
import json
import pathlib
import urllib.parse

import z3

from engine.contract import Contract, Task
from engine.interp import Model, STR_OF_INT, mk, zs
from engine.sorts import Choice, Int, Scalar, Sort, Str, Union, Const
from engine.values import *

from contracts import store_spec as S
from contracts.recap_sort import recap_sort
from contracts.speclib import Rejected

ST = z3.StringSort()
QUOTE = z3.Function("quote_plus", ST, ST)
SEGMENT = z3.Function("segment", ST, ST)
HAS = z3.Function("has", ST, z3.IntSort(), z3.BoolSort())
HASV = z3.Function("has_version", ST, z3.IntSort(), z3.IntSort(), z3.BoolSort())
MAXV = z3.Function("max_version", ST, z3.IntSort(), z3.IntSort())
NAMES = ["a", "b", "a/b", "../a", ".", "..", "", "...", "a b", "a+b", "a%2Fb", "%2E", "é", "1.json", "a.b.C", "-", "~", "a\\b", "a ", " ", "+", "a+"]
SAFE = [n for n in NAMES if n and "/" not in n]
DOCS = ["int32", "bool", {"type": "int", "bits": 32}, {"type": "string", "bytes": 16}, {"type": "struct", "fields": [{"type": "bool", "name": "x"}]},
        {"type": "union", "types": ["null", "int64"], "default": None}, {"type": "list", "values": "string32"}, "null"]
DOCS = [S.to_dict(S.from_dict(d)) for d in DOCS]


def parts(t):
    """The pieces of a concatenation, constants merged."""
    t = t if z3.is_expr(t) else zs(t)
    out = []

    def go(x):
        if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT):
            for c in x.children():
                go(c)
        elif z3.is_string_value(x):
            s = zstr_value(x)
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)
        else:
            out.append(x)

    go(t)
    return [x for x in out if not isinstance(x, str) or x]


class DocModel(Model):
    """The JSON document stored for a version, or carried by a request."""

    def __init__(self, kind, *terms):
        self.kind, self.terms = kind, terms

    def same(self, sm, it, o, where, depth):
        if not isinstance(o, type(self)) or o.kind != self.kind or len(o.terms) != len(self.terms):
            sm.fail(it, where, self, o)
        for a, b in zip(self.terms, o.terms):
            if isinstance(a, Model) or isinstance(b, Model):
                sm(it, a, b, where, depth + 1)
            else:
                sm.scalar_ob(it, it.eq(a, b), where, self, o)

    def __repr__(self):
        return f"{self.kind}{self.terms}"


class TypeModel(DocModel):
    pass


class Sorted(Model):
    """The known versions (or names), in ascending order; never empty."""

    def __init__(self, kind, n, epoch):
        self.kind, self.n, self.epoch = kind, n, epoch

    def max(self, it, op):
        if self.kind != "versions" or op != ">":
            raise Unsupported("minimum of the versions")
        return Sym(MAXV(self.n, self.epoch))

    def getitem(self, it, k):
        if self.kind == "versions" and isinstance(k, int) and k == -1:
            return Sym(MAXV(self.n, self.epoch))
        raise Unsupported("item of the versions")

    def sorted(self, it):
        return self

    def same(self, sm, it, o, where, depth):
        if not isinstance(o, Sorted) or o.kind != self.kind:
            sm.fail(it, where, self, o)
        if self.n is not None:
            sm.scalar_ob(it, it.eq(Sym(self.n), Sym(o.n)), where, self, o)
        sm.scalar_ob(it, self.epoch == o.epoch, where + ":time", self, o)


def canon(it, n):
    """The constant a name is known to be, else the name itself."""
    if not z3.is_string_value(n):
        for f in it.path.pc:
            if z3.is_eq(f):
                for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if a.eq(n) and z3.is_string_value(b):
                        return b
    return n


class StoreModel(Model):
    def __init__(self, name):
        self.name = name
        self.epoch = 0
        self.writes = []

    def clone(self, memo, cloner):
        c = StoreModel(self.name)
        c.epoch, c.writes = self.epoch, list(self.writes)
        return c

    def changed(self, orig):
        return len(self.writes) != len(orig.writes)

    def has(self, it, n):
        it.path.taints.add("file layout")
        return it.path.decide(HAS(canon(it, n), z3.IntVal(self.epoch)))

    def max(self, it, n):
        n = canon(it, n)
        m = MAXV(n, z3.IntVal(self.epoch))
        it.path.assume(HASV(n, m, z3.IntVal(self.epoch)))
        return m

    def has_version(self, it, n, v):
        n = canon(it, n)
        if not self.has(it, n):
            return False
        if self.writes:
            raise Unsupported("read after a write")
        self.max(it, n)
        e = z3.IntVal(self.epoch)
        it.path.assume(z3.Implies(HASV(n, v, e), v <= MAXV(n, e)))
        return it.path.decide(HASV(n, v, e))

    def write(self, it, n, v, doc):
        e = z3.IntVal(self.epoch)
        if v is not None:
            self.writes.append(("write", n, v, doc))
        else:
            self.writes.append(("stray", n, None, doc))

    def advance(self, it):
        """Other clients run: they may add versions, nothing else."""
        self.epoch += 1


class Snapshot(Model):
    def __init__(self, store, writes):
        self.store, self.writes = store, writes

    def same(self, sm, it, o, where, depth):
        if len(self.writes) != len(o.writes) or any(a[0] != b[0] for a, b in zip(self.writes, o.writes)):
            sm.fail(it, where + ":writes", self, o)
        for a, b in zip(self.writes, o.writes):
            sm.scalar_ob(it, it.eq(Sym(a[1]), Sym(b[1])), where + ":name", self, o)
            sm.scalar_ob(it, it.eq(mk(a[2]), mk(b[2])), where + ":version", self, o)
            sm(it, a[3], b[3], where + ":document", depth + 1)
        sm.rec.obligation(where + ":nothing else", "trivial")

    def __repr__(self):
        return f"Snapshot({self.writes})"


ROOT = z3.String("root")


class FileModel(Model):
    def __init__(self, store, n, v, mode):
        self.store, self.n, self.v, self.mode = store, n, v, mode

    def clone(self, memo, cloner):
        return FileModel(cloner(self.store), self.n, self.v, self.mode)

    def enter(self, it):
        return self

    def exit(self, it, exc):
        return False

    def doc(self, it):
        if "r" not in self.mode:
            raise Unsupported("read of a file opened for writing")
        return DocModel("doc", Sym(self.n), Sym(self.v))

    def put(self, it, d):
        if self.mode != "w":
            raise Unsupported("write mode")
        self.store.write(it, self.n, self.v, d)

    def m_read(self, it, args, kw):
        from engine.builtins_ import JsonText

        return JsonText(self.doc(it))

    def m_write(self, it, args, kw):
        from engine.builtins_ import JsonText

        v = it.force(args[0])
        if not isinstance(v, JsonText):
            raise Unsupported("write of an unknown text")
        self.put(it, v.value)


class FsModel(Model):
    def __init__(self, store):
        self.store = store

    def clone(self, memo, cloner):
        return FsModel(cloner(self.store))

    def locate(self, it, path):
        """[] for the root, [name] for a directory, [name, version] for a file."""
        ps = parts(path)
        if not ps or isinstance(ps[0], str) or not ps[0].eq(ROOT):
            raise Unsupported("path outside the root")
        segs, cur = [], None
        for p in ps[1:]:
            if isinstance(p, str):
                for i, x in enumerate(p.split("/")):
                    if i:
                        if cur is not None:
                            segs.append(cur)
                        cur = []
                    elif cur is None and x:
                        raise Unsupported("path outside the root")
                    if x:
                        cur.append(x)
            else:
                if cur is None or p.decl().name() not in ("quote_plus", "py.str_int", "segment"):
                    raise Unsupported("path of an unknown shape")
                cur.append(p)
        if cur is not None:
            segs.append(cur)
        if not segs:
            return []
        if len(segs) > 2:
            raise Unsupported("path of an unknown depth")
        if len(segs[0]) != 1:
            raise Unsupported("directory of an unknown shape")
        s = segs[0][0]
        if isinstance(s, str):
            n = urllib.parse.unquote_plus(s)
            if s in ("", ".", "..") or urllib.parse.quote_plus(n) != s and n not in (".", ".."):
                raise Unsupported("directory of an unknown shape")
            n = zstr(n)
        elif s.decl().name() == "quote_plus":
            n = canon(it, s.arg(0))
            if it.path.decide(z3.Or([s == zstr(x) for x in ("", ".", "..")])):
                raise Unsupported("path segment that is not a name")
        else:
            raise Unsupported("directory of an unknown shape")
        if len(segs) == 1:
            return [n]
        f = segs[1]
        if len(f) != 2 or f[1] != ".json" or isinstance(f[0], str) and not f[0].isdecimal():
            if len(f) == 1 and isinstance(f[0], str) and f[0].endswith(".json") and f[0][:-5].lstrip("-").isdecimal():
                return [n, z3.IntVal(int(f[0][:-5]))]
            raise Unsupported("file of an unknown shape")
        if f[0].decl().name() != "py.str_int":
            raise Unsupported("file of an unknown shape")
        return [n, f[0].arg(0)]

    def m_mkdirs(self, it, args, kw):
        if len(self.locate(it, it.force(args[0]))) > 1:
            raise Unsupported("directory below a type")

    m_makedirs = m_mkdirs

    def m_exists(self, it, args, kw):
        loc = self.locate(it, it.force(args[0]))
        if not loc:
            return True
        return self.store.has(it, loc[0]) if len(loc) == 1 else self.store.has_version(it, loc[0], loc[1])

    def m_ls(self, it, args, kw):
        if list(kw.entries) != ["detail"] or kw.entries["detail"] is not False or len(args) != 1:
            raise Unsupported("ls options")
        path = it.force(args[0])
        loc = self.locate(it, path)
        if self.store.writes:
            raise Unsupported("listing after a write")
        if not loc:
            return VList([Star(f"names@{self.store.epoch}", lambda it2, nm: mk(z3.Concat(ROOT, zstr("/"), SEGMENT(z3.String(nm)))))])
        if len(loc) != 1:
            raise Unsupported("listing of a file")
        if not self.store.has(it, loc[0]):
            it.throw(FileNotFoundError, "no such directory")
        src = f"versions({loc[0].sexpr()})@{self.store.epoch}"
        SOURCES[src] = (loc[0], self.store.epoch)
        base = zs(path)
        return VList([Star(src, lambda it2, nm: mk(z3.Concat(base, zstr("/"), STR_OF_INT(z3.Int(nm)), zstr(".json"))))])

    def m_open(self, it, args, kw):
        mode = it.concrete(args[1]) if len(args) > 1 else it.concrete(kw.entries.get("mode", "rb"))
        loc = self.locate(it, it.force(args[0]))
        if len(loc) != 2:
            raise Unsupported("open of a directory")
        if "r" in mode and not self.store.has_version(it, loc[0], loc[1]):
            it.throw(FileNotFoundError, "no such file")
        return FileModel(self.store, loc[0], loc[1], mode)


SOURCES = {}


class PathModel(Model):
    def __init__(self, t):
        self.t = t

    def last(self):
        ps = parts(self.t)
        out = []
        for p in reversed(ps):
            if isinstance(p, str):
                i = p.rfind("/")
                out.insert(0, p[i + 1:])
                if i >= 0:
                    break
            elif p.decl().name() in ("py.str_int", "quote_plus", "segment"):
                out.insert(0, p)
            else:
                raise Unsupported("path of an unknown shape")
        return [x for x in out if not isinstance(x, str) or x]

    def a_name(self, it):
        return join(self.last())

    def a_stem(self, it):
        ps = self.last()
        if len(ps) == 2 and not isinstance(ps[0], str) and ps[0].decl().name() == "py.str_int" and ps[1] == ".json":
            return Sym(ps[0])
        raise Unsupported("stem of an unknown name")

    def to_str(self, it):
        return mk(zs(self.t))


def join(ps):
    ts = [zstr(p) if isinstance(p, str) else p for p in ps]
    return mk(ts[0] if len(ts) == 1 else z3.Concat(*ts)) if ts else ""


def m_quote(it, args, kw):
    v = it.scalar(args[0])
    if isinstance(v, str):
        return urllib.parse.quote_plus(v)
    t = v.t
    q = QUOTE(t)
    for w in ("", ".", ".."):
        it.path.assume((q == zstr(w)) == (t == zstr(w)))
    return Sym(q)


def m_unquote(it, args, kw):
    v = it.scalar(args[0])
    if isinstance(v, str):
        return urllib.parse.unquote_plus(v)
    if z3.is_app(v.t) and v.t.decl().name() in ("quote_plus", "segment"):
        return mk(v.t.arg(0))
    raise Unsupported(f"unquote of an unknown text {v.t}")


def m_sorted(it, args, kw):
    segs = it.segments(args[0])
    if len(segs) != 1 or kw.entries or segs[0].cases is None:
        raise Unsupported("sorted of an unbounded list")
    st = segs[0]
    if len(st.cases) != 1 or len(st.cases[0][1]) != 1 or not z3.is_true(z3.simplify(st.cases[0][0])):
        raise Unsupported("sorted of a filtered list")
    v = st.cases[0][1][0]
    g = st.src + "[g]"
    if st.src in SOURCES and isinstance(v, Sym) and v.t.eq(z3.Int(g)):
        n, e = SOURCES[st.src]
        return Sorted("versions", n, z3.IntVal(e))
    if st.src.startswith("names@") and isinstance(v, Sym) and v.t.eq(z3.String(g)):
        return Sorted("names", None, z3.IntVal(int(st.src[6:])))
    raise Unsupported("sorted of a computed list")


def need_type(it, v):
    v = it.force(v)
    if isinstance(v, Opaque):
        return TypeModel("input", zstr(v.name))
    if isinstance(v, TypeModel):
        return v
    raise Unsupported("unknown type value")


def m_to_dict(it, args, kw):
    t = need_type(it, args[0])
    if t.kind == "parsed":
        pass
    return DocModel("to_dict", t)


def m_from_dict(it, args, kw):
    d = it.force(args[0])
    if isinstance(d, DocModel):
        if d.kind == "payload" and not it.path.decide(z3.Bool("payload.valid")):
            it.throw(ValueError, "not a type")
        return TypeModel("parsed", d)
    if isinstance(d, Sym) and d.t.eq(z3.String("payload.text")):
        if not it.path.decide(z3.Bool("payload.alias")):
            it.throw(ValueError, "not a type")
        return TypeModel("parsed", DocModel("text"))
    raise Unsupported("from_dict of an unknown document")


def setup(e):
    import fsspec

    def url_to_fs(it, args, kw):
        v = it.force(args[0])
        if not isinstance(v, Url):
            raise Unsupported("storage URL")
        return (FsModel(v.store), Sym(ROOT))

    e.models[fsspec.core.url_to_fs] = url_to_fs
    e.models[urllib.parse.quote_plus] = m_quote
    e.models[urllib.parse.unquote_plus] = m_unquote
    e.models[pathlib.Path] = lambda it, args, kw: PathModel(it.force(args[0]))
    e.models[json.load] = lambda it, args, kw: it.force(args[0]).doc(it)
    e.models[json.dump] = lambda it, args, kw: it.force(args[1]).put(it, it.force(args[0]))
    e.models["sorted"] = m_sorted
    from recap import types as T

    e.models[T.to_dict] = m_to_dict
    e.models[T.from_dict] = m_from_dict
    e.models[S.store_url] = lambda it, args, kw: Url(it.force(args[0]))

    def snapshot(it, args, kw):
        s = it.force(args[0])
        return Snapshot(s, list(s.writes))

    def after(it, args, kw):
        s, n, v, d = [it.force(x) for x in args]
        if v is None:
            return Snapshot(s, list(s.writes))
        return Snapshot(s, list(s.writes) + [("write", zs(n), zi(v), d)])

    def known(it, args, kw):
        s, n = [it.force(x) for x in args]
        n = canon(it, zs(n))
        if not s.has(it, n):
            return None
        s.max(it, n)
        return Sorted("versions", n, z3.IntVal(s.epoch))

    def document(it, args, kw):
        s, n, v = [it.force(x) for x in args]
        n, v = canon(it, zs(n)), zi(v)
        return DocModel("doc", Sym(n), Sym(v)) if s.has_version(it, n, v) else None

    e.models[S.snapshot] = snapshot
    e.models[S.after] = after
    e.models[S.known_versions] = known
    e.models[S.document] = document
    e.models[S.names] = lambda it, args, kw: Sorted("names", None, z3.IntVal(it.force(args[0]).epoch))


def zi(v):
    return v.t if isinstance(v, Sym) else z3.IntVal(v)


class Url(Model):
    def __init__(self, store):
        self.store = store

    def clone(self, memo, cloner):
        return Url(cloner(self.store))


class StoreSort(Sort):
    def __init__(self, names=NAMES, rival=False):
        self.names, self.rival = names, rival

    def sym(self, it, name):
        return StoreModel(name)

    def conc(self, c, name):
        return S.Store({})

    def rand(self, r):
        out = {}
        for _ in range(r.randint(0, 4)):
            n = r.choice([x for x in self.names if x])
            out[n] = {r.choice([0, 1, 2, 3, 7, 9, 10, 11, 100]): r.choice(DOCS) for _ in range(r.randint(1, 4))}
        rival = None
        if self.rival and r.random() < 0.5:
            rival = (r.choice([x for x in self.names[:3] if x]), r.choice([1, 2, 3, 4, 12]), r.choice(DOCS))
        return S.Store(out, rival)


class AnyType(Sort):
    def sym(self, it, name):
        return Opaque(name)

    def conc(self, c, name):
        from recap.types import BoolType

        return BoolType()

    def rand(self, r):
        from recap.types import from_dict

        return from_dict(r.choice(DOCS))


def name_sort(names=NAMES):
    class N(Str):
        def rand(self, r):
            return r.choice(names) if r.random() < 0.9 else r.word()

    return N(words=names)


class Ops(Sort):
    """Histories of one to eight operations."""

    def rand(self, r):
        few = [r.choice(NAMES) for _ in range(2)]
        out = []
        for _ in range(r.randint(1, 8)):
            k = r.choice(["put", "put", "put", "get", "versions", "latest", "ls"])
            n = r.choice(few)
            v = r.choice([None, None, 0, 1, 2, 3, 9, 10, 11])
            out.append({"put": ("put", n, r.choice(DOCS), v), "get": ("get", n, v)}.get(k, (k, n)))
        return out

    def sym(self, it, name):
        raise Unsupported("history")

    def conc(self, c, name):
        return []


Version = lambda: Int(picks=[0, 1, 2, 3, 9, 10, 11, 12], lo=0)


class C05:
    trusted = ["the file system behaves as a map from paths to contents (engine model of ls, mkdirs, open)",
               "unquote_plus inverts quote_plus, and quote_plus(x) has no slash", "to_dict and from_dict are known by contract C01/C02"]
    assumptions = ["files below the root were written by the registry"]

    @staticmethod
    def tasks(tier):
        n, st = name_sort(), StoreSort()
        mk_ = lambda name, code, spec, ins, **kw: Task("storage." + name, code, spec, ins, setup=setup, frame=False, **kw)
        return [
            mk_("put(version)", S.code_put, S.spec_put, {"store": st, "n": n, "t": AnyType(), "v": Version()}),
            mk_("put", S.code_put_new, S.spec_put_new, {"store": st, "n": n, "t": AnyType()}),
            mk_("get(version)", S.code_get, S.spec_get, {"store": st, "n": n, "v": Version()}),
            mk_("get", S.code_get_latest, S.spec_get_latest, {"store": st, "n": n}),
            mk_("versions", S.code_versions, S.spec_versions, {"store": st, "n": n}),
            mk_("latest", S.code_latest, S.spec_latest, {"store": st, "n": n}),
            mk_("ls", S.code_ls, S.spec_ls, {"store": st}),
            mk_("histories", S.code_history, S.spec_history, {"store": st, "ops": Ops()}, bounded_only=True,
                note="bounded: histories of up to 8 operations on a real (in-memory) file system"),
        ]


# ---- HTTP ----------------------------------------------------------------------------------
class Storage(Model):
    """RegistryStorage by its contract (C05)."""

    def __init__(self, store):
        self.store = store

    def clone(self, memo, cloner):
        return Storage(cloner(self.store))

    def arg(self, it, args, kw, i, name):
        v = args[i] if len(args) > i else kw.entries.get(name)
        return it.force(v)

    def latest(self, it, n):
        return self.store.max(it, n) if self.store.has(it, n) else None

    def m_ls(self, it, args, kw):
        return Sorted("names", None, z3.IntVal(self.store.epoch))

    def m_versions(self, it, args, kw):
        n = canon(it, zs(self.arg(it, args, kw, 0, "name")))
        return None if self.latest(it, n) is None else Sorted("versions", n, z3.IntVal(self.store.epoch))

    def m_latest(self, it, args, kw):
        m = self.latest(it, canon(it, zs(self.arg(it, args, kw, 0, "name"))))
        return None if m is None else Sym(m)

    def m_get(self, it, args, kw):
        n = canon(it, zs(self.arg(it, args, kw, 0, "name")))
        v = self.arg(it, args, kw, 1, "version")
        if v is None:
            v = self.latest(it, n)
            if v is None:
                return None
            v = Sym(v)
        if not self.store.has_version(it, n, zi(v)):
            return None
        return (TypeModel("parsed", DocModel("doc", Sym(n), v)), v)

    def m_put(self, it, args, kw):
        n = zs(self.arg(it, args, kw, 0, "name"))
        t = self.arg(it, args, kw, 1, "type_")
        v = self.arg(it, args, kw, 2, "version")
        if v is None:
            m = self.latest(it, canon(it, n))
            v = 1 if m is None else mk(m + 1)
        self.store.write(it, n, zi(v), m_to_dict(it, [t], None))
        return v


class Awaitable(Model):
    def __init__(self, store):
        self.store = store

    def clone(self, memo, cloner):
        return Awaitable(cloner(self.store))

    def await_(self, it):
        self.store.advance(it)
        return Body()


class Body(Model):
    def m_decode(self, it, args, kw):
        enc = it.concrete(args[0]) if args else "utf-8"
        if str(enc).lower().replace("-", "") != "utf8" or len(args) > 1 or kw.entries:
            raise Unsupported("decoding")
        if not it.path.decide(z3.Bool("payload.utf8")):
            it.throw(UnicodeDecodeError, "not UTF-8")
        return Sym(z3.String("payload.text"))


class RequestModel(Model):
    def __init__(self, store, ctype):
        self.store, self.ctype = store, ctype

    def clone(self, memo, cloner):
        return RequestModel(cloner(self.store), self.ctype)

    def a_headers(self, it):
        return Headers(self.ctype)

    def m_body(self, it, args, kw):
        return Awaitable(self.store)


class Headers(Model):
    def __init__(self, ctype):
        self.ctype = ctype

    def m_get(self, it, args, kw):
        if it.concrete(args[0]).lower() != "content-type":
            raise Unsupported("another header")
        v = it.force(self.ctype)
        if v is None or isinstance(v, Sym) and v.kind == "val" and it.path.decide(Val.is_vnone(v.t)):
            return args[1] if len(args) > 1 else None
        return v


def m_loads(it, args, kw):
    from engine.builtins_ import b_loads

    v = it.force(args[0])
    if isinstance(v, Sym) and v.t.eq(z3.String("payload.text")):
        if not it.path.decide(z3.Bool("payload.json")):
            it.throw(json.JSONDecodeError, "not JSON")
        return DocModel("payload")
    return b_loads(it, args, kw)


def endpoint(method, template):
    from recap.server.app import app

    for r in app.routes:
        if getattr(r, "path_format", None) == template and method in (getattr(r, "methods", None) or ()):
            return r.endpoint
    return None


def m_serve(it, args, kw):
    from fastapi import HTTPException, Request
    from fastapi.params import Depends
    from recap.server import registry as R

    store, method, template, n, v, ctype, body = args
    store = it.force(store)
    f = endpoint(it.concrete(method), it.concrete(template))
    if f is None:
        raise Unsupported("no such route")
    a = VDict()
    for p in inspect.signature(f).parameters.values():
        if isinstance(p.default, Depends):
            if p.default.dependency is not R.get_storage:
                raise Unsupported("another dependency")
            a.entries[p.name] = Storage(store)
        elif p.annotation in (Request, "Request"):
            a.entries[p.name] = RequestModel(store, ctype)
        elif "{" + p.name + "}" in template:
            a.entries[p.name] = n if p.name == "name" else v
        else:
            raise Unsupported("unknown parameter")
    try:
        out = it.force(it.call(f, [], a))
    except PyExc as e:
        if isinstance(e.exc.cls, type) and issubclass(e.exc.cls, HTTPException):
            st = e.exc.attrs.get("status_code")
            if st is None:
                st = e.exc.attrs.get("args", (None,))[0]
            return (st, None)
        raise
    return (200, VList(list(out)) if isinstance(out, tuple) else out)


def setup_http(e):
    setup(e)
    e.models[json.loads] = m_loads
    e.models[S.serve] = m_serve
    e.models[S.arrive] = lambda it, args, kw: it.force(args[0]).advance(it)
    e.models[S.utf8] = lambda it, args, kw: it.path.decide(z3.Bool("payload.utf8"))

    def payload(it, args, kw):
        return DocModel("payload") if it.path.decide(z3.Bool("payload.json")) else Sym(z3.String("payload.text"))

    e.models[S.payload] = payload


class BodySort(Sort):
    def sym(self, it, name):
        return Body()

    def conc(self, c, name):
        if not c.boolean("payload.utf8", True):
            return b"\xff\xfe"
        if c.boolean("payload.json"):
            return b'"int32"' if c.boolean("payload.valid") else b'{"type": "nothing"}'
        return b"int32" if c.boolean("payload.alias") else b"no such type"

    def rand(self, r):
        k = r.random()
        if k < 0.6:
            return json.dumps(r.choice(DOCS)).encode()
        return r.choice([b"int32", b"bool", b"nothing", b"\xff", b"{", b"{}", b"5", b"null", b"[]", b'["null", "int32"]', b"",
                         b'{"type": "int"}', b'{"type": "int", "bits": -1}', b'{"type": "int", "bits": 32, "x": 1}'])


class C06:
    trusted = ["FastAPI calls the endpoint registered for the route and answers with its value or its HTTPException's status",
               "RegistryStorage is known by its contract (C05)", "other handlers only add versions (the property itself, as rely)"]
    assumptions = ["names are non-empty and have no slash (others do not reach the handlers)"]

    @staticmethod
    def tasks(tier):
        n = name_sort(SAFE)
        st, rv = StoreSort(SAFE), StoreSort(SAFE, rival=True)
        ct = Union(Const(None), Str(words=["application/x-recap+json", "application/json", "", "text/plain"]))
        mk_ = lambda name, code, spec, ins, req: Task("http." + name, code, spec, ins, setup=setup_http, frame=False, requires=req)
        return [
            mk_("put", S.code_http_put, S.spec_http_put, {"store": rv, "n": n, "v": Version(), "ctype": ct, "body": BodySort()}, S.r_put),
            mk_("post", S.code_http_post, S.spec_http_post, {"store": rv, "n": n, "ctype": ct, "body": BodySort()}, S.r_post),
            mk_("latest", S.code_http_latest, S.spec_http_latest, {"store": st, "n": n}, S.r_name),
            mk_("version", S.code_http_version, S.spec_http_version, {"store": st, "n": n, "v": Version()}, S.r_version),
            mk_("versions", S.code_http_versions, S.spec_http_versions, {"store": st, "n": n}, S.r_name),
            mk_("ls", S.code_http_ls, S.spec_http_ls, {"store": st}, None),
        ]
