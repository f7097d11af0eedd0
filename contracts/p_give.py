"""Commands and gateway (C23); files, registries, metastores (C25)."""
import json
import pathlib

import z3

from engine.contract import Task
from engine.interp import Model, mk, zs
from engine.sorts import Bool, Choice, Const, Int, ListOf, Obj, OptInt, OptStr, Sort, Str, Union
from engine.values import *

from contracts import give_spec as S
from contracts.p_store import Headers, endpoint
from contracts.recap_sort import recap_sort


class GivenModel(Model):
    def __init__(self, it, t, children, configured):
        self.t, self.children, self.configured, self.log = t, children, configured, VList([])
        self.out = VList([])

    def clone(self, memo, cloner):
        c = GivenModel.__new__(GivenModel)
        c.t, c.children, c.configured, c.log, c.out = cloner(self.t), cloner(self.children), self.configured, cloner(self.log), cloner(self.out)
        return c

    def changed(self, orig):
        return False

    def enter(self, it):
        it.given = self
        return self

    def exit(self, it, *_):
        return None

    def m_asked(self, it, args, kw):
        return self.log


class Through(Model):
    """The client of the stand-in system."""

    def __init__(self, given):
        self.given = given

    def enter(self, it):
        return self

    def exit(self, it, *_):
        return None

    def m_schema(self, it, args, kw):
        self.given.log.items.append(VList(list(args)))
        return self.given.t

    def m_ls(self, it, args, kw):
        self.given.log.items.append(VList(list(args)))
        return self.given.children


def safe_urls(it, args, kw):
    return VList(["standin://h", "standin://g"] if it.truth(it.given.configured) else ["standin://g"])


def tagged(tag, at=1):
    def go(it, args, kw):
        if len(args) != at + 1 or kw.entries:
            raise Unsupported("another call of " + tag)
        return VDict({"written as": tag, "type": args[at]})
    return go


class ConverterModel(Model):
    """A converter, by the contracts of C14 to C20 and C24."""

    def __init__(self, tag):
        self.tag = tag

    def m_from_recap(self, it, args, kw):
        return tagged(self.tag, 0)(it, args, kw)

    def m_to_recap(self, it, args, kw):
        return tagged("read by " + self.tag, 0)(it, args, kw)


def converters(e):
    def model(tag):
        def make(it, args, kw):
            if args or kw.entries:
                raise Unsupported("converter with options")
            return ConverterModel(tag)
        return make

    for c in (S.AvroConverter, S.JSONSchemaConverter, S.ProtobufConverter, S.BigQueryConverter):
        e.models[c] = model(c.__name__)


def commands_models(e):
    from proto_schema_parser.generator import Generator
    from recap import commands

    def given(it, args, kw):
        return GivenModel(it, *args)

    def parse_url(it, args, kw):
        method, url = it.force(args[0]), it.force(args[1])
        strict = args[2] if len(args) > 2 else kw.entries.get("strict", True)
        if url != S.url():
            raise Unsupported("another URL")
        configured = it.truth(it.given.configured)
        if it.truth(strict) and not configured:
            it.throw(ValueError, "not configured")
        return (f"standin://{'u:p@' if configured else ''}h", VList([method, "a", "b"]))

    def create_client(it, args, kw):
        url = it.force(args[0])
        if url not in ("standin://u:p@h", "standin://h"):
            raise Unsupported("another connection")
        it.given.log.items.append(VList(["connect", "u" if "@" in url else None, "h"]))
        return Through(it.given)

    e.models[S.Given] = given
    e.models[S.fmt_of] = lambda it, args, kw: commands.SchemaFormat(it.concrete(args[0]))
    e.models[S.RecapSettings.safe_urls.fget] = safe_urls
    e.models[Generator] = lambda it, args, kw: GeneratorModel()
    e.models[S.clients.parse_url] = parse_url
    e.models[S.clients.create_client] = create_client
    converters(e)
    e.models[S.to_dict] = tagged("recap", 0)
    import rich
    import typer

    e.models[S.printed] = m_printed
    e.models[rich.print_json] = out_json
    e.models[rich.print] = no_text
    e.models[typer.echo] = out_text
    e.models[S.plain] = lambda it, args, kw: args[0]
    e.models[S.serve] = m_serve


def m_serve(it, args, kw):
    import inspect

    from fastapi import HTTPException, Request
    from recap import commands

    template, u, ctype = args
    f = endpoint("GET", it.concrete(template).replace(":path", ""))
    if f is None:
        raise Unsupported("no such route")
    a = VDict()
    for p in inspect.signature(f).parameters.values():
        if p.annotation in (Request, "Request"):
            a.entries[p.name] = RequestStandIn(ctype)
        elif p.name == "url":
            a.entries[p.name] = u
        elif p.default is inspect.Parameter.empty:
            raise Unsupported("unknown parameter")
    try:
        return (200, it.force(it.call(f, [], a)))
    except PyExc as e:
        if isinstance(e.exc.cls, type) and issubclass(e.exc.cls, HTTPException):
            st = e.exc.attrs.get("status_code")
            return (e.exc.attrs.get("args", (None,))[0] if st is None else st, None)
        raise


class RequestStandIn(Model):
    def __init__(self, ctype):
        self.ctype = ctype

    def a_headers(self, it):
        return Headers(self.ctype)


class GeneratorModel(Model):
    def m_generate(self, it, args, kw):
        d = args[0]
        if len(args) != 1 or kw.entries or not isinstance(d, VDict) or not isinstance(d.entries.get("type"), Opaque):
            raise Unsupported("another text")
        return Sym(z3.String(f"text({d.entries['written as']}, {d.entries['type'].name})"))


def m_printed(it, args, kw):
    """Run the function behind a command."""
    import inspect

    from recap import cli, commands

    command, u, fmt = [it.force(a) for a in args]
    f = [c.callback for c in cli.app.registered_commands if (c.name or c.callback.__name__) == command]
    if len(f) != 1:
        raise Unsupported("no such command")
    a = VDict()
    for p in inspect.signature(f[0]).parameters.values():
        if p.name == "url":
            if u is not None:
                a.entries["url"] = u
        elif "SchemaFormat" in str(p.annotation):
            if fmt is not None:
                a.entries[p.name] = commands.SchemaFormat(it.concrete(fmt))
        else:
            raise Unsupported("unknown parameter")
    it.given.out = VList([])
    it.call(f[0], [], a)
    out = it.given.out.items
    if len(out) > 1:
        raise Unsupported("several outputs")
    return out[0] if out else None


def out_json(it, args, kw):
    if args or set(kw.entries) != {"data"}:
        raise Unsupported("printing in another way")
    it.given.out.items.append(kw.entries["data"])


def out_text(it, args, kw):
    if len(args) != 1 or kw.entries or it.kind_of(it.force(args[0])) != "str":
        raise Unsupported("printing in another way")
    it.given.out.items.append(args[0])


def no_text(it, args, kw):
    raise Unsupported("formatted printing")


class Row(Sort):
    """A struct that every format can express; the proof only knows its name."""

    def sym(self, it, name):
        return Opaque(name)

    def conc(self, c, name):
        return self.make([0, 1, 3])

    def rand(self, r):
        return self.make([r.randint(0, 3) for _ in range(r.randint(1, 3))], r.choice([None, None, ["y" * 90, "b", "c"]]))

    def make(self, picks, names=None):
        from recap.types import IntType, NullType, StringType, StructType, UnionType

        kinds = [lambda n: IntType(32, name=n), lambda n: IntType(64, name=n), lambda n: StringType(bytes_=2_147_483_648, name=n),
                 lambda n: UnionType([NullType(), IntType(64)], name=n, default=None)]
        return StructType([kinds[k](n) for k, n in zip(picks, names or ["a", "b", "c"])], alias="x.Row")


WORDS = Str(words=["a", "b", "x y", "T", "a.b", "%", "main"])
CTYPE = Union(Const(None), Str(words=[*S.CONTENT, "", "application/json", "text/plain", "application/avro", "application/x-recap"]))


class C23:
    trusted = ["parse_url and create_client are known by contract C22", "the server's router calls the endpoint whose path matches"]
    assumptions = ["one system, with or without credentials in the settings"]

    @staticmethod
    def tasks(tier):
        kw = dict(frame=False, setup=commands_models)
        names = ListOf(WORDS)
        return [
            Task("commands.schema", S.code_schema, S.spec_schema, {"t": Row(), "fmt": Choice(*S.FORMATS), "strict": Bool(), "configured": Bool()}, **kw),
            Task("commands.ls", S.code_ls, S.spec_ls, {"children": names, "what": Choice("url", "none", "empty", "nothing"), "strict": Bool(), "configured": Bool()}, **kw),
            Task("gateway.schema", S.code_gateway_schema, S.spec_gateway_schema, {"t": Row(), "ctype": CTYPE, "configured": Const(True)}, **kw),
            Task("gateway.ls", S.code_gateway_ls, S.spec_gateway_ls, {"children": Union(Const(None), names), "root": Bool(), "configured": Const(True)}, **kw),
            Task("cli.schema", S.code_cli_schema, S.spec_cli_schema, {"t": Row(), "fmt": Choice(None, *S.FORMATS), "configured": Bool()}, **kw),
            Task("cli.ls", S.code_cli_ls, S.spec_cli_ls, {"children": names, "root": Bool(), "configured": Bool()}, **kw),
            Task("gateway.schema unconfigured", S.code_gateway_schema, S.spec_gateway_schema, {"t": Row(), "ctype": CTYPE, "configured": Const(False)}, **kw),
            Task("gateway.ls unconfigured", S.code_gateway_ls, S.spec_gateway_ls, {"children": names, "root": Bool(), "configured": Const(False)}, **kw),
        ]


# ---- files, registries, metastores ---------------------------------------------------------
class FileModel(Model):
    def __init__(self, scheme, stem, suffix, upper, text):
        self.scheme, self.stem, self.suffix, self.upper, self.text = scheme, stem, suffix, upper, text
        self.path = Sym(z3.String("the path"))

    def enter(self, it):
        it.file = self
        return self

    def exit(self, it, *_):
        return None

    def a_path(self, it):
        return self.path

    def read(self, it, scheme, path):
        if not (isinstance(path, Sym) and path.t.eq(self.path.t)):
            raise Unsupported("another path")
        if scheme != it.concrete(self.scheme):
            it.throw(FileNotFoundError, "no such file")
        return self.text


class PathModel(Model):
    def __init__(self, path):
        self.path = path

    def a_suffix(self, it):
        if it.truth(it.eq(it.file.suffix, "")):
            return ""
        return SuffixModel(it.file, "as written")

    def m_read_text(self, it, args, kw):
        if args or any(k != "encoding" for k in kw.entries):
            raise Unsupported("reading in another way")
        return it.file.read(it, "file", self.path)


class SuffixModel(Model):
    def __init__(self, file, case, dot=True):
        self.file, self.case, self.dot = file, case, dot

    def m_lower(self, it, args, kw):
        return SuffixModel(self.file, "lower", self.dot).known()

    m_casefold = m_lower

    def m_strip(self, it, args, kw):
        if len(args) != 1 or it.concrete(args[0]) != ".":
            raise Unsupported("stripping something else")
        return SuffixModel(self.file, self.case, False).known()

    m_lstrip = m_removeprefix = m_strip

    def getitem(self, it, k):
        raise Unsupported("part of the suffix")

    def known(self):
        if self.case == "lower" and not self.dot:
            return self.file.suffix
        if self.case == "lower":
            return DottedModel(self.file, "lower", True)
        return self

    def eq(self, it, o):
        raise Unsupported("comparison of a suffix as written")


class DottedModel(SuffixModel):
    def eq(self, it, o):
        o = it.force(o)
        if not isinstance(o, str):
            raise Unsupported("comparison of a suffix")
        return it.eq(self.file.suffix, o[1:]) if o.startswith(".") else False


class FsModel(Model):
    def __init__(self, scheme):
        self.scheme = scheme

    def m_read_text(self, it, args, kw):
        return it.file.read(it, self.scheme, it.force(args[0]))


def file_models(e):
    import fsspec

    e.models[S.File] = lambda it, args, kw: FileModel(*args)
    e.models[pathlib.Path] = lambda it, args, kw: PathModel(it.force(args[0]))
    e.models[fsspec.filesystem] = lambda it, args, kw: FsModel(it.concrete(args[0]))
    reading(e)


def reading(e):
    converters(e)
    e.models[S.columns_named] = lambda it, args, kw: args[0]


def hive_models(e):
    from recap.types import IntType, StructType

    def table(it, args, kw):
        out = VList([it.call(IntType, [32], VDict({"name": n})) for n in it.force(args[0]).items])
        return it.call(StructType, [out], VDict())

    def stats(cls):
        def make(it, args, kw):
            if args:
                raise Unsupported("statistics by position")
            return VObj(cls, {**kw.entries, "typeName": cls.__name__})
        return make

    for c in (S.LongTypeStats, S.DoubleTypeStats, S.DateTypeStats, S.DecimalTypeStats, S.StringTypeStats, S.BinaryTypeStats, S.BooleanTypeStats):
        e.models[c] = stats(c)
    e.models[S.htable] = table
    e.models[S.HiveMetastoreConverter.to_recap] = lambda it, args, kw: args[1]


TEXTS = {
    "avro": '{"type": "record", "name": "R", "fields": [{"name": "a", "type": "int"}]}',
    "json": '{"type": "object", "properties": {"a": {"type": "string"}}}',
    "protobuf": 'syntax = "proto3";\nmessage M { int32 a = 1; }',
}


class Text(Str):
    """Text that one of the formats can read."""

    def __init__(self):
        super().__init__(words=list(TEXTS.values()) + ["", "{"])

    def conc(self, c, name):
        return self.words[0]

    def rand(self, r):
        return r.choice(self.words)


class Stat(Sort):
    def __init__(self, kind, col):
        n = OptInt(lo=0)
        self.parts = [Const(col), Const(kind), Int(lo=0), n, n, n]

    def sym(self, it, name):
        return VList([s.sym(it, f"{name}.{i}") for i, s in enumerate(self.parts)])

    def conc(self, c, name):
        return [s.conc(c, f"{name}.{i}") for i, s in enumerate(self.parts)]

    def rand(self, r):
        return [s.rand(r) for s in self.parts]


class Fixed(Stat):
    """A list of this many."""

    def __init__(self, *parts):
        self.parts = parts


class Stats(Sort):
    KINDS = ["long", "double", "date", "decimal", "string", "binary", "boolean", "none"]

    def sym(self, it, name):
        raise Unsupported("any number of columns")

    def conc(self, c, name):
        return []

    def rand(self, r):
        return [Stat(r.choice(self.KINDS), r.randint(0, 5)).rand(r) for _ in range(r.randint(0, 4))]


class C25:
    trusted = ["the drivers of Confluent, Hive and BigQuery do what their methods say (stand-ins with the methods' signatures)"]
    assumptions = ["Hive statistics are about columns of the table, at most once each"]

    @staticmethod
    def tasks(tier):
        suffix = Str(words=[*S.KINDS, "", "txt", "parquet", "csv", "av", "yaml"], regex=r"[a-z0-9_~ -]*")
        kinds = Stats.KINDS
        kw = dict(frame=False)
        o, n = OptStr(words=["a", "b", "x y"]), ListOf(WORDS)
        out = [
            Task("fs.schema", S.code_file, S.spec_file, {"scheme": Choice("file", "memory"), "stem": Str(words=["a", "a.b", ".a", "x y", "a.json"], regex=r"[A-Za-z0-9_. -]+"), "suffix": suffix, "upper": Bool(),
                 "text": Text()}, requires=S.r_file, setup=file_models, **kw),
            Task("fs.ls", S.code_dir, S.spec_dir, {"scheme": Choice("file", "memory"), "names": Names()}, bounded_only=True, note="bounded: directories with up to four entries", **kw),
            Task("confluent.schema", S.code_subject, S.spec_subject, {"subject": Str(words=["a", "a-value", "a-key", "-key", "value", "a-Value", "key-a", ""]),
                 "kind": Str(words=["AVRO", "JSON", "PROTOBUF", "avro", "XML"]), "text": Text()}, setup=reading, **kw),
            Task("confluent.ls", S.code_subjects, S.spec_subjects, {"subjects": n}, **kw),
            Task("hive.ls", S.code_hive_ls, S.spec_hive_ls, {"database": o, "table": o, "databases": n, "tables": n}, **kw),
            Task("bigquery.ls", S.code_bigquery_ls, S.spec_bigquery_ls, {"project": o, "dataset": o, "table": o, "names": n}, **kw),
            Task("bigquery.schema", S.code_bigquery, S.spec_bigquery, {"project": WORDS, "dataset": WORDS, "table": WORDS, "names": n}, setup=reading, **kw),
        ]
        for k in kinds:
            for other in kinds if tier == "thorough" else ["date", "none"]:
                out.append(Task(f"hive.schema({k}, {other})", S.code_hive, S.spec_hive, {"names": Fixed(WORDS, WORDS), "stats": Fixed(Stat(k, 1), Stat(other, 0)), "wanted": Bool()},
                                requires=S.r_hive, setup=hive_models, **kw))
        out.append(Task("hive.schema", S.code_hive, S.spec_hive, {"names": ListOf(WORDS), "stats": Stats(), "wanted": Bool()}, requires=S.r_hive, bounded_only=True,
                        note="bounded: tables of a few columns", **kw))
        return out


class Names(Sort):
    def sym(self, it, name):
        raise Unsupported("directory")

    def conc(self, c, name):
        return ["a", "b/"]

    def rand(self, r):
        out = []
        for n in ("a", "b.json", "x y", "d", "é", ".h"):
            if r.random() < 0.5:
                out.append(n + r.choice(["", "/"]))
        return out
