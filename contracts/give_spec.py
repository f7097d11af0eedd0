"""What is handed over: commands, HTTP gateway, files, registries, metastores (C23, C25).

Natively the commands run against a stand-in client that is registered like the real ones,
the gateway is asked over ASGI, files are really written; the drivers of registries and
metastores are stand-ins that record what they are asked for."""
import asyncio
import json
import os
import shutil
import tempfile
from contextlib import contextmanager
from urllib.parse import quote

from proto_schema_parser.generator import Generator
from pymetastore.htypes import HPrimitiveType, PrimitiveCategory
from pymetastore.metastore import HColumn, HStorage, HTable, StorageFormat
from pymetastore.stats import (
    BinaryTypeStats, BooleanTypeStats, DateTypeStats, DecimalTypeStats, DoubleTypeStats, LongTypeStats, StringTypeStats,
)

import recap.clients as clients
from recap import commands
from recap.clients.bigquery import BigQueryClient
from recap.clients.confluent_registry import ConfluentRegistryClient
from recap.clients.fs import FilesystemClient
from recap.clients.hive_metastore import HiveMetastoreClient
from recap.converters.avro import AvroConverter
from recap.converters.bigquery import BigQueryConverter
from recap.converters.hive_metastore import HiveMetastoreConverter
from recap.converters.json_schema import JSONSchemaConverter
from recap.converters.protobuf import ProtobufConverter
from recap.settings import RecapSettings
from recap.types import to_dict

from contracts.speclib import Rejected

FORMATS = ("avro", "json", "protobuf", "recap")
CONTENT = {"application/schema+json": "json", "application/avro+json": "avro", "application/x-protobuf": "protobuf", "application/x-recap+json": "recap"}
ROOT = "standin://u:p@h"


# ---- a system behind a URL ----------------------------------------------------------------
class StandIn:
    type, children, asked = None, None, []

    @staticmethod
    @contextmanager
    def create(**kw):
        StandIn.asked.append(["connect", kw.get("username"), kw.get("host")])
        yield StandIn()

    @staticmethod
    def parse(method, **kw):
        return (f"standin://{kw['host']}", [method, *kw["paths"]])

    def schema(self, *args):
        StandIn.asked.append(list(args))
        return StandIn.type

    def ls(self, *args):
        StandIn.asked.append(list(args))
        return StandIn.children


class Given:
    """The system with this type and these children, configured or not."""

    def __init__(self, t, children, configured):
        self.t, self.children, self.configured = t, children, configured

    def __enter__(self):
        StandIn.type, StandIn.children, StandIn.asked = self.t, self.children, []
        clients.CLIENTS["standin"] = "contracts.give_spec.StandIn"
        urls = RecapSettings(urls=[ROOT, "standin://v:q@g"] if self.configured else ["standin://v:q@g"]).urls
        self.old = [(m.settings, m.settings.urls) for m in (clients, commands) if hasattr(m, "settings")]
        for s, _ in self.old:
            s.urls = urls
        return self

    def __exit__(self, *_):
        for s, urls in self.old:
            s.urls = urls
        del clients.CLIENTS["standin"]

    def asked(self):
        return StandIn.asked


def url():
    return "standin://h/a/b"


def fmt_of(name):
    return commands.SchemaFormat(name)


def code_schema(t, fmt, strict, configured):
    with Given(t, None, configured) as g:
        out = commands.schema(url(), fmt_of(fmt), strict)
        return (out, g.asked())


def asked_for(method, strict, configured):
    """Credentials are lent by the configured URL."""
    if strict and not configured:
        raise Rejected()
    return [["connect", "u" if configured else None, "h"], [method, "a", "b"]]


def in_format(t, fmt):
    if fmt == "avro":
        return AvroConverter().from_recap(t)
    if fmt == "json":
        return JSONSchemaConverter().from_recap(t)
    if fmt == "protobuf":
        return Generator().generate(ProtobufConverter().from_recap(t))
    return to_dict(t)


def spec_schema(t, fmt, strict, configured):
    asked = asked_for("schema", strict, configured)
    return (in_format(t, fmt), asked)


def code_ls(children, what, strict, configured):
    with Given(None, children, configured) as g:
        if what == "url":
            out = commands.ls(url(), strict)
        elif what == "none":
            out = commands.ls(None, strict)
        elif what == "empty":
            out = commands.ls("", strict)
        else:
            out = commands.ls()
        return (out, g.asked())


def safe(configured):
    return ["standin://h", "standin://g"] if configured else ["standin://g"]


def spec_ls(children, what, strict, configured):
    if what != "url":
        return (safe(configured), [])
    asked = asked_for("ls", strict, configured)
    return (children, asked)


# ---- the gateway ---------------------------------------------------------------------------
def serve(template, u, ctype):
    """One request to the gateway: (status, body)."""
    from recap.server.app import app

    path = template.replace("{url:path}", u)
    headers = [] if ctype is None else [(b"content-type", ctype.encode("latin-1", "replace"))]
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": "GET", "path": path,
             "raw_path": quote(path).encode(), "query_string": b"", "headers": headers, "client": ("c", 1),
             "server": ("s", 80), "scheme": "http", "root_path": ""}
    got = {"body": b""}

    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}

    async def send(m):
        if m["type"] == "http.response.start":
            got["status"] = m["status"]
        else:
            got["body"] += m.get("body", b"")

    asyncio.run(app(scope, receive, send))
    return (got["status"], json.loads(got["body"]) if got["status"] == 200 else None)


def code_gateway_schema(t, ctype, configured):
    with Given(t, None, configured) as g:
        out = serve("/gateway/schema/{url:path}", url(), ctype)
        return (out, g.asked())


def plain(x):
    """What arrives over HTTP."""
    return json.loads(json.dumps(x))


def spec_gateway_schema(t, ctype, configured):
    fmt = "recap" if ctype is None or ctype == "" else CONTENT.get(ctype)
    if fmt is None:
        return ((415, None), [])
    asked = asked_for("schema", True, configured)
    return ((200, plain(in_format(t, fmt))), asked)


def code_gateway_ls(children, root, configured):
    with Given(None, children, configured) as g:
        out = serve("/gateway/ls/{url:path}", "" if root else url(), None)
        return (out, g.asked())


def spec_gateway_ls(children, root, configured):
    if root:
        return ((200, safe(configured)), [])
    asked = asked_for("ls", True, configured)
    return ((404, None) if children is None else (200, children), asked)


# ---- the command line ----------------------------------------------------------------------
def printed(command, u, fmt):
    """What a command prints: its JSON value or text, or None."""
    from typer.testing import CliRunner

    from recap.cli import app

    args = [command] + ([] if u is None else [u]) + ([] if fmt is None else ["--output-format", fmt])
    r = CliRunner().invoke(app, args)
    if r.exit_code != 0:
        raise r.exception
    if fmt == "protobuf":
        return r.stdout[:-1]
    return json.loads(r.stdout) if r.stdout else None


def code_cli_schema(t, fmt, configured):
    with Given(t, None, configured) as g:
        out = printed("schema", url(), fmt)
        return (out, g.asked())


def spec_cli_schema(t, fmt, configured):
    asked = asked_for("schema", False, configured)
    return (plain(in_format(t, "recap" if fmt is None else fmt)), asked)


def code_cli_ls(children, root, configured):
    with Given(None, children, configured) as g:
        out = printed("ls", None if root else url(), None)
        return (out, g.asked())


def spec_cli_ls(children, root, configured):
    if root:
        return (safe(configured), [])
    asked = asked_for("ls", False, configured)
    return (children if children else None, asked)


# ---- files ---------------------------------------------------------------------------------
KINDS = {"avsc": "avro", "avro": "avro", "avdl": "avro", "avpr": "avro", "json": "json", "jsonschema": "json", "jsons": "json",
         "proto": "protobuf", "protobuf": "protobuf", "protos": "protobuf", "proto3": "protobuf", "proto2": "protobuf"}


def read_as(kind, text):
    if kind == "avro":
        return AvroConverter().to_recap(text)
    if kind == "json":
        return JSONSchemaConverter().to_recap(text)
    if kind == "protobuf":
        return ProtobufConverter().to_recap(text)
    raise Rejected()


class File:
    """A file with a name of the form stem.suffix (no dot if there is no suffix)."""

    def __init__(self, scheme, stem, suffix, upper, text):
        self.scheme, self.text = scheme, text
        self.name = stem + ("." + (suffix.upper() if upper else suffix) if suffix else "")

    def __enter__(self):
        if self.scheme == "file":
            self.dir = tempfile.mkdtemp(prefix="recap-files-")
            self.path = f"{self.dir}/{self.name}"
            with open(self.path, "w") as f:
                f.write(self.text)
        else:
            import fsspec

            self.path = f"/recap-files/{self.name}"
            fsspec.filesystem(self.scheme).pipe_file(self.path, self.text.encode())
        return self

    def __exit__(self, *_):
        if self.scheme == "file":
            shutil.rmtree(self.dir)
        else:
            import fsspec

            fsspec.filesystem(self.scheme).rm("/recap-files", recursive=True)


def code_file(scheme, stem, suffix, upper, text):
    with File(scheme, stem, suffix, upper, text) as f:
        with FilesystemClient.create(scheme) as c:
            return c.schema(f.path)


def spec_file(scheme, stem, suffix, upper, text):
    return read_as(KINDS.get(suffix), text)


def r_file(scheme, stem, suffix, upper, text):
    return stem != "" and len(stem) < 60 and len(suffix) < 60 and (suffix != "" or "." not in stem) and "/" not in stem and "/" not in suffix and "." not in suffix and "\0" not in stem and "\0" not in suffix


def code_dir(scheme, names):
    import fsspec

    made = tempfile.mkdtemp(prefix="recap-files-")
    fs = fsspec.filesystem(scheme)
    try:
        fs.mkdirs(made, exist_ok=True)
        for n in names:
            if n.endswith("/"):
                fs.mkdir(f"{made}/{n[:-1]}")
            else:
                fs.pipe_file(f"{made}/{n}", b"")
        with FilesystemClient.create(scheme) as c:
            return sorted(c.ls(made + "/"))
    finally:
        if scheme != "file":
            fs.rm(made, recursive=True)
        shutil.rmtree(made)


def spec_dir(scheme, names):
    return sorted([n.rstrip("/") for n in names])


# ---- schema registries ---------------------------------------------------------------------
class Schema:
    def __init__(self, text, kind):
        self.schema_str, self.schema_type = text, kind


class Registered:
    def __init__(self, subject, version, schema):
        self.subject, self.version, self.schema = subject, version, schema


class Registry:
    def __init__(self, subjects, text, kind):
        self.subjects, self.text, self.kind, self.asked = subjects, text, kind, []

    def get_subjects(self):
        return self.subjects

    def get_latest_version(self, subject):
        self.asked.append([subject, "latest"])
        return Registered(subject, 7, Schema(self.text, self.kind))

    def get_version(self, subject, version):
        self.asked.append([subject, "latest" if version == -1 or version == "latest" else version])
        return Registered(subject, version, Schema(self.text, self.kind))


def code_subject(subject, kind, text):
    r = Registry([], text, kind)
    t = ConfluentRegistryClient(r).schema(subject)
    return (t, r.asked)


def spec_subject(subject, kind, text):
    if not (subject.endswith("-key") or subject.endswith("-value")):
        subject = subject + "-value"
    return (read_as({"AVRO": "avro", "JSON": "json", "PROTOBUF": "protobuf"}.get(kind), text), [[subject, "latest"]])


def code_subjects(subjects):
    return ConfluentRegistryClient(Registry(subjects, "", "")).ls()


def spec_subjects(subjects):
    return subjects


# ---- Hive ----------------------------------------------------------------------------------
class ColumnStats:
    def __init__(self, name, stats):
        self.columnName, self.stats = name, stats


class Metastore:
    def __init__(self, table, stats, databases, tables):
        self.table, self.stats, self.databases, self.tables, self.asked = table, stats, databases, tables, []

    def get_table(self, database, table):
        self.asked.append(["table", database, table])
        return self.table

    def get_table_stats(self, table, columns=None):
        self.asked.append(["stats", columns or []])
        return self.stats

    def list_databases(self):
        self.asked.append(["databases"])
        return self.databases

    def list_tables(self, database):
        self.asked.append(["tables", database])
        return self.tables


def htable(names):
    return HTable("db", "t", "MANAGED_TABLE", [HColumn(n, HPrimitiveType(PrimitiveCategory.INT)) for n in names], [], HStorage(StorageFormat("", "", "")), {})


class Day:
    def __init__(self, n):
        self.daysSinceEpoch = n


def stats_of(kind, n, a, b, c):
    """n nulls; a, b and c are the further numbers (or None)."""
    if kind == "long":
        return LongTypeStats(cardinality=a, numNulls=n, lowValue=b, highValue=c)
    if kind == "double":
        return DoubleTypeStats(cardinality=a, numNulls=n, lowValue=b, highValue=c)
    if kind == "date":
        return DateTypeStats(cardinality=a, numNulls=n, lowValue=None if b is None else Day(b), highValue=None if c is None else Day(c))
    if kind == "decimal":
        return DecimalTypeStats(cardinality=a, numNulls=n, lowValue=b, highValue=c)
    if kind == "string":
        return StringTypeStats(maxColLen=a, avgColLen=b, cardinality=c, numNulls=n)
    if kind == "binary":
        return BinaryTypeStats(maxColLen=a, avgColLen=b, numNulls=n)
    if kind == "boolean":
        return BooleanTypeStats(numTrues=a, numFalses=b, numNulls=n)
    return None


def noted(kind, n, a, b, c):
    """The attributes that statistics give a column."""
    if kind == "none":
        return {}
    if kind == "string":
        return {"max_length": a, "average_length": b, "cardinality": c, "null_count": n}
    if kind == "binary":
        return {"max_length": a, "average_length": b, "null_count": n}
    if kind == "boolean":
        return {"true_count": a, "false_count": b, "null_count": n}
    out = {"cardinality": a, "null_count": n}
    if b is not None or kind == "long" or kind == "double":
        out["low"] = b
    if c is not None or kind == "long" or kind == "double":
        out["high"] = c
    return out


def code_hive(names, stats, wanted):
    m = Metastore(htable(names), [ColumnStats(names[s[0] % len(names)], stats_of(s[1], s[2], s[3], s[4], s[5])) for s in stats], [], [])
    t = HiveMetastoreClient(m).schema("d", "t", wanted)
    return ([(f.extra_attrs["name"], rest(f.extra_attrs)) for f in t.fields], m.asked)


def rest(attrs):
    out = dict(attrs)
    out.pop("name")
    out.pop("default", None)
    return out


def spec_hive(names, stats, wanted):
    out = []
    for i, n in enumerate(names):
        attrs = {}
        for s in stats:
            if wanted and s[0] % len(names) == i:
                attrs = attrs | noted(s[1], s[2], s[3], s[4], s[5])
        out.append((n, attrs))
    return (out, [["table", "d", "t"]] + ([["stats", []]] if wanted else []))


def r_hive(names, stats, wanted):
    cols = [s[0] % len(names) for s in stats]
    return len(set(names)) == len(names) and len(set(cols)) == len(cols)


def code_hive_ls(database, table, databases, tables):
    m = Metastore(None, None, databases, tables)
    return (HiveMetastoreClient(m).ls(database, table), m.asked)


def spec_hive_ls(database, table, databases, tables):
    if database is None and table is not None:
        raise Rejected()
    if database is None:
        return (databases, [["databases"]])
    if table is None:
        return (tables, [["tables", database]])
    return ([table], [])


# ---- BigQuery ------------------------------------------------------------------------------
class DatasetRef:
    def __init__(self, dataset, project):
        self.dataset_id, self.project = dataset, project

    def table(self, table):
        return TableRef(self, table)


class TableRef:
    def __init__(self, dataset, table):
        self.dataset, self.table_id = dataset, table


class Item:
    def __init__(self, name):
        self.project_id = self.dataset_id = self.table_id = name


class Table:
    def __init__(self, schema):
        self.schema = schema


class BigQuery:
    def __init__(self, names, schema):
        self.names, self.columns, self.asked = names, schema, []

    def dataset(self, dataset, project=None):
        return DatasetRef(dataset, project)

    def list_projects(self):
        self.asked.append(["projects"])
        return [Item(n) for n in self.names]

    def list_datasets(self, project=None):
        self.asked.append(["datasets", project])
        return [Item(n) for n in self.names]

    def list_tables(self, ref):
        self.asked.append(["tables", ref.project, ref.dataset_id])
        return [Item(n) for n in self.names]

    def get_table(self, ref):
        self.asked.append(["table", ref.dataset.project, ref.dataset.dataset_id, ref.table_id])
        return Table(self.columns)


def code_bigquery_ls(project, dataset, table, names):
    b = BigQuery(names, [])
    return (BigQueryClient(b).ls(project, dataset, table), b.asked)


def spec_bigquery_ls(project, dataset, table, names):
    if table is not None or (project is None and dataset is not None):
        raise Rejected()
    if project is None:
        return (names, [["projects"]])
    if dataset is None:
        return (names, [["datasets", project]])
    return (names, [["tables", project, dataset]])


def columns_named(names):
    from google.cloud.bigquery import SchemaField

    return [SchemaField(n, "STRING") for n in names]


def code_bigquery(project, dataset, table, names):
    b = BigQuery([], columns_named(names))
    return (BigQueryClient(b).schema(project, dataset, table), b.asked)


def spec_bigquery(project, dataset, table, names):
    return (BigQueryConverter().to_recap(columns_named(names)), [["table", project, dataset, table]])
