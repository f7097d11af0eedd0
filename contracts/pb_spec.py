"""Protobuf: what a .proto file denotes, and what a Recap type becomes."""
from __future__ import annotations

from proto_schema_parser import ast
from proto_schema_parser.generator import Generator
from proto_schema_parser.parser import Parser

from contracts.speclib import (
    Bool, Bytes, Enum, Float, Int, List, Map, Node, Null, Proxy, Rejected, String, Struct, Union, as_node,
)
from recap import types as T
from recap.converters.protobuf import ProtobufConverter

LIMIT = 2_147_483_648
INTS = {"int32": (32, True), "int64": (64, True), "sint32": (32, True), "sint64": (64, True), "sfixed32": (32, True),
        "sfixed64": (64, True), "uint32": (32, False), "uint64": (64, False), "fixed32": (32, False), "fixed64": (64, False)}


def scalar(t):
    """The Recap type of a built-in Protobuf type, or None."""
    for k in INTS:
        if t == k:
            return Int(INTS[k][0], INTS[k][1])
    if t == "string":
        return String(LIMIT)
    if t == "bytes":
        return Bytes(LIMIT)
    if t == "bool":
        return Bool()
    if t == "float":
        return Float(32)
    if t == "double":
        return Float(64)
    if t == "google.protobuf.Timestamp":
        return Int(64, logical="build.recap.Timestamp", unit="nanosecond", timezone="UTC")
    if t == "google.protobuf.Duration":
        return Int(64, logical="build.recap.Duration", unit="nanosecond")
    if t == "google.protobuf.NullValue":
        return Null()
    return None


def qualified(t, ns):
    t = t.removeprefix(".")
    return t if "." in t else ns + "." + t


def named(t, ns, known):
    """A type by its name; references stay references (known: the names in the file)."""
    s = scalar(t)
    if s is not None:
        return s
    alias = qualified(t, ns)
    if not known(alias):
        raise Rejected()
    return Proxy(alias)


def field(f, ns, known, required=False):
    t = as_node(named(f.type, ns, known))
    if not required and f.cardinality == ast.FieldCardinality.REPEATED:
        t = List(t)
    if not required and f.cardinality != ast.FieldCardinality.REQUIRED:
        if t.kind != "null":
            t = Union([Null(), t])
        t.attrs["default"] = None
    t.attrs["name"] = f.name
    return t


def element(e, ns, known):
    """The field of a message element, or None."""
    if isinstance(e, ast.Field):
        return field(e, ns, known)
    if isinstance(e, ast.MapField):
        k = as_node(named(e.key_type, ns, known))
        if k.kind not in ("int", "string", "bool"):
            raise Rejected()
        return Union([Null(), Map(k, as_node(named(e.value_type, ns, known)))], default=None, name=e.name)
    if isinstance(e, ast.OneOf):
        parts = [field(x, ns, known, True) for x in e.elements if isinstance(x, ast.Field)]
        return Union([Null()] + parts, default=None, name=e.name)
    return None


def message(m, ns, known):
    fields = [element(e, ns, known) for e in m.elements if isinstance(e, (ast.Field, ast.MapField, ast.OneOf))]
    return Struct(fields, alias=ns + "." + m.name)


# ---- one message ---------------------------------------------------------------------------
def proto_text(package, elements):
    """The text of a file (for the verifier, a token that its parser reads back)."""
    es = ([ast.Package(package)] if package is not None else []) + list(elements)
    return Generator().generate(ast.File(file_elements=es))


def code_message(namespace, package, name, elements):
    c = ProtobufConverter() if namespace is None else ProtobufConverter(namespace)
    return c.to_recap(proto_text(package, [ast.Message(name, elements)]))


def spec_message(namespace, package, name, elements):
    ns = package if package is not None else namespace if namespace is not None else "_root"
    return message(ast.Message(name, elements), ns, lambda a: a == ns + "." + name)


def code_packaged(package, name, elements):
    return code_message(None, package, name, elements)


def spec_packaged(package, name, elements):
    return spec_message(None, package, name, elements)


def code_two(namespace, package, a, b, s, t):
    """The types that names stand for: two required fields, as types have an identity."""
    R = ast.FieldCardinality.REQUIRED
    return code_message(namespace, package, "M", [ast.Field(a, 1, s, R), ast.Field(b, 2, t, R)])


def spec_two(namespace, package, a, b, s, t):
    R = ast.FieldCardinality.REQUIRED
    return spec_message(namespace, package, "M", [ast.Field(a, 1, s, R), ast.Field(b, 2, t, R)])


def code_map_keys(a, b, key, key2):
    return code_message(None, None, "M", [ast.MapField(a, 1, key, "bool"), ast.MapField(b, 2, key2, "string")])


def spec_map_keys(a, b, key, key2):
    return spec_message(None, None, "M", [ast.MapField(a, 1, key, "bool"), ast.MapField(b, 2, key2, "string")])


def code_enum(package, name, values):
    """An enum that the message's only field refers to."""
    f = ast.Field("f", 1, name, ast.FieldCardinality.REQUIRED)
    e = ast.Enum(name, [ast.EnumValue(v, i) for i, v in enumerate(values)])
    return ProtobufConverter().to_recap(proto_text(package, [ast.Message("M", [f]), e]))


def r_enum(package, name, values):
    return name != "M" and scalar(name) is None


def spec_enum(package, name, values):
    ns = package if package is not None else "_root"
    return Struct([Enum(values, alias=ns + "." + name, name="f")], alias=ns + ".M")


def code_nothing(package):
    return ProtobufConverter().to_recap(proto_text(package, []))


def spec_nothing(package):
    raise Rejected()


# ---- whole files (bounded) -----------------------------------------------------------------
def code_files(files):
    """Several files, converted one after the other by one converter; references unfolded."""
    c = ProtobufConverter()
    out = []
    for p, es in files:
        try:
            t = c.to_recap(proto_text(p, es))
        except Exception:
            out.append("rejected")
        else:
            out.append(unfold(t, 4, ()))
    return out


def unfold(t, depth, seen):
    """The type with references replaced by what they denote, to a depth."""
    if t.type_ == "proxy":
        extra, alias = t.extra_attrs, t.alias
        if depth == 0:
            return Proxy(alias, **extra)
        n = unfold(t.resolve(), depth, seen)
        n.alias = alias
        n.attrs.update(extra)
        return n
    n = as_node(t)
    n.attrs = dict(n.attrs)
    for k in ("values", "keys"):
        if k in n.own:
            n.own[k] = unfold(n.own[k], depth, seen)
    if "types" in n.own:
        n.own["types"] = [unfold(x, depth, seen) for x in n.own["types"]]
    if "fields" in n.own:
        n.own["fields"] = [unfold(x, depth - 1, seen) if depth else Proxy("cut") for x in n.own["fields"]]
    return n


def spec_files(files):
    table, out = {}, []
    for p, es in files:
        try:
            out.append(file(p if p is not None else "_root", es, table))
        except Rejected:
            out.append("rejected")
    return out


def file(ns, es, table):
    first = None
    for e in es:
        if isinstance(e, ast.Message):
            declare(e, ns, table)
            first = first or e
        elif isinstance(e, ast.Enum):
            add(table, ns + "." + e.name, (e, ns))
    if first is None:
        raise Rejected()
    closed(first, ns, table, set())
    return expand(first, ns, table, 4, ns + "." + first.name)


def closed(d, ns, table, seen):
    """Everything a message refers to, directly or not, is declared."""
    for f in message(d, ns, lambda a: a in table).own["fields"]:
        for r in references(f):
            if r not in seen:
                seen.add(r)
                if isinstance(table[r][0], ast.Message):
                    closed(*table[r], table, seen)


def references(t):
    if t.kind == "proxy":
        return [t.alias]
    return [r for x in [t.own.get("keys"), t.own.get("values"), *t.own.get("types", [])] if x is not None for r in references(x)]


def add(table, name, what):
    if name in table:
        raise Rejected()
    table[name] = what


def declare(m, ns, table):
    for e in m.elements:
        if isinstance(e, ast.Message):
            declare(e, ns, table)
        elif isinstance(e, ast.Enum):
            add(table, ns + "." + e.name, (e, ns))
    add(table, ns + "." + m.name, (m, ns))


def expand(d, ns, table, depth, alias):
    if isinstance(d, ast.Enum):
        return Enum([v.name for v in d.elements if isinstance(v, ast.EnumValue)], alias=alias)
    n = message(d, ns, lambda a: a in table)
    n.alias = alias
    n.own["fields"] = [follow(f, table, depth - 1) if depth else Proxy("cut") for f in n.own["fields"]]
    return n


def follow(t, table, depth):
    if t.kind == "proxy":
        if depth == 0:
            return t
        n = expand(*table[t.alias], table, depth, t.alias)
        n.attrs.update(t.attrs)
        return n
    for k in ("values", "keys"):
        if k in t.own:
            t.own[k] = follow(t.own[k], table, depth)
    if "types" in t.own:
        t.own["types"] = [follow(x, table, depth) for x in t.own["types"]]
    return t


# ---- writing -------------------------------------------------------------------------------
def leaf(t):
    """The Protobuf type of a Recap type that needs no label, or None."""
    k = t.type_
    if k == "null":
        return "google.protobuf.NullValue"
    if k == "bool":
        return "bool"
    if k == "int":
        if t.bits > 64:
            raise Rejected()
        return ("int" if t.signed else "uint") + ("32" if t.bits <= 32 else "64")
    if k == "float":
        if t.bits > 64:
            raise Rejected()
        return "float" if t.bits <= 32 else "double"
    if k == "string" or k == "bytes":
        if t.bytes_ is None or t.bytes_ > LIMIT:
            raise Rejected()
        return k
    if k == "struct" or k == "enum" or k == "proxy":
        if t.alias is None:
            raise Rejected()
        return "." + t.alias
    return None


def label(t):
    """leaf() of a type that is nested where Protobuf has no room for a label."""
    x = leaf(t)
    if x is None:
        raise Rejected()
    return x


def own(t, default):
    return t.extra_attrs["name"] if "name" in t.extra_attrs else default


def write(t, n, default=None):
    """The element that declares field number n (a oneof: n and the following)."""
    name = own(t, default if default is not None else f"field_{n}")
    x = leaf(t)
    if x is not None:
        return ast.Field(name, n, x)
    if t.type_ == "list":
        return ast.Field(own(t.values, name), n, label(t.values), ast.FieldCardinality.REPEATED)
    if t.type_ == "map":
        key, value = label(t.keys), label(t.values)
        if t.keys.type_ not in ("int", "string", "bool"):
            raise Rejected()
        return ast.MapField(name, n, key, value)
    if t.type_ != "union":
        raise Rejected()
    parts = [x for x in t.types if x.type_ != "null"]
    if len(parts) == 0:
        raise Rejected()
    if len(parts) == 1:
        f = write(parts[0], n, name)
        if not isinstance(f, ast.Field):
            raise Rejected()
        if f.cardinality is None:
            f.cardinality = ast.FieldCardinality.OPTIONAL
        return f
    fields = []
    for p in parts:
        f = write(p, n)
        if not isinstance(f, ast.Field) or f.cardinality == ast.FieldCardinality.REPEATED:
            raise Rejected()
        f.cardinality = None
        fields.append(f)
        n += 1
    return ast.OneOf(name, fields)


def code_write(package, name, field):
    """The elements of a message with one field."""
    return ProtobufConverter().from_recap(T.StructType([field], alias=package + "." + name)).file_elements


def spec_write(package, name, field):
    return [ast.Package(package), ast.Message(name, [write(field, 1)])]


def code_fields(package, name, fields):
    return ProtobufConverter().from_recap(T.StructType(fields, alias=package + "." + name)).file_elements


def spec_fields(package, name, fields):
    out, n = [], 1
    for f in fields:
        e = write(f, n)
        out.append(e)
        n += len(e.elements) if isinstance(e, ast.OneOf) else 1
    return [ast.Package(package), ast.Message(name, out)]


def code_map(package, name, keys, values):
    return code_write(package, name, T.MapType(keys, values, name="f"))


def spec_map(package, name, keys, values):
    return spec_write(package, name, T.MapType(keys, values, name="f"))


def code_nullable(package, name, field):
    return code_write(package, name, T.UnionType([T.NullType(), field], name="f"))


def spec_nullable(package, name, field):
    return spec_write(package, name, T.UnionType([T.NullType(), field], name="f"))


def code_enum_field(package, name, enum, symbols):
    """A message whose only field is an enum of the same package."""
    e = T.EnumType(symbols, alias=package + "." + enum, name="f")
    es = ProtobufConverter().from_recap(T.StructType([e], alias=package + "." + name)).file_elements
    return [x for x in es if isinstance(x, ast.Enum)] + [x for x in es if not isinstance(x, ast.Enum)]


def r_enum_field(package, name, enum, symbols):
    return name != enum


def spec_enum_field(package, name, enum, symbols):
    values, n = [], 0
    for s in symbols:
        values.append(ast.EnumValue(s, n))
        n += 1
    return [ast.Enum(enum, values), ast.Package(package), ast.Message(name, [ast.Field("f", 1, "." + package + "." + enum)])]


# ---- whole documents (bounded) -------------------------------------------------------------
def code_document(t):
    """The package and every declaration by its full name; the text parses back to the same file."""
    f = ProtobufConverter().from_recap(t)
    out = {}
    (package,) = [x.name for x in f.file_elements if isinstance(x, ast.Package)]
    for x in f.file_elements:
        if not isinstance(x, ast.Package):
            declared(x, package, out)
    if len(t.fields) != 1:
        return package, out, True
    g = Parser().parse(Generator().generate(f))
    back = {}
    for x in g.file_elements:
        if not isinstance(x, ast.Package):
            declared(x, package, back)
    return package, out, back == out


def declared(x, ns, out):
    full = ns + "." + x.name
    if full in out:
        raise AssertionError("declared twice: " + full)
    if isinstance(x, ast.Enum):
        out[full] = [(v.name, v.number) for v in x.elements]
        return
    out[full] = [repr(e) for e in x.elements if isinstance(e, (ast.Field, ast.MapField, ast.OneOf))]
    for e in x.elements:
        if isinstance(e, (ast.Message, ast.Enum)):
            declared(e, full, out)


def spec_document(t):
    out = {}
    collect(t, out)
    package = min(a.rpartition(".")[0] for a in out)
    for a in out:
        scope = a.rpartition(".")[0]
        if scope != package and not (scope in out and out[scope][0] == "message"):
            raise Rejected()
    return package, {a: x for a, (k, x) in out.items()}, True


def collect(t, out):
    if t.type_ == "struct":
        if t.alias is None or "." not in t.alias:
            raise Rejected()
        fields, n = [], 1
        for f in t.fields:
            e = write(f, n)
            fields.append(repr(e))
            n += len(e.elements) if isinstance(e, ast.OneOf) else 1
            collect(f, out)
        out[t.alias] = ("message", fields)
    elif t.type_ == "enum":
        if t.alias is None or "." not in t.alias:
            raise Rejected()
        out[t.alias] = ("enum", [(s, i) for i, s in enumerate(t.symbols)])
    elif t.type_ == "list":
        collect(t.values, out)
    elif t.type_ == "map":
        collect(t.keys, out)
        collect(t.values, out)
    elif t.type_ == "union":
        for x in t.types:
            collect(x, out)
