"""Specification library: the abstract Recap type (Node) and its operations.

Everything here is independent of recap.types and runs both natively and inside the
verifier."""
from __future__ import annotations


class Rejected(Exception):
    """The contract demands an exception (of any class)."""


class SpecError(Exception):
    pass


class Node:
    """Abstract Recap type: kind, common attributes, extra attributes, own attributes."""

    def __init__(self, kind, own=None, logical=None, alias=None, doc=None, attrs=None):
        self.kind = kind
        self.own = own if own is not None else {}
        self.logical = logical
        self.alias = alias
        self.doc = doc
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return f"Node({self.kind}, {self.own}, logical={self.logical!r}, alias={self.alias!r}, doc={self.doc!r}, attrs={self.attrs})"


def Int(bits, signed=True, logical=None, doc=None, **attrs):
    return Node("int", {"bits": bits, "signed": signed}, logical=logical, doc=doc, attrs=attrs)


def Float(bits, doc=None, **attrs):
    return Node("float", {"bits": bits}, doc=doc, attrs=attrs)


def String(bytes_=None, variable=True, logical=None, doc=None, **attrs):
    return Node("string", {"bytes_": bytes_, "variable": variable}, logical=logical, doc=doc, attrs=attrs)


def Bytes(bytes_=None, variable=True, logical=None, doc=None, **attrs):
    return Node("bytes", {"bytes_": bytes_, "variable": variable}, logical=logical, doc=doc, attrs=attrs)


def Bool(doc=None, **attrs):
    return Node("bool", {}, doc=doc, attrs=attrs)


def Null(doc=None, **attrs):
    return Node("null", {}, doc=doc, attrs=attrs)


def List(values, length=None, variable=True, alias=None, doc=None, **attrs):
    return Node("list", {"values": values, "length": length, "variable": variable}, alias=alias, doc=doc, attrs=attrs)


def Map(keys, values, doc=None, **attrs):
    return Node("map", {"keys": keys, "values": values}, doc=doc, attrs=attrs)


def Struct(fields, alias=None, doc=None, **attrs):
    return Node("struct", {"fields": fields}, alias=alias, doc=doc, attrs=attrs)


def Enum(symbols, alias=None, doc=None, **attrs):
    return Node("enum", {"symbols": symbols}, alias=alias, doc=doc, attrs=attrs)


def Union(types, doc=None, **attrs):
    return Node("union", {"types": types}, doc=doc, attrs=attrs)


def Proxy(alias, doc=None, **attrs):
    return Node("proxy", {}, alias=alias, doc=doc, attrs=attrs)


def attrs_of(t):
    """Extra attributes of an abstract or a real type."""
    return t.attrs if isinstance(t, Node) else t.extra_attrs


def as_node(t):
    """The abstract type of a value given by a contract."""
    if isinstance(t, Node):
        return t
    k = t.type_
    if k == "int":
        own = {"bits": t.bits, "signed": t.signed}
    elif k == "float":
        own = {"bits": t.bits}
    elif k in ("string", "bytes"):
        own = {"bytes_": t.bytes_, "variable": t.variable}
    elif k == "list":
        own = {"values": t.values, "length": t.length, "variable": t.variable}
    elif k == "map":
        own = {"keys": t.keys, "values": t.values}
    elif k == "struct":
        own = {"fields": t.fields}
    elif k == "enum":
        own = {"symbols": t.symbols}
    elif k == "union":
        own = {"types": t.types}
    else:
        own = {}
    return Node(k, own, t.logical, t.alias, t.doc, dict(t.extra_attrs))


def nullable(t):
    """The union of null and t: documentation, default and field name move to the union."""
    attrs = dict(t.attrs)
    default = attrs.pop("default", None)
    outer = {"default": default}
    if "name" in attrs:
        outer["name"] = attrs.pop("name")
    if t.kind == "union":
        types = list(t.own["types"])
        has_null = any([is_null(x) for x in types])
        if not has_null:
            types = [Null()] + types
        attrs.update(outer)
        return Node("union", {"types": types}, t.logical, t.alias, t.doc, attrs)
    inner = Node(t.kind, dict(t.own), t.logical, t.alias, None, attrs)
    types = [inner] if t.kind == "null" else [Null(), inner]
    return Node("union", {"types": types}, None, None, t.doc, outer)


def is_null(t):
    return t.kind == "null" if isinstance(t, Node) else t.type_ == "null"


def time_unit(precision, default):
    """Unit of a fractional second precision: 0 s, 1-3 ms, 4-6 us, otherwise default."""
    if precision is None:
        raise Rejected()
    if precision == 0:
        return "second"
    if precision <= 3:
        return "millisecond"
    if precision <= 6:
        return "microsecond"
    return default


def column_field(t, column):
    """The struct field of a column whose type is t."""
    is_nullable = column["IS_NULLABLE"].upper() == "YES"
    if is_nullable:
        t = nullable(t)
    if is_nullable or column["COLUMN_DEFAULT"] is not None:
        t.attrs["default"] = column["COLUMN_DEFAULT"]
    t.attrs["name"] = column["COLUMN_NAME"]
    return t
