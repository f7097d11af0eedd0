"""Contract of the Avro converter."""
import json

from recap.converters.avro import AvroConverter

from contracts.speclib import (
    Bool, Bytes, Enum, Float, Int, List, Map, Node, Null, Proxy, Rejected, String, Struct, Union, as_node,
)
from contracts.types_spec import Aliases, registered, root

MAXLEN = 9223372036854775807
NAMED = ("record", "enum", "fixed")


def primitive(t):
    if t == "null":
        return Null()
    if t == "boolean":
        return Bool()
    if t == "int":
        return Int(32)
    if t == "long":
        return Int(64)
    if t == "float":
        return Float(32)
    if t == "double":
        return Float(64)
    if t == "bytes":
        return Bytes(MAXLEN)
    if t == "string":
        return String(MAXLEN)
    return None


def logical(lt, s):
    if lt == "decimal":
        n = Bytes(s["size"] if "size" in s else MAXLEN, s["type"] == "fixed", logical="build.recap.Decimal")
        n.attrs["precision"] = s["precision"]
        n.attrs["scale"] = s["scale"] if "scale" in s else 0
        return n
    if lt == "uuid":
        return String(36, False, logical="build.recap.UUID")
    if lt == "date":
        return Int(32, logical="build.recap.Date", unit="day")
    if lt == "time-millis":
        return Int(32, logical="build.recap.Time", unit="millisecond")
    if lt == "time-micros":
        return Int(64, logical="build.recap.Time", unit="microsecond")
    if lt == "timestamp-millis":
        return Int(64, logical="build.recap.Timestamp", unit="millisecond")
    if lt == "timestamp-micros":
        return Int(64, logical="build.recap.Timestamp", unit="microsecond")
    if lt == "duration":
        return Bytes(12, True, logical="build.recap.Interval", signed=True, unit="millisecond")
    raise Rejected()


def split_name(name, namespace):
    """Avro names: a dotted name is a namespace and a name; no namespace is _root."""
    if "." in name:
        namespace, name = name.rsplit(".", 1)
    return (namespace if namespace else "_root", name)


def parse(s, namespace, reg):
    """The Recap type of an Avro schema nested in the given namespace."""
    if isinstance(s, (str, list)):
        s = {"type": s}
    attrs = {}
    alias = None
    t = s["type"]
    if "namespace" in s:
        namespace = s["namespace"]
    if "name" in s:
        namespace, name = split_name(s["name"], namespace)
        attrs["name"] = name
        if t in NAMED:
            alias = namespace + "." + name
    if "default" in s:
        attrs["default"] = s["default"]
    if isinstance(t, dict) and "logicalType" not in s:
        # a field with an inline type: the field's own doc, name and default count
        n = as_node(parse(t, namespace, reg))
        if "doc" in s:
            n.doc = s["doc"]
        n.attrs.update(attrs)
        return n
    n = shape(t, s, namespace, reg)
    if "doc" in s:
        n.doc = s["doc"]
    n.attrs.update(attrs)
    if n.kind != "proxy":
        n.alias = alias
        if alias is not None:
            reg.define(alias)
            reg.names[alias] = n
    return n


def shape(t, s, namespace, reg):
    if "logicalType" in s and s["logicalType"]:
        return logical(s["logicalType"], s)
    if isinstance(t, list):
        return Union([parse(x, namespace, reg) for x in t])
    n = primitive(t)
    if n is not None:
        return n
    if t == "fixed":
        return Bytes(s["size"])
    if t == "record":
        return Struct([parse(f, namespace, reg) for f in s["fields"]])
    if t == "enum":
        return Enum(s["symbols"])
    if t == "array":
        return List(parse(s["items"], namespace, reg))
    if t == "map":
        return Map(String(MAXLEN), parse(s["values"], namespace, reg))
    return Proxy(t if "." in t else namespace + "." + t)


# ---- harnesses -------------------------------------------------------------------
def code_top(s, namespace):
    return root(AvroConverter()).to_recap(json.dumps(s), namespace)


def spec_top(s, namespace):
    n = parse(s, namespace, root(Aliases()))
    if n.kind != "struct":
        raise Rejected()
    return n


def wrap(s):
    return {"type": "record", "name": "Outer", "fields": [s]}


def code_field(s, namespace):
    return code_top(wrap(s), namespace).fields[0]


def spec_field(s, namespace):
    return spec_top(wrap(s), namespace).own["fields"][0]


def field_name_plain(s, namespace):
    """Fields have no namespace and no dots in their names."""
    return "name" not in s or "." not in s["name"]


def is_primitive(s, namespace):
    return field_name_plain(s, namespace) and primitive(s["type"]) is not None


def is_reference(s, namespace):
    return field_name_plain(s, namespace) and s["type"] not in (
        "null", "boolean", "int", "long", "float", "double", "bytes", "string", "record", "enum", "fixed",
        "array", "map", "union")


def is_reference_str(s, namespace):
    return is_reference({"type": s}, namespace) or primitive(s) is not None


def two(s, q):
    return {"type": "record", "name": "Outer", "namespace": "n", "fields": [s, {"name": "r", "type": q}]}


def code_resolves(s, q):
    return code_top(two(s, q), None).fields[1].resolve()


def spec_resolves(s, q):
    reg = Aliases()
    parse(two(s, q), None, root(reg))
    full = q if "." in q else "n." + q
    return override(reg, full, "r")


def override(reg, full, name):
    """The definition of a name, used by a field."""
    if full not in reg.names:
        raise TypeError()
    n = reg.names[full]
    n = Node(n.kind, n.own, n.logical, None, None, dict(n.attrs))
    n.attrs.pop("default", None)
    n.attrs["name"] = name
    return n


def code_recursive(s, q):
    s = dict(s)
    s["fields"] = [{"name": "f", "type": q}]
    return code_top(s, None).fields[0].resolve()


def spec_recursive(s, q):
    s = dict(s)
    s["fields"] = [{"name": "f", "type": q}]
    reg = Aliases()
    n = parse(s, None, root(reg))
    return override(reg, n.own["fields"][0].alias, "f")


def not_primitive(s, q):
    return is_reference({"type": q}, None)


def is_top(s, namespace):
    return s["type"] not in ("record", "enum", "fixed", "array", "map", "union") and (
        "name" in s or namespace is not None)


# ---- Recap to Avro -----------------------------------------------------------------
from recap.types import (
    BoolType, BytesType, EnumType, FloatType, IntType, ListType, MapType, NullType, ProxyType, RecapTypeRegistry,
    StringType, StructType, UnionType,
)

from contracts.types_spec import builtin


def avro_int(bits, signed):
    if signed and bits <= 32:
        return {"type": "int"}
    if bits <= (64 if signed else 32):
        return {"type": "long"}
    return {"type": "bytes", "logicalType": "decimal", "precision": len(str(2 ** (bits - 1 if signed else bits))) - 1}


def in_range(bytes_):
    return bytes_ is not None and bytes_ <= MAXLEN


def avro_logical(kind, own, lg, attrs):
    """Logical types: only those Avro has."""
    if lg == "build.recap.Decimal" and kind == "bytes" and in_range(own["bytes_"]):
        if isinstance(attrs.get("precision"), int):
            return {"type": "bytes", "logicalType": "decimal", "precision": attrs["precision"], "scale": attrs.get("scale", 0)}
    if kind == "int" and own["signed"]:
        bits = own["bits"]
        unit = attrs.get("unit")
        if lg == "build.recap.Date" and bits <= 32:
            return {"type": "int", "logicalType": "date"}
        if lg == "build.recap.Time" and unit == "millisecond" and bits <= 32:
            return {"type": "int", "logicalType": "time-millis"}
        if lg == "build.recap.Time" and unit == "microsecond" and bits <= 64:
            return {"type": "long", "logicalType": "time-micros"}
        if lg == "build.recap.Timestamp" and unit == "millisecond" and bits <= 64:
            return {"type": "long", "logicalType": "timestamp-millis"}
        if lg == "build.recap.Timestamp" and unit == "microsecond" and bits <= 64:
            return {"type": "long", "logicalType": "timestamp-micros"}
    if lg == "build.recap.Interval" and kind == "bytes" and own["bytes_"] == 12 and not own["variable"]:
        if attrs.get("unit") == "millisecond":
            return {"type": "fixed", "logicalType": "duration", "size": 12}
    if lg == "build.recap.UUID" and kind == "string" and in_range(own["bytes_"]):
        return {"type": "string", "logicalType": "uuid"}
    raise Rejected()


def avro_type(t):
    """The Avro type of a Recap type, without its name, doc, default and aliases."""
    n = as_node(t)
    own = n.own
    if n.logical is not None:
        return avro_logical(n.kind, own, n.logical, n.attrs)
    if n.kind == "null":
        return {"type": "null"}
    if n.kind == "bool":
        return {"type": "boolean"}
    if n.kind == "int":
        return avro_int(own["bits"], own["signed"])
    if n.kind == "float":
        if own["bits"] <= 32:
            return {"type": "float"}
        if own["bits"] <= 64:
            return {"type": "double"}
        raise Rejected()
    if n.kind == "string":
        if not in_range(own["bytes_"]):
            raise Rejected()
        return {"type": "string"}
    if n.kind == "bytes":
        if not in_range(own["bytes_"]):
            raise Rejected()
        return {"type": "bytes"} if own["variable"] else {"type": "fixed", "size": own["bytes_"]}
    if n.kind == "struct":
        return {"type": "record", "fields": [as_field(to_avro(f)) for f in own["fields"]]}
    if n.kind == "enum":
        return {"type": "enum", "symbols": own["symbols"]}
    if n.kind == "list":
        return {"type": "array", "items": to_avro(own["values"])}
    if n.kind == "map":
        if as_node(own["keys"]).kind != "string":
            raise Rejected()
        return {"type": "map", "values": to_avro(own["values"])}
    if n.kind == "union":
        return {"type": [to_avro(x) for x in own["types"]]}
    raise Rejected()


def as_field(s):
    return dict(s) if isinstance(s, dict) else {"type": s}


def meta(doc, attrs):
    out = {}
    if doc:
        out["doc"] = doc
    if attrs.get("name"):
        out["name"] = attrs["name"]
    if "default" in attrs:
        out["default"] = attrs["default"]
    return out


def simple(out):
    """A schema that is just a type name is written as the name."""
    if len(out) == 1 and isinstance(out["type"], str):
        return out["type"]
    return out


def to_avro(t):
    n = as_node(t)
    out = meta(n.doc, n.attrs)
    if n.alias is not None and "." in n.alias:
        out["aliases"] = [n.alias]
    out.update(avro_type(n))
    return simple(out)


def code_from(t):
    return AvroConverter().from_recap(t)


def spec_from(t):
    return as_field(to_avro(t))


def code_from_field(t):
    """The schema of a type as it appears inside another."""
    return AvroConverter().from_recap(ListType(t))["items"]


def narrow(t):
    """Integers that fit Avro's long (wider ones: bounded task)."""
    return not isinstance(t, IntType) or t.bits <= (64 if t.signed else 32) or t.logical is not None


def code_wide(bits, signed):
    return AvroConverter().from_recap(IntType(bits, signed=signed))


def spec_wide(bits, signed):
    return avro_int(bits, signed)


def code_keys(q):
    return AvroConverter().from_recap(MapType(ProxyType(q, RecapTypeRegistry()), NullType()))


def spec_keys(q):
    """Keys other than strings cannot be written."""
    raise Rejected()


def not_text(q):
    n = builtin(q)
    return n is not None and n.kind != "string"


def code_proxy(q, over):
    return AvroConverter().from_recap(ProxyType(q, RecapTypeRegistry(), **over))


def spec_proxy(q, over):
    """A reference: dotted names are kept, built-in names are written out."""
    attrs = dict(over)
    doc = attrs.pop("doc", None)
    out = meta(doc, attrs)
    if "." in q:
        out["type"] = q
        return out
    n = builtin(q)
    if n is None:
        raise TypeError()
    out.update(avro_type(n))
    return out
