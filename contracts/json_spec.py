"""Contract of the JSON Schema converter."""
import json

from recap.converters.json_schema import JSONSchemaConverter
from recap.types import (
    BoolType, BytesType, EnumType, FloatType, IntType, ListType, MapType, NullType, ProxyType, RecapTypeRegistry,
    StringType, StructType, UnionType,
)

from contracts.speclib import (
    Bool, Bytes, Float, Int, List, Node, Null, Rejected, String, Struct, Union, as_node, attrs_of, is_null, nullable,
)
from contracts.types_spec import builtin

FORMATS = {"date": "Date", "date-time": "DateTime", "time": "Time"}


def parse(s):
    """The Recap type of a JSON schema (without $id and $ref)."""
    if isinstance(s, str):
        s = {"type": s}
    n = shape(s)
    if "description" in s:
        n.doc = s["description"]
    if "default" in s:
        n.attrs["default"] = s["default"]
    return n


def shape(s):
    if "type" not in s:
        raise Rejected()
    t = s["type"]
    if isinstance(t, list):
        return Union([parse(x) for x in t])
    if t == "object":
        if "properties" not in s:
            raise Rejected()
        return Struct([field(name, p, s) for name, p in s["properties"].items()])
    if t == "array":
        if "items" not in s:
            raise Rejected()
        return List(parse(s["items"]))
    if t == "string":
        f = s.get("format")
        if f == "bytes":
            return Bytes()
        for k in ("date", "date-time", "time"):
            if f == k:
                return String(logical="org.iso.8601." + FORMATS[k])
        return String()
    if t == "number":
        return Float(64)
    if t == "integer":
        return Int(32)
    if t == "boolean":
        return Bool()
    if t == "null":
        return Null()
    raise Rejected()


def field(name, p, s):
    """A property: nullable with a default unless it is required."""
    n = as_node(parse(p))
    if not ("required" in s and name in s["required"]):
        n = optional(n)
    n.attrs["name"] = name
    return n


def admits_null(n):
    if n.kind == "union":
        return any([is_null(x) for x in n.own["types"]])
    return n.kind == "null"


def optional(n):
    if not admits_null(n):
        n = nullable(n)
    if "default" not in n.attrs:
        n.attrs["default"] = None
    return n


def code_top(s):
    return JSONSchemaConverter().to_recap(json.dumps(s))


def spec_top(s):
    n = parse(s)
    if n.kind != "struct":
        raise Rejected()
    return n


def wrap(s):
    return {"type": "object", "properties": {"f": s}, "required": ["f"]}


def code_field(s):
    return code_top(wrap(s)).fields[0]


def spec_field(s):
    return spec_top(wrap(s)).own["fields"][0]


def no_refs(s):
    return "$id" not in s and "$ref" not in s and "$dynamicRef" not in s


# ---- Recap to JSON Schema ------------------------------------------------------------
def null_type(x):
    return x.kind == "null" if isinstance(x, Node) else isinstance(x, NullType)


def plain_null(x):
    """null without any attribute."""
    return null_type(x) and x.logical is None and x.alias is None and x.doc is None and len(attrs_of(x)) == 0


def is_optional(t):
    """A union of null and exactly one other type, with a default."""
    n = as_node(t)
    if n.kind != "union" or "default" not in n.attrs:
        return False
    others = [x for x in n.own["types"] if not plain_null(x)]
    return len(others) == 1 and any([plain_null(x) for x in n.own["types"]])


def conv(t, refs):
    n = as_node(t)
    if n.alias is not None and n.kind != "proxy" and refs:
        return {"$ref": "#/$defs/" + n.alias}
    out = {}
    if "default" in n.attrs:
        out["default"] = n.attrs["default"]
    if n.doc:
        out["description"] = n.doc
    if n.kind == "union":
        if is_optional(t):
            inner = [x for x in n.own["types"] if not null_type(x)]
            if len(inner) != 1:
                raise Rejected()
            out.update(conv(inner[0], True))
        else:
            out["oneOf"] = [conv(x, True) for x in n.own["types"]]
        return out
    out.update(conv_shape(n))
    return out


def conv_shape(n):
    k, own = n.kind, n.own
    if k == "struct":
        return conv_struct(own["fields"])
    if k == "list":
        return {"type": "array", "items": conv(own["values"], True)}
    if k == "map":
        return {"type": "object", "additionalProperties": conv(own["values"], True)}
    if k == "enum":
        return {"type": "string", "enum": own["symbols"]}
    if k == "bool":
        return {"type": "boolean"}
    if k == "int":
        return {"type": "integer"}
    if k == "float":
        return {"type": "number"}
    if k == "string":
        return {"type": "string"}
    if k == "bytes":
        return {"type": "string", "format": "byte"}
    if k == "null":
        return {"type": "null"}
    raise Rejected()


def is_union(t):
    return t.kind == "union" if isinstance(t, Node) else isinstance(t, UnionType)


def conv_struct(fields):
    """Every field is a property; required are exactly the fields that are not optional."""
    out = {"type": "object", "properties": {}}
    required = []
    for f in fields:
        name = attrs_of(f).get("name")
        if not name:
            raise Rejected()
        out["properties"][name] = conv(f, True)
        if not is_union(f) or not is_optional(f):
            required.append(name)
    if len(required) > 0:
        out["required"] = required
    return out


def defs(t):
    """The definitions of all aliased types inside t."""
    n = as_node(t)
    out = {}
    if n.kind != "proxy" and n.alias is not None and builtin(n.alias) is None:
        out[n.alias] = conv(t, False)
    inner = []
    if n.kind == "struct":
        inner = n.own["fields"]
    elif n.kind == "union":
        inner = n.own["types"]
    elif n.kind == "list" or n.kind == "map":
        inner = [n.own["values"]]
    for x in inner:
        out.update(defs(x))
    return out


def code_from(t):
    return JSONSchemaConverter().from_recap(t)


def spec_from(t):
    out = conv(t, True)
    d = defs(t)
    if len(d) > 0:
        out["$defs"] = d
    return out


def code_ref(q, over):
    return JSONSchemaConverter().from_recap(ProxyType(q, RecapTypeRegistry(), **over))


def spec_ref(q, over):
    """A reference without attributes of its own refers to the definition; others are written out."""
    n = builtin(q)
    out = {}
    if "default" in over:
        out["default"] = over["default"]
    if over.get("doc"):
        out["description"] = over["doc"]
    if n is not None:
        out.update(conv_shape(n))
        return out
    if "default" in over or "name" in over:
        raise TypeError()
    out["$ref"] = "#/$defs/" + q
    return out


def code_wrapped(t, default, doc):
    return JSONSchemaConverter().from_recap(UnionType([NullType(), t], default=default, doc=doc))


def spec_wrapped(t, default, doc):
    """An optional type is its inner type, whose own default and documentation come first."""
    out = {"default": default}
    if doc:
        out["description"] = doc
    out.update(conv(t, True))
    d = defs(t)
    if len(d) > 0:
        out["$defs"] = d
    return out


def simple_one(t, default, doc):
    return t.alias is None or "." in t.alias


def code_referred(t, u, over):
    r = RecapTypeRegistry()
    t.alias = "a.b"
    r.register_alias(t)
    t.extra_attrs["name"] = "t"
    u.extra_attrs["name"] = "u"
    return JSONSchemaConverter().from_recap(StructType([t, u, ListType(ProxyType("a.b", r), name="v"), ProxyType("a.b", r, **{"name": "w", **over})]))


def spec_referred(t, u, over):
    """The definition is kept; references refer to it unless they have attributes of their own."""
    t.alias = "a.b"
    t.extra_attrs["name"] = "t"
    u.extra_attrs["name"] = "u"
    n = as_node(t)
    plain = conv(t, False)
    shape = {k: plain[k] for k in plain if k not in ("default", "description")}
    w = {}
    if "default" in over:
        w["default"] = over["default"]
    if over.get("doc"):
        w["description"] = over["doc"]
    w.update(shape)
    required = ["t"]
    if not is_union(u) or not is_optional(u):
        required.append("u")
    return {"type": "object", "required": [*required, "v", "w"],
            "properties": {"t": {"$ref": "#/$defs/a.b"}, "u": conv(u, True), "v": {"type": "array", "items": {"$ref": "#/$defs/a.b"}}, "w": w},
            "$defs": {**defs(u), "a.b": plain}}


def simple(t, u, over):
    """Without nested types."""
    return t.type_ in ("null", "bool", "int", "float", "string", "bytes", "enum") and (u.alias is None or "." in u.alias and u.alias != "a.b")


def named(t):
    """Aliases are qualified names."""
    return t.alias is None or "." in t.alias


def code_optional(t):
    return t.is_optional
