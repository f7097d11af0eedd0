"""Contracts of recap.types."""
from recap import types as T
from recap.types import (
    BoolType, BytesType, EnumType, FloatType, IntType, ListType, MapType, NullType, ProxyType,
    RecapType, StringType, StructType, UnionType, RecapTypeRegistry, from_dict, to_dict,
)

from contracts.speclib import Node, Null, Rejected, is_null, nullable


def view(t):
    """The abstract view of a Recap type (children left as they are)."""
    attrs = dict(t.extra_attrs)
    if isinstance(t, NullType):
        return Node("null", {}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, BoolType):
        return Node("bool", {}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, IntType):
        return Node("int", {"bits": t.bits, "signed": t.signed}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, FloatType):
        return Node("float", {"bits": t.bits}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, StringType):
        return Node("string", {"bytes_": t.bytes_, "variable": t.variable}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, BytesType):
        return Node("bytes", {"bytes_": t.bytes_, "variable": t.variable}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, ListType):
        return Node("list", {"values": t.values, "length": t.length, "variable": t.variable},
                    t.logical, t.alias, t.doc, attrs)
    if isinstance(t, MapType):
        return Node("map", {"keys": t.keys, "values": t.values}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, StructType):
        return Node("struct", {"fields": t.fields}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, EnumType):
        return Node("enum", {"symbols": t.symbols}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, UnionType):
        return Node("union", {"types": t.types}, t.logical, t.alias, t.doc, attrs)
    if isinstance(t, ProxyType):
        return Node("proxy", {}, t.logical, t.alias, t.doc, attrs)
    raise Rejected()


# ---- nullability --------------------------------------------------------------
def code_make_nullable(t):
    return t.make_nullable()


def spec_make_nullable(t):
    return nullable(view(t))


def code_is_nullable(t):
    return t.is_nullable()


def spec_is_nullable(t):
    if isinstance(t, UnionType):
        return any([isinstance(x, NullType) for x in t.types])
    return isinstance(t, NullType)


def code_nullable_twice(t):
    u = t.make_nullable()
    return u.is_nullable()


def spec_true(t):
    return True


# ---- parsing: from_dict ----------------------------------------------------------
import re

ALIAS = r"[a-zA-Z_][a-zA-Z0-9_]*(\.[a-zA-Z_][a-zA-Z0-9_]*)+"
BUILTIN = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16",
           "float32", "float64", "string32", "string64", "bytes32", "bytes64", "uuid", "decimal128",
           "decimal256", "duration64", "interval128", "time32", "time64", "timestamp64", "date32", "date64")
MAXBITS = 2147483647
MAXLEN = 9223372036854775807


class Aliases:
    """Aliases defined so far."""

    def __init__(self):
        self.names = {}

    def define(self, alias):
        if alias in BUILTIN or alias in self.names or re.fullmatch(ALIAS, alias) is None:
            raise Rejected()
        self.names[alias] = True


def root(registry):
    """Marks the registry of the outermost call (see the from_dict contract)."""
    return registry


def size_ok(n, top):
    """An optional length: absent, or between 1 and top."""
    if n is None:
        return True
    return n >= 1 and n <= top


def parse(d, reg):
    """The Recap type a type dictionary denotes; Rejected when it denotes none."""
    if isinstance(d, str):
        return parse_dict({"type": d}, reg)
    if isinstance(d, list):
        return parse_dict({"type": "union", "types": d}, reg)
    if not isinstance(d, dict):
        raise Rejected()
    return parse_dict(dict(d), reg)


def parse_dict(d, reg):
    t = d.pop("type", None)
    if t is None:
        raise Rejected()
    if d.pop("optional", False):
        # {"type": T, ..., "optional": true} is the union of null and T with a default;
        # the field name stays outside
        outer = {}
        name = d.pop("name", None)
        if name is not None:
            outer["name"] = name
        outer["default"] = d.pop("default", None)
        if t == "union":
            if "types" not in d:
                raise Rejected()
            d.update(outer)
            d["types"] = list(d["types"]) if "null" in d["types"] else ["null"] + list(d["types"])
        else:
            inner = dict(d)
            inner["type"] = t
            return Node("union", {"types": [parse("null", reg), parse(inner, reg)]}, attrs=outer)
    if isinstance(t, list):
        members = [parse(x, reg) for x in t]
        return finish("union", {"types": members}, d, reg)
    if not isinstance(t, str):
        raise Rejected()
    for k in ("null", "bool", "int", "float", "string", "bytes", "list", "map", "struct", "enum", "union"):
        if t == k:
            t = k
    if t == "null" or t == "bool":
        return finish(t, {}, d, reg)
    if t == "int" or t == "float":
        if "bits" not in d:
            raise Rejected()
        own = {"bits": d.pop("bits")}
        if own["bits"] is None or not size_ok(own["bits"], MAXBITS):
            raise Rejected()
        if t == "int":
            own["signed"] = d.pop("signed", True)
        return finish(t, own, d, reg)
    if t == "string" or t == "bytes":
        own = {"bytes_": d.pop("bytes", None), "variable": d.pop("variable", True)}
        if not size_ok(own["bytes_"], MAXLEN) or (not own["variable"] and own["bytes_"] is None):
            raise Rejected()
        return finish(t, own, d, reg)
    if t == "list":
        if "values" not in d:
            raise Rejected()
        values = parse(d.pop("values"), reg)
        own = {"values": values, "length": d.pop("length", None), "variable": d.pop("variable", True)}
        if not size_ok(own["length"], MAXLEN) or (not own["variable"] and own["length"] is None):
            raise Rejected()
        return finish(t, own, d, reg)
    if t == "map":
        if "keys" not in d or "values" not in d:
            raise Rejected()
        keys = parse(d.pop("keys"), reg)
        return finish(t, {"keys": keys, "values": parse(d.pop("values"), reg)}, d, reg)
    if t == "struct":
        return finish(t, {"fields": [parse(f, reg) for f in d.pop("fields", [])]}, d, reg)
    if t == "enum":
        if "symbols" not in d:
            raise Rejected()
        return finish(t, {"symbols": d.pop("symbols")}, d, reg)
    if t == "union":
        if "types" not in d:
            raise Rejected()
        return finish(t, {"types": [parse(x, reg) for x in d.pop("types")]}, d, reg)
    if "alias" in d:
        raise Rejected()  # a reference cannot be given a second name
    return Node("proxy", {}, d.pop("logical", None), t, d.pop("doc", None), d)


def finish(kind, own, d, reg):
    """A node with the remaining attributes; its alias is defined in reg."""
    alias = d.pop("alias", None)
    n = Node(kind, own, d.pop("logical", None), alias, d.pop("doc", None), d)
    if alias is not None:
        reg.define(alias)
    return n


def code_from_dict(d):
    return from_dict(d, root(RecapTypeRegistry()))


def spec_from_dict(d):
    return parse(d, root(Aliases()))


# ---- aliases -----------------------------------------------------------------------
from contracts.speclib import Bytes as B, Float as F, Int as I, String as Sx

DEC, TS = "build.recap.Decimal", "build.recap.Timestamp"


def builtin(name):
    """The documented meaning of the built-in aliases (None: not built in)."""
    for bits in (8, 16, 32, 64):
        if name == f"int{bits}":
            return I(bits, True)
        if name == f"uint{bits}":
            return I(bits, False)
    for bits in (16, 32, 64):
        if name == f"float{bits}":
            return F(bits)
    if name == "string32":
        return Sx(2147483648, True)
    if name == "string64":
        return Sx(MAXLEN, True)
    if name == "bytes32":
        return B(2147483648, True)
    if name == "bytes64":
        return B(MAXLEN, True)
    if name == "uuid":
        return Sx(36, False, logical="build.recap.UUID")
    if name == "decimal128":
        return B(16, False, logical=DEC, precision=28, scale=14)
    if name == "decimal256":
        return B(32, False, logical=DEC, precision=56, scale=28)
    if name == "duration64":
        return I(64, logical="build.recap.Duration", unit="millisecond")
    if name == "interval128":
        return B(16, False, logical="build.recap.Interval", unit="millisecond")
    if name == "time32":
        return I(32, logical="build.recap.Time", unit="second")
    if name == "time64":
        return I(64, logical="build.recap.Time", unit="second")
    if name == "timestamp64":
        return I(64, logical=TS, unit="millisecond", timezone="UTC")
    if name == "date32":
        return I(32, logical="build.recap.Date", unit="day")
    if name == "date64":
        return I(64, logical="build.recap.Date", unit="day")
    return None


def registered(t):
    """What an alias of t stands for: t without alias, documentation and default."""
    n = view(t)
    n.alias = None
    n.doc = None
    n.attrs.pop("default", None)
    return n


def code_register(t, q):
    r = RecapTypeRegistry()
    r.register_alias(t)
    # later changes to t must not reach the registry
    t.doc = "changed"
    t.extra_attrs["changed"] = True
    if isinstance(t, StructType):
        t.fields.append(NullType())
    if isinstance(t, UnionType):
        t.types.append(NullType())
    return r.from_alias(q)


def usable(alias):
    return alias is not None and builtin(alias) is None and re.fullmatch(ALIAS, alias) is not None


def spec_register(t, q):
    if not usable(t.alias):
        raise Rejected()
    if q == t.alias:
        return registered(t)
    b = builtin(q)
    if b is None:
        raise TypeError()
    return b


def code_register_twice(t, u, q):
    r = RecapTypeRegistry()
    r.register_alias(t)
    r.register_alias(u)
    return r.from_alias(q)


def spec_register_twice(t, u, q):
    if not usable(t.alias) or not usable(u.alias) or t.alias == u.alias:
        raise Rejected()
    if q == t.alias:
        return registered(t)
    if q == u.alias:
        return registered(u)
    b = builtin(q)
    if b is None:
        raise TypeError()
    return b


def accepts(r, t):
    try:
        r.register_alias(t)
    except Exception:
        return False
    return True


def code_refused(t):
    """A refused registration changes nothing: the name still means what it meant."""
    r = RecapTypeRegistry()
    if accepts(r, t):
        return "accepted"
    if t.alias is None:
        return None
    return r.from_alias(t.alias)


def spec_refused(t):
    if usable(t.alias):
        return "accepted"
    if t.alias is None:
        return None
    b = builtin(t.alias)
    if b is None:
        raise TypeError()
    return b


def code_taken(t, u):
    r = RecapTypeRegistry()
    r.register_alias(t)
    if accepts(r, u):
        return "accepted"
    return r.from_alias(t.alias)


def spec_taken(t, u):
    if not usable(t.alias):
        raise Rejected()
    if usable(u.alias) and u.alias != t.alias:
        return "accepted"
    return registered(t)


def code_resolve(t, over):
    r = RecapTypeRegistry()
    r.register_alias(t)
    first = ProxyType(t.alias, r, **over).resolve()
    # a resolved type is the caller's own copy
    first.logical = "changed"
    first.extra_attrs["changed"] = True
    second = ProxyType(t.alias, r, **over).resolve()
    return (second, r.from_alias(t.alias))


def spec_resolve(t, over):
    if t.alias is None or builtin(t.alias) is not None or re.fullmatch(ALIAS, t.alias) is None:
        raise Rejected()
    n = registered(t)
    for k in ("name", "default", "foo"):
        if k in over:
            n.attrs[k] = over[k]
    if "bits" in over:
        if "bits" in n.own:
            n.own["bits"] = over["bits"]
        else:
            n.attrs["bits"] = over["bits"]
    return (n, registered(t))


def code_builtin(q, over):
    r = RecapTypeRegistry()
    p = ProxyType(q, r, **over).resolve()
    p.bits = 7
    p.extra_attrs["changed"] = True
    return (ProxyType(q, RecapTypeRegistry(), **over).resolve(), RecapTypeRegistry().from_alias(q), r.from_alias(q))


def spec_builtin(q, over):
    n = builtin(q)
    if n is None:
        raise TypeError()
    for k in ("name", "default", "foo"):
        if k in over:
            n.attrs[k] = over[k]
    if "bits" in over:
        if "bits" in n.own:
            n.own["bits"] = over["bits"]
        else:
            n.attrs["bits"] = over["bits"]
    return (n, builtin(q), builtin(q))


# ---- writing: to_dict, clean_dict, alias_dict ------------------------------------------
def deep(t, built_in=False):
    """The whole tree of a type; built_in: references to built-in aliases are what they stand for."""
    n = view(t)
    if n.kind == "proxy" and built_in and not n.attrs and n.doc is None and n.logical is None:
        b = builtin(n.alias)
        if b is not None:
            return b
    if n.kind == "list" or n.kind == "map":
        for k in ("keys", "values"):
            if k in n.own:
                n.own[k] = deep(n.own[k], built_in)
    if n.kind == "struct":
        n.own["fields"] = [deep(x, built_in) for x in t.fields]
    if n.kind == "union":
        n.own["types"] = [deep(x, built_in) for x in t.types]
    return n


def code_round(t, clean, alias):
    return deep(from_dict(to_dict(t, clean, alias)), alias)


def spec_round(t, clean, alias):
    return deep(t, alias)


def aliases_of(t):
    out = [t.alias] if t.alias is not None and not isinstance(t, ProxyType) else []
    for k in ("keys", "values", "fields", "types"):
        v = getattr(t, k, None)
        for x in v if isinstance(v, list) else [v] if v is not None else []:
            out = out + aliases_of(x)
    return out


def r_round(t, clean, alias):
    """Valid types: every alias is well formed and defined once."""
    a = aliases_of(t)
    if len(a) != len(set(a)) or any(x in BUILTIN or re.fullmatch(ALIAS, x) is None for x in a):
        return False
    return sizes_ok(t)


def sizes_ok(t):
    """Every size is in its range, every reference is a name that a type can have."""
    if isinstance(t, ProxyType) and t.alias not in BUILTIN and (t.alias is None or re.fullmatch(ALIAS, t.alias) is None):
        return False
    for k in ("bits", "bytes_", "length"):
        n = getattr(t, k, None)
        if not size_ok(n, MAXBITS if k == "bits" else MAXLEN) or (n is None and k != "bits" and hasattr(t, k) and not t.variable):
            return False
    for k in ("keys", "values", "fields", "types"):
        v = getattr(t, k, None)
        if not all([sizes_ok(x) for x in (v if isinstance(v, list) else [v] if v is not None else [])]):
            return False
    return True


def code_cleaned(d, how):
    out = T.clean_dict(d) if how == "clean" else T.alias_dict(d)
    return deep(from_dict(out), True)


def spec_cleaned(d, how):
    return deep(from_dict(d), True)


def same(t):
    """The type, up to references to built-in aliases."""
    return deep(t, True)


def shallow(t):
    n = view(t)
    for k in ("keys", "values"):
        if k in n.own:
            n.own[k] = same(n.own[k])
    for k in ("fields", "types"):
        if k in n.own:
            n.own[k] = [same(x) for x in n.own[k]]
    return n


def code_nested(t, clean, alias):
    return shallow(from_dict(to_dict(t, clean, alias), root(RecapTypeRegistry())))


def spec_nested(t, clean, alias):
    return shallow(t)


def own_ok(t, clean, alias):
    """r_round for the type itself."""
    if t.alias is not None and (t.alias in BUILTIN or re.fullmatch(ALIAS, t.alias) is None):
        return False
    if isinstance(t, ListType) and (not size_ok(t.length, MAXLEN) or t.length is None and not t.variable):
        return False
    return parts_ok(t)


def parts_ok(t):
    return r_round(t, True, True)


SHAPES = ("", "n", "x", "nx", "xn", "xy", "nn", "nxy", "nnx", "xny", "nxn")


def union_of(shape, x, y, z, attrs, extra):
    """n is the bare null type; x, y and z are others."""
    parts = {"x": x, "y": y, "z": z}
    return UnionType([NullType() if c == "n" else parts[c] for c in shape], logical=attrs[0], alias=attrs[1], doc=attrs[2], **extra)


def code_union(shape, x, y, z, attrs, extra, clean, alias):
    t = union_of(shape, x, y, z, attrs, extra)
    return members(from_dict(to_dict(t, clean, alias), root(RecapTypeRegistry())), shape)


def spec_union(shape, x, y, z, attrs, extra, clean, alias):
    return members(union_of(shape, x, y, z, attrs, extra), shape)


def members(t, shape):
    n = view(t)
    if n.kind == "union" and len(t.types) == len(shape):
        n.own["types"] = [shallow(m) if c == "n" else same(m) for c, m in zip(shape, t.types)]
    return n


def r_union(shape, x, y, z, attrs, extra, clean, alias):
    if attrs[1] is not None and (attrs[1] in BUILTIN or re.fullmatch(ALIAS, attrs[1]) is None):
        return False
    if "name" in extra and extra["name"] is None:
        return False
    return members_ok(shape, x, y, z, attrs)


def members_ok(shape, x, y, z, attrs):
    parts = {"x": x, "y": y, "z": z}
    t = union_of(shape, x, y, z, attrs, {})
    return r_round(t, True, True) and not any([parts[c] == NullType() for c in shape if c != "n"])
