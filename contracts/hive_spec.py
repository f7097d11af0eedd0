"""Contract of the Hive Metastore converter."""
from pymetastore.htypes import (
    HCharType, HDecimalType, HListType, HMapType, HPrimitiveType, HStructType, HUnionType, HVarcharType,
)
from pymetastore.metastore import HColumn, HStorage, HTable, StorageFormat

from recap.converters.hive_metastore import HiveMetastoreConverter

from contracts.speclib import (
    Bool, Bytes, Float, Int, List, Map, Node, Null, Rejected, String, Struct, Union, as_node, attrs_of, nullable,
)

PRIMITIVES = {
    "BOOLEAN": ("bool", 0), "BYTE": ("int", 8), "SHORT": ("int", 16), "INT": ("int", 32), "LONG": ("int", 64),
    "FLOAT": ("float", 32), "DOUBLE": ("float", 64),
}


def hive_primitive(c):
    if c == "VOID":
        return Null()
    if c == "STRING":
        return String()
    if c == "BINARY":
        return Bytes(2_147_483_647)
    if c == "DATE":
        return Int(32, logical="build.recap.Date", unit="day")
    if c == "TIMESTAMP":
        return Int(64, logical="build.recap.Timestamp", unit="nanosecond", timezone="UTC")
    if c == "TIMESTAMPLOCALTZ":
        return Int(64, logical="build.recap.Timestamp", unit="nanosecond", timezone=None)
    if c == "INTERVAL_YEAR_MONTH":
        return Bytes(12, logical="build.recap.Interval", signed=True, unit="month")
    if c == "INTERVAL_DAY_TIME":
        return Bytes(12, logical="build.recap.Interval", signed=True, unit="second")
    if c in PRIMITIVES:
        k, bits = PRIMITIVES[c]
        if k == "bool":
            return Bool()
        return Int(bits) if k == "int" else Float(bits)
    raise Rejected()


def hive_bare(t):
    """The type of a Hive type other than a union, before it is made nullable."""
    if isinstance(t, HPrimitiveType):
        return hive_primitive(t.primitive_type.value)
    if isinstance(t, HDecimalType):
        return Bytes(16, False, logical="build.recap.Decimal", precision=t.precision, scale=t.scale)
    if isinstance(t, HVarcharType):
        return String(t.length)
    if isinstance(t, HCharType):
        return String(t.length, False)
    if isinstance(t, HMapType):
        return Map(hive_type(t.key_type), hive_type(t.value_type))
    if isinstance(t, HListType):
        return List(hive_type(t.element_type))
    if isinstance(t, HStructType):
        return Struct([hive_field(n, x) for n, x in zip(t.names, t.types)])
    raise Rejected()


def hive_union(members):
    """Null followed by the members' alternatives, each once."""
    types = [Null()]
    for m in members:
        for x in (as_node(m).own["types"] if as_node(m).kind == "union" else [m]):
            if not any([same_type(x, y) for y in types]):
                types.append(x)
    return Union(types, default=None)


def same_type(a, b):
    a, b = as_node(a), as_node(b)
    if a.kind != b.kind:
        return False
    if (a.logical, a.doc) != (b.logical, b.doc):
        return False
    if a.attrs != b.attrs:
        return False
    for k in a.own:
        x, y = a.own[k], b.own[k]
        if k in ("keys", "values"):
            if not same_type(x, y):
                return False
        elif k in ("fields", "types"):
            if len(x) != len(y) or not all([same_type(p, q) for p, q in zip(x, y)]):
                return False
        elif x != y:
            return False
    return True


def hive_type(t):
    if isinstance(t, HUnionType):
        return hive_union([hive_type(x) for x in t.types])
    t = hive_bare(t)
    return t if t.kind == "null" else nullable(t)


def hive_field(name, t):
    n = as_node(hive_type(t))
    n.attrs["name"] = name
    return n


def hive_column(c):
    t = hive_field(c.name, c.type)
    if c.comment:
        t.doc = c.comment
    return t


def not_union(columns, name):
    return not any([isinstance(c.type, HUnionType) for c in columns])


def code_hive(columns, name):
    table = HTable("db", name, "MANAGED_TABLE", columns, [], HStorage(StorageFormat("", "", "")), {})
    return HiveMetastoreConverter().to_recap(table)


def spec_hive(columns, name):
    return Struct([hive_column(c) for c in columns], name=name)


def code_hive_union(types, comment):
    return code_hive([HColumn("c", HUnionType(types), comment)], "t")


def spec_hive_union(types, comment):
    return spec_hive([HColumn("c", HUnionType(types), comment)], "t")


def bare(t):
    return not isinstance(t, HUnionType)


def code_shape(t):
    n = hive_type(t)
    return [n.kind, n.logical, n.alias, n.doc, n.attrs]


def spec_shape(t):
    n = hive_type(t)
    if n.kind == "null":
        return ["null", None, None, None, {}]
    return ["union", None, None, None, {"default": None}]


def code_flat(t):
    k = HiveMetastoreConverter()
    return k._flatten_unions(k._parse_schema(t))
