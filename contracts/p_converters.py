from engine.contract import Contract, Task, child_key
from engine.sorts import Bool, Column, Const, DictOf, Int, ListOf, Maybe, Obj, OptInt, OptStr, Ref, Scalar, Str
from engine.interp import VDict
from engine.values import Lazy, Star, VList, VObj

from contracts.recap_sort import recap_sort

SIZE = dict(lo=0, hi=2**63 - 1, picks=[0, 1, 16, 38, 76, 2**31])


# ---- BigQuery ------------------------------------------------------------------
class BQField:
    """The attributes of google.cloud.bigquery.SchemaField that a schema has."""


def bq_build(cls, a):
    from google.cloud import bigquery

    kw = {}
    for k in ("max_length", "precision", "scale", "default_value_expression"):
        if a[k] is not None:
            kw[k] = a[k]
    return bigquery.SchemaField(a["name"], a["field_type"], mode=a["mode"], description=a["description"],
                                fields=tuple(a["fields"]), **kw)


BQ_TYPES = """STRING JSON BYTES INT64 INTEGER INT SMALLINT TINYINT BYTEINT FLOAT FLOAT64 BOOLEAN BOOL TIMESTAMP DATETIME
TIME DATE RECORD STRUCT NUMERIC DECIMAL BIGNUMERIC BIGDECIMAL GEOGRAPHY string""".split()
BQ = {}
BQ["s"] = Obj("BQ", [(BQField, {
    "name": Str(words=["a", "b"]), "field_type": Str(words=BQ_TYPES),
    "mode": Str(words=["NULLABLE", "REQUIRED", "REPEATED"]), "description": OptStr(words=["d", ""]),
    "default_value_expression": OptStr(words=["1", ""]), "max_length": OptInt(**SIZE), "precision": OptInt(**SIZE),
    "scale": OptInt(**SIZE), "fields": ListOf(Ref(lambda: BQ["s"])),
})], build=bq_build)


def list_key(v):
    """Name of the input list that v is (a copy of), unmodified."""
    if isinstance(v, VList):
        if v.name and not v.dirty:
            return v.name
        if len(v.items) == 1 and isinstance(v.items[0], Star) and v.items[0].cases is None and not v.items[0].opaque:
            return v.items[0].src
    return None


def sub_list(it, f, args, kw):
    k = list_key(it.force(args[-1])) if args else None
    return None if k == "fields" else k


class C14:
    trusted = []
    assumptions = ["a schema field is read only through its public attributes"]

    @staticmethod
    def tasks(tier):
        from contracts import bigquery_spec as B
        from recap.converters.bigquery import BigQueryConverter

        rec = Contract("bigquery fields", [BigQueryConverter.to_recap], [B.bq_struct], sub_list,
                       recap_sort("BQStruct", kinds=["struct"], proxies=False), True)
        return [Task("bigquery.to_recap", B.code_bigquery, B.spec_bigquery, {"fields": ListOf(BQ["s"])}, contracts=[rec])]


# ---- Hive ----------------------------------------------------------------------
def hive_sorts():
    from pymetastore import htypes as H
    from pymetastore.metastore import HColumn

    holder = {}
    sub = Ref(lambda: holder["t"])
    classes = [(H.HPrimitiveType, {"primitive_type": Const(c)}) for c in H.PrimitiveCategory]
    n = len(classes)
    classes += [
        (H.HVarcharType, {"length": Int(lo=1, hi=65535)}),
        (H.HCharType, {"length": Int(lo=1, hi=255)}),
        (H.HDecimalType, {"precision": Int(lo=1, hi=38), "scale": Int(lo=0, hi=38)}),
        (H.HMapType, {"key_type": sub, "value_type": sub}),
        (H.HListType, {"element_type": sub}),
        (H.HStructType, {"names": Column("name", Str(words=["a", "b", "name"])), "types": Column("type", sub)}),
        (H.HUnionType, {"types": ListOf(sub)}),
    ]

    def build(cls, a):
        if cls is H.HStructType:
            k = min(len(a["names"]), len(a["types"]))
            return cls(a["names"][:k], a["types"][:k])
        return cls(**a)

    holder["t"] = Obj("HType", classes, build=build, dflt=1, leaves=list(range(n + 3)))
    col = Obj("HColumn", [(HColumn, {"name": Str(words=["a", "b", ""]), "type": holder["t"],
                                     "comment": OptStr(words=["c", ""])})], build=lambda c, a: c(**a))
    return holder["t"], col


def nullable_sort():
    """null without attributes, or a union with default None and no other attribute."""
    from recap import types as T

    inner = recap_sort("HiveMember", proxies=False)
    return Obj("HiveType", [
        (T.NullType, {"type_": Const("null"), "extra_attrs": DictOf({})}),
        (T.UnionType, {"type_": Const("union"), "types": ListOf(inner), "extra_attrs": DictOf({"default": Const(None)})}),
    ], {"logical": Const(None), "alias": Const(None), "doc": Const(None)})


class Hive(Contract):
    """A nested Hive type: null, or a union with null.  As a struct field it is the same
    type with the field's name."""

    def __init__(self, code, spec):
        from contracts import hive_spec as H

        super().__init__("hive type", [code] if code else [], [spec], None, nullable_sort(), True)

    def apply(self, it, f, args, kw):
        from pymetastore.metastore import HColumn

        v = it.force(args[-1])
        name = None
        if isinstance(v, VObj) and v.cls is HColumn:
            if v.name is not None or it.force(v.attrs.get("comment")) is not None:
                return NotImplemented
            name = v.attrs["name"]
            v = it.force(v.attrs["type"])
        k = child_key(it, v)
        if k is None or k.count(".") <= (1 if k.startswith("columns") else 0):
            return NotImplemented
        self.key = lambda *a: k
        r = super().apply(it, f, args, kw)
        if name is not None:
            it.dset(it.getattr(r, "extra_attrs"), "name", name)
        return r


class Flatten(Contract):
    """Flattening a converted Hive type changes nothing (lemma `hive flatten`)."""

    def __init__(self, code):
        super().__init__("hive flatten", [code] if code else [])

    def apply(self, it, f, args, kw):
        v = it.force(args[-1])
        if isinstance(v, VObj) and v.name and v.name.startswith("hive type("):
            self.uses += 1
            return v
        return NotImplemented


def hive_member_sort():
    from pymetastore import htypes as H

    P = H.PrimitiveCategory
    prim = lambda cs: [(H.HPrimitiveType, {"primitive_type": Const(c)}) for c in cs]
    inner = Obj("HInner", prim([P.INT, P.STRING, P.VOID]))
    classes = prim(P) + [
        (H.HVarcharType, {"length": Int(lo=1, hi=65535)}),
        (H.HCharType, {"length": Int(lo=1, hi=255)}),
        (H.HDecimalType, {"precision": Int(lo=1, hi=38), "scale": Int(lo=0, hi=38)}),
        (H.HListType, {"element_type": inner}),
        (H.HMapType, {"key_type": inner, "value_type": inner}),
    ]
    return Obj("HMember", classes, build=lambda c, a: c(**a))


class C15:
    assumptions = ["HType and HColumn objects are read through their public attributes"]

    @staticmethod
    def tasks(tier):
        from contracts import hive_spec as S
        from recap.converters.hive_metastore import HiveMetastoreConverter as K

        t, col = hive_sorts()
        rec = Hive(getattr(K, "_parse_schema", None), S.hive_type)
        out = [
            Task("hive.to_recap", S.code_hive, S.spec_hive, {"columns": ListOf(col), "name": Str(words=["t"])},
                 requires=S.not_union, contracts=[rec]),
            Task("hive type shape", S.code_shape, S.spec_shape, {"t": t}, requires=S.bare, contracts=[rec],
                 note="lemma: what the contract of nested types promises"),
            Task("hive.to_recap(union)", S.code_hive_union, S.spec_hive_union, {"types": ListOf(hive_member_sort()), "comment": OptStr(words=["c", ""])},
                 bounded_only=True, search_inputs={"types": ListOf(t)},
                 note="bounded: removal of duplicates compares every pair of members; search covers any member types"),
        ]
        if hasattr(K, "_parse_schema") and hasattr(K, "_flatten_unions"):
            out.append(Task("hive flatten", S.code_flat, S.hive_type, {"t": t}, requires=S.bare,
                            contracts=[rec, Flatten(K._flatten_unions)],
                            note="lemma: flattening leaves converted types alone"))
        return out
