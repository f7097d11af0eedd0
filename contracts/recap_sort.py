"""The input domain "every Recap type": a recursive skeleton over the twelve classes."""
from recap import types as T

from engine.sorts import Bool, Const, DictOf, Int, ListOf, Obj, OptInt, OptStr, Ref, Scalar, Str

RESERVED = ("type", "type_", "logical", "alias", "doc", "extra_attrs", "bits", "signed", "bytes_",
            "bytes", "variable", "values", "length", "keys", "fields", "symbols", "types", "registry",
            "self", "optional", "_resolved")
BITS = dict(lo=1, hi=2_147_483_647)
SIZE = dict(lo=1, hi=9_223_372_036_854_775_807)
BIT_PICKS = [1, 8, 16, 24, 32, 53, 63, 64, 65, 128]


class Alias(Scalar):
    """None or a qualified name (proofs: any string; search: qualified names)."""

    def __init__(self, words=("a.b", "x.y.Z", "p.q", "p.R")):
        super().__init__(("none", "str"), words=words)

    def conc(self, c, name):
        v = super().conc(c, name)
        return v if v is None or "." in v else None

    def rand(self, r):
        return r.choice([None, None, *self.words])


def build(cls, attrs):
    attrs = dict(attrs)
    attrs.pop("type_", None)
    attrs.pop("_resolved", None)
    extra = attrs.pop("extra_attrs", {})
    if cls is T.ProxyType:
        attrs.setdefault("alias", "string32")
        attrs["registry"] = T.RecapTypeRegistry()
        if attrs["alias"] is None:
            attrs["alias"] = "string32"
    return cls(**attrs, **extra)


def recap_sort(name="Recap", extra=None, alias=None, doc=None, logical=None, proxies=True, valid=False,
               kinds=None, strings=True, anybits=False, refs=None, randbits=None, nested=None):
    """A sort for Recap types.  extra: sort of extra_attrs."""
    holder = {}
    child = nested or Ref(lambda: holder["s"])
    variable = Bool()
    bits = Int(lo=None if anybits else 1, hi=None if anybits else 2_147_483_647, default=32, picks=BIT_PICKS, randhi=randbits)
    size = OptInt(lo=None if anybits else 1, hi=None if anybits else SIZE["hi"])
    classes = [
        (T.NullType, {"type_": Const("null")}),
        (T.BoolType, {"type_": Const("bool")}),
        (T.IntType, {"type_": Const("int"), "bits": bits, "signed": Bool()}),
        (T.FloatType, {"type_": Const("float"), "bits": bits}),
        (T.StringType, {"type_": Const("string"), "bytes_": size, "variable": variable}),
        (T.BytesType, {"type_": Const("bytes"), "bytes_": size, "variable": variable}),
        (T.ListType, {"type_": Const("list"), "values": child, "length": size, "variable": variable}),
        (T.MapType, {"type_": Const("map"), "keys": child, "values": child}),
        (T.StructType, {"type_": Const("struct"), "fields": ListOf(child)}),
        (T.EnumType, {"type_": Const("enum"), "symbols": ListOf(Str(words=["A", "B", "RED"]))}),
        (T.UnionType, {"type_": Const("union"), "types": ListOf(child)}),
        (T.ProxyType, {"type_": Const("proxy"), "registry": Const(None), "_resolved": Const(None)}),
    ]
    leaves = [0, 1, 2, 3, 4, 5, 9]
    if not proxies:
        classes = classes[:-1]
    if kinds is not None:
        classes = [c for c in classes if c[1]["type_"].v in kinds]
    leaves = [i for i, c in enumerate(classes) if c[1]["type_"].v in
              ("null", "bool", "int", "float", "string", "bytes", "enum")] or list(range(len(classes)))
    dflt = next((i for i, c in enumerate(classes) if c[0] is T.BoolType), 0)
    holder["s"] = Obj(
        name, classes,
        {
            "logical": logical or OptStr(words=["build.recap.Decimal", "build.recap.Timestamp", "build.recap.Time",
                                                "build.recap.Date", "build.recap.Duration", "build.recap.UUID"]),
            "alias": alias or OptStr(words=["a.b", "x.y.Z"]),
            "doc": doc or OptStr(words=["doc", ""]),
            "extra_attrs": extra or DictOf({}, rest=Scalar(), excluded=RESERVED),
        },
        build=build, dflt=dflt, leaves=leaves,
    )
    return holder["s"]
