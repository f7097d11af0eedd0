"""Protobuf in both directions."""
import z3
from proto_schema_parser import ast
from proto_schema_parser.parser import Parser

from engine.contract import Contract, Task
from engine.interp import Model
from engine.sorts import Bool, Choice, Const, DictOf, Int, ListOf, Maybe, Obj, OptInt, Opt, OptStr, Scalar, Sort, Str, Union
from engine.values import *

from recap import types as T
from contracts import pb_spec as P
from contracts.recap_sort import RESERVED, build, recap_sort

IDENT = r"[a-zA-Z_][a-zA-Z0-9_]*"
DOTTED = IDENT + r"(\." + IDENT + ")*"
TYPES = ["string", "bool", "bytes", *P.INTS, "float", "double", "google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.NullValue"]
C = ast.FieldCardinality


class TypeName(Str):
    def rand(self, r):
        return r.choice(TYPES) if r.random() < 0.8 else r.choice(["M", "a.b.M", ".a.b.M", ".M", "N", "E", "a.E", "google.protobuf.Any", "int", "Timestamp", "uint8"])


TYPE = TypeName(words=TYPES, regex=r"\.?" + IDENT + r"(\." + IDENT + ")*")
KEY = Choice("string", "bool", *P.INTS)  # the keys that the grammar allows
NAME = Str(words=["a", "b", "name", "x_1", "M"], regex=IDENT)


class Ast(Sort):
    """A node of the .proto syntax tree."""

    def __init__(self, cls, **parts):
        self.cls, self.parts = cls, parts

    def sym(self, it, name):
        return VObj(self.cls, {k: (s.sym(it, f"{name}.{k}") if isinstance(s, Sort) else s) for k, s in self.parts.items()})

    def conc(self, c, name):
        return self.cls(**{k: (s.conc(c, f"{name}.{k}") if isinstance(s, Sort) else s) for k, s in self.parts.items()})

    def rand(self, r):
        return self.cls(**{k: (s.rand(r) if isinstance(s, Sort) else s) for k, s in self.parts.items()})


NUM = Int(lo=1, hi=2**29 - 1, picks=[1, 2, 3])
FIELD = Ast(ast.Field, name=NAME, number=NUM, type=TYPE, cardinality=Union(Const(None), Const(C.REQUIRED), Const(C.OPTIONAL), Const(C.REPEATED)))
ONEPART = Ast(ast.Field, name=NAME, number=NUM, type=TYPE, cardinality=Const(None))
MAP = Ast(ast.MapField, name=NAME, number=NUM, key_type=Const("string"), value_type=TYPE)
ONEOF = Ast(ast.OneOf, name=NAME, elements=ListOf(ONEPART))
ELEMENT = Union(FIELD, MAP, ONEOF)


class Text(Model):
    def __init__(self, file):
        self.file = file

    def clone(self, memo, cloner):
        return Text(cloner(self.file))


class ParserModel(Model):
    def m_parse(self, it, args, kw):
        v = it.force(args[0])
        if not isinstance(v, Text):
            raise Unsupported("text of an unknown file")
        return v.file


def setup(e):
    def proto_text(it, args, kw):
        package, elements = it.force(args[0]), it.force(args[1])
        items = [VObj(ast.Package, {"name": package})] if package is not None else []
        return Text(VObj(ast.File, {"syntax": None, "file_elements": VList(items + list(elements.items))}))

    e.models[P.proto_text] = proto_text
    e.models[Parser] = lambda it, args, kw: ParserModel()


class NamedType(Contract):
    """What a built-in name stands for; the body is used for all other names (references).
    Discharged by the tasks to_recap(named types)."""

    def __init__(self):
        K = P.ProtobufConverter
        super().__init__("built-in type", [K._protobuf_type_to_recap_type] if hasattr(K, "_protobuf_type_to_recap_type") else [], [P.named],
                         result=recap_sort("Builtin", extra=DictOf({}), alias=Const(None), doc=Const(None), proxies=False,
                                           kinds=["null", "bool", "int", "float", "string", "bytes"]))

    def apply(self, it, f, args, kw):
        t = it.force(args[0] if f is P.named else args[1])
        if isinstance(t, str):
            return NotImplemented
        t = t.t
        if not it.path.decide(z3.Or(*[t == z3.StringVal(x) for x in TYPES])):
            return NotImplemented
        self.uses += 1
        return self.result.sym(it, f"builtin({z3.simplify(t)})")


class Files(Sort):
    """One to three files: messages (nested ones too) and enums, referring to each other."""

    def sym(self, it, name):
        raise Unsupported("files")

    def conc(self, c, name):
        return []

    def rand(self, r):
        out = []
        names = [f"T{i}" for i in range(30)]
        i = 0
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            p = r.choice([None, None, "p", "p", "p.q", "q"])
            es, decl = [], []
            for _ in range(r.randint(0 if r.random() < 0.1 else 1, 3)):
                decl.append(names[i])
                i += 1
            extra = names[i: i + r.choice([0, 0, 1, 2])]
            i += len(extra)
            if r.random() < 0.05 and extra:
                extra[0] = decl[0] if decl else extra[0]

            def ref():
                n = r.choice(decl + extra + decl + extra + ["Nope"] if r.random() < 0.05 else decl + extra or ["int32"])
                return r.choice([n, n, n, f"{p}.{n}" if p else n, f".{p}.{n}" if p else f".{n}"])

            def ftype():
                return ref() if r.random() < 0.4 else r.choice(TYPES)

            def body(inner, k):
                out = []
                for j in range(k):
                    what = r.random()
                    nm = f"f{j}"
                    if what < 0.65:
                        out.append(ast.Field(nm, j + 1, ftype(), r.choice([None, C.REQUIRED, C.OPTIONAL, C.REPEATED])))
                    elif what < 0.8:
                        out.append(ast.MapField(nm, j + 1, r.choice(["string", "int32", "uint64"]), ftype()))
                    else:
                        out.append(ast.OneOf(nm, [ast.Field(f"o{j}{x}", 20 + 10 * j + x, ftype()) for x in range(r.randint(1, 3))]))
                for n in inner:
                    if r.random() < 0.5:
                        out.insert(r.randint(0, len(out)), ast.Enum(n, [ast.EnumValue(v, x) for x, v in enumerate(["A", "B", "C"][: r.randint(1, 3)])]))
                    else:
                        out.insert(r.randint(0, len(out)), ast.Message(n, [ast.Field("x", 1, ftype(), r.choice([None, C.REQUIRED, C.REPEATED]))]))
                return out

            for d in decl:
                if r.random() < 0.25:
                    es.append(ast.Enum(d, [ast.EnumValue(v, x) for x, v in enumerate(["Z", "Y", "X"][: r.randint(1, 3)])]))
                else:
                    es.append(ast.Message(d, body(extra, r.randint(0, 4))))
                    extra = []
            if r.random() < 0.2:
                es.insert(0, ast.Import("google/protobuf/timestamp.proto"))
            out.append((p, es))
        return out


class C18:
    trusted = ["proto_schema_parser reads a file as its syntax tree (in the proof the tree is the input; the search parses generated text)"]
    assumptions = ["names are Protobuf identifiers", "nested messages and enums have names of their own in the package"]

    @staticmethod
    def tasks(tier):
        ns = Union(Const(None), Str(words=["a.b", "p", "_root"], regex=DOTTED))
        mk = lambda name, *a, **kw: Task("protobuf." + name, *a, setup=setup, frame=False, **kw)
        return [
            mk("to_recap(named types)", P.code_two, P.spec_two, {"namespace": ns, "package": ns, "a": NAME, "b": NAME, "s": TYPE, "t": TYPE}),
            mk("to_recap(map keys)", P.code_map_keys, P.spec_map_keys, {"a": NAME, "b": NAME, "key": KEY, "key2": KEY}),
            mk("to_recap(message)", P.code_packaged, P.spec_packaged, {"package": Str(words=["a.b", "p", "_root"], regex=DOTTED), "name": NAME, "elements": ListOf(ELEMENT)},
               contracts=[NamedType()]),
            mk("to_recap(enum)", P.code_enum, P.spec_enum, {"package": ns, "name": NAME, "values": ListOf(NAME)}, requires=P.r_enum),
            mk("to_recap(no message)", P.code_nothing, P.spec_nothing, {"package": ns}),
            mk("to_recap(files)", P.code_files, P.spec_files, {"files": Files()}, bounded_only=True,
               note="bounded: one to three files of up to three messages, nested declarations and references between them"),
        ]


# ---- writing -------------------------------------------------------------------------------
LEAF = ("null", "bool", "int", "float", "string", "bytes", "proxy")


def shape(kinds, child=None, types=None):
    """Recap types of some kinds, nested ones from child."""
    bits = Int(default=32, picks=[1, 8, 31, 32, 33, 63, 64, 65, 128])
    size = OptInt(lo=0, picks=[0, 1, 100, P.LIMIT - 1, P.LIMIT, P.LIMIT + 1])
    attrs = {"null": {}, "bool": {}, "int": {"bits": bits, "signed": Bool()}, "float": {"bits": bits},
             "string": {"bytes_": size, "variable": Bool()}, "bytes": {"bytes_": size, "variable": Bool()},
             "proxy": {"registry": Const(None), "_resolved": Const(None)},
             "list": {"values": child, "length": OptInt(), "variable": Bool()}, "map": {"keys": child, "values": child},
             "union": {"types": types or (ListOf(child) if child is not None else None)}}
    cls = {"null": T.NullType, "bool": T.BoolType, "int": T.IntType, "float": T.FloatType, "string": T.StringType, "bytes": T.BytesType,
           "proxy": T.ProxyType, "list": T.ListType, "map": T.MapType, "union": T.UnionType}
    return Obj("PbType", [(cls[k], {"type_": Const(k), **attrs[k]}) for k in kinds],
               {"logical": OptStr(words=["build.recap.Decimal"]), "alias": OptStr(words=["a.b", "x.y.Z"]), "doc": OptStr(words=["doc"]),
                "extra_attrs": DictOf({"name": Maybe(NAME)}, rest=Scalar(), excluded=RESERVED)}, build=build)


class Fixed(Sort):
    """A list of so many parts."""

    def __init__(self, *parts):
        self.parts = parts

    def sym(self, it, name):
        return VList([s.sym(it, f"{name}.{i}") for i, s in enumerate(self.parts)])

    def conc(self, c, name):
        return [s.conc(c, f"{name}.{i}") for i, s in enumerate(self.parts)]

    def rand(self, r):
        return [s.rand(r) for s in self.parts]


class Document(Sort):
    """Struct trees: nested messages and enums in one package or inside each other, references."""

    def sym(self, it, name):
        raise Unsupported("documents")

    def conc(self, c, name):
        return T.BoolType()

    def rand(self, r):
        self.n, self.r, self.seen = 0, r, []
        p = r.choice(["p", "p", "p.q", "a.b.c"])
        return self.struct(p, r.randint(0, 2))

    def alias(self, scope):
        self.n += 1
        parent, r = scope.rpartition(".")[0], self.r
        where = r.choice([scope, scope, parent if "." in scope else scope]) if r.random() < 0.97 else r.choice(["other", scope + "x", scope + ".x"])
        return f"{where}.T{self.n}"

    def struct(self, scope, depth, **extra):
        self.n += 1
        a = extra.pop("alias", None) or f"{scope}.M{self.n}"
        self.seen.append(a)
        return T.StructType([self.type(a, depth, name=f"f{i}") for i in range(self.r.randint(0, 4))], alias=a if self.r.random() > 0.02 else None, **extra)

    def type(self, scope, depth, **extra):
        r = self.r
        if r.random() < 0.15:
            extra.pop("name", None)
        k = r.choice(["null", "bool", "int", "float", "string", "bytes", "proxy", "enum"] + ["struct", "list", "map", "union", "union"] * (depth > 0))
        sub = lambda d=depth - 1: self.type(scope, d, **({"name": f"n{r.randint(0, 99)}"} if r.random() < 0.6 else {}))
        if k == "int":
            return T.IntType(r.choice([8, 32, 33, 64, 32, 64, 65]), signed=r.random() < 0.5, **extra)
        if k == "float":
            return T.FloatType(r.choice([16, 32, 33, 64, 64, 128]), **extra)
        if k in ("string", "bytes"):
            return (T.StringType if k == "string" else T.BytesType)(r.choice([1, 100, P.LIMIT, P.LIMIT + 1, None] if r.random() < 0.1 else [1, 100, P.LIMIT]), **extra)
        if k == "proxy":
            return T.ProxyType(r.choice(self.seen), T.RecapTypeRegistry(), **extra)
        if k == "enum":
            return T.EnumType(["A", "B", "C"][: r.randint(1, 3)], alias=self.alias(scope), **extra)
        if k == "struct":
            return self.struct(scope, depth - 1, alias=self.alias(scope), **extra)
        if k == "list":
            return T.ListType(sub(0 if r.random() < 0.8 else 1), **extra)
        if k == "map":
            return T.MapType(r.choice([T.StringType(10), T.IntType(32), T.BoolType(), sub(0)]), sub(), **extra)
        if k == "union":
            alts = [sub(0 if r.random() < 0.85 else 1) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
            return T.UnionType([T.NullType()] * (r.random() < 0.7) + alts, **extra)
        return {"null": T.NullType, "bool": T.BoolType}[k](**extra)


class C19:
    trusted = ["proto_schema_parser's syntax tree is what a .proto file says (the search writes the text and parses it back)"]
    assumptions = ["aliases of structs and enums are distinct", "references name structs and enums of the same document"]

    @staticmethod
    def tasks(tier):
        mk = lambda name, *a, **kw: Task("protobuf." + name, *a, setup=setup, frame=False, **kw)
        pkg = Str(words=["a.b", "p"], regex=DOTTED)
        low = shape(LEAF)
        tiny = shape(["null", "bool"])  # too deep for Protobuf whatever it is
        mid = lambda *kinds: shape([*kinds, "list", "map", "union"], tiny)
        one = lambda name, f: mk(f"from_recap({name})", P.code_write, P.spec_write, {"package": pkg, "name": NAME, "field": f})
        out = [one(k, shape([k])) for k in LEAF]
        out += [
            one("list", shape(["list"], mid(*LEAF))),
            one("map", shape(["map"], low)),
            mk("from_recap(map of nested keys)", P.code_map, P.spec_map, {"package": pkg, "name": NAME, "keys": mid("bool"), "values": shape(["bool"])}),
            mk("from_recap(map of nested values)", P.code_map, P.spec_map, {"package": pkg, "name": NAME, "keys": shape(["bool"]), "values": mid("bool")}),
            one("union", shape(["union"], shape(["null", "bool", "string"]))),
            *[one(f"union of nested {k}s", shape(["union"], shape(["bool", k], tiny))) for k in ("list", "map", "union")],
            mk("from_recap(nullable list or map)", P.code_nullable, P.spec_nullable, {"package": pkg, "name": NAME, "field": shape(["list", "map", "union"], tiny)}),
        ]
        return out + [
            mk("from_recap(fields)", P.code_fields, P.spec_fields, {"package": pkg, "name": NAME, "fields": ListOf(shape(["int", "proxy", "list", "map"], shape(["bool", "proxy"])))}),
            mk("from_recap(fields and oneofs)", P.code_fields, P.spec_fields, {"package": pkg, "name": NAME, "fields": ListOf(shape(["bool", "union"], types=Fixed(shape(["null"]), shape(["bool", "int"]), shape(["null", "bool"]), shape(["bool"]))))}),
            mk("from_recap(enum)", P.code_enum_field, P.spec_enum_field, {"package": pkg, "name": NAME, "enum": NAME, "symbols": ListOf(NAME)}, requires=P.r_enum_field),
            mk("from_recap(documents)", P.code_document, P.spec_document, {"t": Document()}, bounded_only=True,
               note="bounded: nested messages, enums and references, up to four fields each, nesting up to three"),
        ]
