"""JSON Schema in both directions."""
import z3

from engine.contract import Contract, Task, child_key
from engine.sorts import Bool, Const, DictOf, ListOf, MapOf, Maybe, Members, OptStr, Scalar, Sort, Str, Union
from engine.interp import Model
from engine.values import Lazy, Sym

from contracts import json_spec as J
from contracts.recap_sort import Alias, RESERVED, recap_sort

KINDS = ["object", "array", "string", "number", "integer", "boolean", "null"]
FORMATS = ["bytes", "date", "date-time", "time", "byte", "uuid"]
RES = ("type", "description", "default", "properties", "required", "items", "format", "$id", "$ref", "$dynamicRef")
COMMON = {"description": OptStr(words=["d", ""]), "default": Scalar(words=["v"])}


def rand_json(r, depth=0):
    k = r.choice(KINDS[2:] if depth > 2 else KINDS + ["union"])
    if k in KINDS[2:] and r.random() < 0.2 and depth:
        return {"type": k} if r.random() < 0.8 else k
    d = {"type": k}
    if k == "union":
        d["type"] = [r.choice(KINDS[2:]) for _ in range(r.randint(0, 3))]
    if k == "object":
        d["properties"] = {n: rand_json(r, depth + 1) for n in ("a", "b", "c") if r.random() < 0.6}
        if r.random() < 0.6:
            d["required"] = [n for n in ("a", "b", "c") if r.random() < 0.5]
    if k == "array":
        d["items"] = rand_json(r, depth + 1)
    if k == "string" and r.random() < 0.4:
        d["format"] = r.choice(FORMATS)
    if r.random() < 0.3:
        d["description"] = r.choice(["d", ""])
    if r.random() < 0.3:
        d["default"] = r.choice([None, 0, "v", False])
    return d


class Child(Sort):
    def sym(self, it, name):
        return Lazy(name, lambda i2, n: i2.force(self.node().sym(i2, n)))

    def node(self):
        return Union(Str(), DictOf({"type": Str(), **{k: Maybe(v) for k, v in COMMON.items()}}))

    def conc(self, c, name):
        if c.touches(name + ".kind"):
            return self.node().conc(c, name)
        nm = f"json({name})"
        if not any(m.startswith(nm) for m in c.mentioned):
            return {"type": "boolean"}
        if f"{nm}.ok" in c.mentioned and not c.boolean(f"{nm}.ok"):
            return {"type": "unknown"}
        kind = {0: "null", 1: "boolean", 2: "integer", 3: "number", 4: "string", 6: "array", 8: "object", 10: ["null", "string"]}
        k = kind.get(c.integer(f"{nm}.cls", 1), "boolean")
        out = {"type": k}
        if k == "array":
            out["items"] = "string"
        if k == "object":
            out["properties"] = {}
        if c.boolean(f"{nm}.extra_attrs.has.default"):
            out["default"] = c.val(f"{nm}.extra_attrs.val.default")
        u = recap_sort("Recap", extra=EXTRA, proxies=False, anybits=True, alias=Alias())
        over = {"default": Maybe(Scalar(words=["v"])), "doc": Maybe(Str(words=["d", ""]))}
        out.append(Task("json.from_recap(reference)", J.code_ref, J.spec_ref,
                        {"q": Str(words=list(BUILTIN) + ["a.b"]), "over": DictOf({"name": Maybe(Str(words=["n"])), **over})}, setup=setup))
        flat = lambda: recap_sort("Flat", extra=DictOf({"default": Maybe(Scalar(words=["v"]))}), proxies=False, alias=Alias())
        out += [Task(f"json.from_recap(optional {k})", J.code_wrapped, J.spec_wrapped,
                     {"t": OneKind(flat(), k), "default": Scalar(words=["v"]), "doc": OptStr(words=["d", ""])}, requires=J.simple_one, setup=setup)
                for k in ("bool", "float", "bytes", "enum")]
        out += [Task(f"json.from_recap(definition of {k})", J.code_referred, J.spec_referred,
                     {"t": OneKind(flat(), k), "u": OneKind(flat(), "bool"), "over": DictOf(over)}, requires=J.simple, setup=setup, frame=False)
                for k in ("bool", "int", "string", "enum")]
        out.append(Task("types.is_optional", J.code_optional, J.is_optional, {"t": OneKind(u, "union")},
                        note="lemma: what the contract of is_optional stands for"))
        return out

    def rand(self, r):
        return rand_json(r, min(r.depth, 2))


CHILD = Child()


def schema(**kw):
    f = {**{k: Maybe(v) for k, v in COMMON.items()}, **kw}
    return DictOf(f, rest=Scalar(), excluded=RES)


def json_key(it, f, args, kw):
    s = args[0] if f is J.parse else (args[1] if len(args) > 1 else kw.entries.get("json_schema"))
    k = child_key(it, s)
    return None if k == "s" else k


class JsonRegistry(Model):
    """referencing.Registry: schemas without $id and $ref never consult it."""


def setup(e):
    import referencing

    e.models[referencing.Registry] = lambda it, args, kw: JsonRegistry()


class C20:
    trusted = ["json.loads(json.dumps(x)) is a copy of x (engine model)"]
    assumptions = ["schemas without $id, $ref and $dynamicRef"]

    @staticmethod
    def tasks(tier):
        from recap.converters.json_schema import JSONSchemaConverter as K

        rec = lambda: [Contract("json", [K._parse] if hasattr(K, "_parse") else [], [J.parse], json_key,
                                recap_sort("JsonType", extra=DictOf({}, rest=Scalar(), excluded=RESERVED)), True)]

        def task(name, sort, code=J.code_field, spec=J.spec_field, requires=None, **kw):
            return Task(f"json.to_recap({name})", code, spec, {"s": sort}, requires=requires, contracts=rec(), setup=setup, **kw)

        obj = lambda: schema(type=Const("object"), properties=MapOf(Str(words=["a", "b"]), CHILD),
                             required=Maybe(Members(["a", "b", "c"])))
        return [
            task("object", obj(), J.code_top, J.spec_top),
            task("nested object", obj()),
            task("array", schema(type=Const("array"), items=CHILD)),
            task("string", schema(type=Const("string"), format=Maybe(OptStr(words=FORMATS)))),
            task("other", schema(type=Scalar(("none", "bool", "int", "str"), words=KINDS + ["Object"]), format=Maybe(Str(words=FORMATS)))),
            task("top-level other", schema(type=Scalar(("none", "bool", "int", "str"), words=KINDS)), J.code_top, J.spec_top),
            task("union", schema(type=ListOf(CHILD))),
            task("name", Str(words=KINDS)),
            task("array without items", schema(type=Const("array"))),
            task("object without properties", schema(type=Const("object"))),
        ]


# ---- Recap to JSON Schema ------------------------------------------------------------
EXTRA = DictOf({"name": Maybe(OptStr(words=["n", ""])), "default": Maybe(Scalar(words=["v"]))}, rest=Scalar(), excluded=RESERVED)


def from_key(it, f, args, kw):
    a = args if f is J.conv else args[1:]
    t = a[0] if a else kw.entries.get("field")
    refs = a[1] if len(a) > 1 else kw.entries.get("use_refs", True)
    k = child_key(it, t)
    return None if k in (None, "t") else f"{k},{refs}"


def defs_key(it, f, args, kw):
    k = child_key(it, args[-1] if args else None)
    return None if k == "t" else k


class C24:
    trusted = []
    assumptions = ["proved for types whose nested types have no aliases; definitions of nested aliases are checked with a bound"]

    @staticmethod
    def tasks(tier):
        from contracts.p_avro import OneKind
        from contracts.types_spec import BUILTIN
        from engine.values import VDict
        from recap.converters.json_schema import JSONSchemaConverter as K
        from recap.types import UnionType

        fget = getattr(vars(UnionType).get("is_optional"), "fget", None)

        def rec():
            return [
                Contract("to json", [K._convert_field] if hasattr(K, "_convert_field") else [], [J.conv], from_key,
                         DictOf({}, rest=Scalar()), True),
                Contract("definitions", [K._generate_alias_defs] if hasattr(K, "_generate_alias_defs") else [], [J.defs],
                         defs_key, lambda it, nm: VDict(), False),
                Contract("is_optional", [fget] if fget else [], [J.is_optional], lambda it, f, args, kw: child_key(it, args[0]),
                         lambda it, nm: Sym(z3.Bool(nm)), False),
            ]

        out = []
        for k in ("null", "bool", "int", "float", "string", "bytes", "list", "map", "struct", "enum", "union"):
            s = recap_sort("Recap", extra=EXTRA, proxies=False, anybits=True, alias=Alias())
            out.append(Task(f"json.from_recap({k})", J.code_from, J.spec_from, {"t": OneKind(s, k)}, requires=J.named, contracts=rec(), setup=setup))
        u = recap_sort("Recap", extra=EXTRA, proxies=False, anybits=True, alias=Alias())
        over = {"default": Maybe(Scalar(words=["v"])), "doc": Maybe(Str(words=["d", ""]))}
        out.append(Task("json.from_recap(reference)", J.code_ref, J.spec_ref,
                        {"q": Str(words=list(BUILTIN) + ["a.b"]), "over": DictOf({"name": Maybe(Str(words=["n"])), **over})}, setup=setup))
        flat = lambda: recap_sort("Flat", extra=DictOf({"default": Maybe(Scalar(words=["v"]))}), proxies=False, alias=Alias())
        out += [Task(f"json.from_recap(optional {k})", J.code_wrapped, J.spec_wrapped,
                     {"t": OneKind(flat(), k), "default": Scalar(words=["v"]), "doc": OptStr(words=["d", ""])}, requires=J.simple_one, setup=setup)
                for k in ("bool", "float", "bytes", "enum")]
        out += [Task(f"json.from_recap(definition of {k})", J.code_referred, J.spec_referred,
                     {"t": OneKind(flat(), k), "u": OneKind(flat(), "bool"), "over": DictOf(over)}, requires=J.simple, setup=setup, frame=False)
                for k in ("bool", "int", "string", "enum")]
        out.append(Task("types.is_optional", J.code_optional, J.is_optional, {"t": OneKind(u, "union")},
                        note="lemma: what the contract of is_optional stands for"))
        return out
