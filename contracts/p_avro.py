"""Avro in both directions."""
import z3

from engine.contract import Contract, Task, child_key
from engine.interp import describe
from engine.sorts import Bool, Choice, Const, DictOf, Int, ListOf, Maybe, Obj, OptStr, Scalar, Sort, Str, Union
from engine.values import Lazy, Sym, VDict, VObj

from contracts import avro_spec as A
from contracts import types_spec as S
from contracts.recap_sort import RESERVED, recap_sort

PRIM = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"]
NAMES = ["a", "n.B", "Foo", "Outer", "x.y.Z"]
LOGICAL = {"decimal-bytes": ("decimal", "bytes"), "decimal-fixed": ("decimal", "fixed"), "uuid": ("uuid", "string"),
           "date": ("date", "int"), "time-millis": ("time-millis", "int"), "time-micros": ("time-micros", "long"),
           "timestamp-millis": ("timestamp-millis", "long"), "timestamp-micros": ("timestamp-micros", "long"),
           "duration": ("duration", "fixed")}


def rand_avro(r, depth=0, field=False):
    kinds = PRIM + ["Foo", "n.B", "enum", "fixed", "logical"]
    if depth < 3:
        kinds += ["record", "array", "map", "union", "inline"] * 2
    k = r.choice(kinds)
    sub = lambda: rand_avro(r, depth + 1)
    if not field and k in PRIM + ["Foo"] and r.random() < 0.5:
        return k
    if not field and k == "union":
        return [sub() for _ in range(r.randint(0, 3))]
    d = {"type": k}
    if field or k in ("record", "enum", "fixed"):
        d["name"] = r.choice(["a", "b", "c"] if field and k not in ("record", "enum", "fixed") else ["T1", "T2", "n.T3", "T4", "T5"])
    if k in ("record", "enum", "fixed") and r.random() < 0.3:
        d["namespace"] = r.choice(["n", "m.o", ""])
    if k == "record":
        d["fields"] = [rand_avro(r, depth + 1, True) for _ in range(r.randint(0, 3))]
    elif k == "enum":
        d["symbols"] = ["A", "B"]
    elif k == "fixed":
        d["size"] = r.choice([1, 16])
    elif k == "array":
        d["items"] = sub()
    elif k == "map":
        d["values"] = sub()
    elif k == "union":
        d["type"] = [sub() for _ in range(r.randint(0, 3))]
    elif k == "inline":
        d["type"] = rand_avro(r, depth + 1)
        if not isinstance(d["type"], dict):
            d["type"] = {"type": d["type"]}
    elif k == "logical":
        d["logicalType"], d["type"] = LOGICAL[r.choice(sorted(LOGICAL))]
        if d["type"] == "fixed":
            d["size"] = 12
        if d["logicalType"] == "decimal":
            d["precision"] = r.choice([1, 10])
            if r.random() < 0.5:
                d["scale"] = 2
    if r.random() < 0.2:
        d["doc"] = "doc"
    if r.random() < 0.2:
        d["default"] = r.choice([None, 0, "x", False])
    return d


class Child(Sort):
    """A nested schema, known in proofs through the contract of the parser only."""

    def __init__(self, field=False):
        self.field = field

    def sym(self, it, name):
        return Lazy(name, lambda i2, n: i2.force(self.node().sym(i2, n)))

    def node(self):
        return Union(Str(), ListOf(self), DictOf({"type": Str(), **{k: Maybe(v) for k, v in COMMON.items()}}))

    def conc(self, c, name):
        if c.touches(name + ".kind"):
            return self.node().conc(c, name)
        for m in c.mentioned:
            if m.startswith(f"avro({name}@") and m.endswith(".ok"):
                return "boolean" if c.boolean(m) else {"type": None}
        return "boolean"

    def rand(self, r):
        return rand_avro(r, min(r.depth, 2), self.field)


CHILD, FIELD = Child(), Child(True)
COMMON = {"name": Str(words=NAMES), "doc": OptStr(words=["d", ""]), "default": Scalar(words=["v"])}
SPACE = {"namespace": OptStr(words=["n", "a.b", ""])}
IGNORED = ("type", "name", "doc", "default", "namespace", "logicalType", "items", "values", "fields", "symbols",
           "size", "precision", "scale", "types", "aliases", "order")


def schema(**kw):
    f = {}
    for k, v in {**{k: Maybe(v) for k, v in COMMON.items()}, **kw}.items():
        f[k.rstrip("_")] = v
    return DictOf(f, rest=Scalar(), excluded=IGNORED)


def dicts_of(o, seen=None, depth=0):
    """The dictionaries a converter (or a set of aliases) keeps."""
    out = []
    if isinstance(o, VObj) and depth < 3:
        for x in o.attrs.values():
            if isinstance(x, VDict):
                out.append(x)
            else:
                out += dicts_of(x, seen, depth + 1)
    return out


class Parse(Contract):
    """A nested Avro schema: a Recap type that depends on the schema and on the enclosing
    namespace; it may define aliases in the converter's registry."""

    def __init__(self, code):
        super().__init__("avro", [code] if code else [], [A.parse], None, recap_sort("AvroType"), True)

    def apply(self, it, f, args, kw):
        vals = list(args) + list(kw.entries.values())
        own = [v for v in vals if isinstance(v, VObj) and v.cls is not None and (v.cls is A.Aliases or f is not A.parse)]
        if f is A.parse:
            s, ns = vals[0], vals[1]
        else:
            if len(args) < 2 or len(vals) < 3:
                return NotImplemented
            s, ns = args[1], vals[2]
        k = child_key(it, s)
        if k is None or k == "s" or not own:
            return NotImplemented
        k0 = k.replace("[g]", "")
        ds = dicts_of(own[0])
        nm = f"{k}@{self.space(it, k, it.force(ns))}"
        if not own[0].attrs.get("$root"):
            nm += "|other converter"
        elif any(k0 in d.ext for d in ds):
            nm += "|again"
        self.key = lambda *a: nm
        def effect(*a):
            for d in ds:
                d.ext = d.ext | {k0}
        self.effect = effect
        return super().apply(it, f, args, kw)

    def space(self, it, k, ns):
        """A name for the namespace, the same for namespaces known to be equal."""
        ns = it.scalar(ns)
        if not isinstance(ns, Sym):
            return repr(ns)
        known = it.path.store_get("avro.ns")
        d = describe(ns)
        for d2, (v2, n2) in known.items():
            if d2 == d:
                return n2
        for d2, (v2, n2) in known.items():
            f = it.eq(ns, v2)
            if f is True or (not isinstance(f, bool) and it.path.check(z3.Not(f)) == "unsat"):
                return n2
        it.path.store_set("avro.ns", {**known, d: (ns, d)})
        return d


def mark(it, args, kw):
    args[0].attrs["$root"] = True
    return args[0]


def setup(e):
    e.models[S.root] = mark


TOP = {"namespace": OptStr(words=["n", "a.b", ""])}


class C16:
    trusted = ["json.loads(json.dumps(x)) is a copy of x (engine model)"]
    assumptions = [
        "schemas are well formed Avro: required attributes are present, fields have no namespace and no dots in their names, "
        "a logical type annotates the base type the Avro specification gives it",
        "nested schemas are parsed once, by the same converter (checked: another converter is a different callee in the contract)",
    ]

    @staticmethod
    def tasks(tier):
        from recap.converters.avro import AvroConverter

        rec = lambda: [Parse(getattr(AvroConverter, "_parse", None))]

        def task(name, sort, code=A.code_field, spec=A.spec_field, requires=None, inputs=None, **kw):
            return Task(f"avro.to_recap({name})", code, spec, inputs or {"s": sort, **TOP}, requires=requires,
                        contracts=rec(), setup=setup, **kw)

        size = Int(lo=1, hi=A.MAXLEN, picks=[1, 12, A.MAXLEN])
        out = [
            task("primitive", schema(type=Str(words=PRIM)), requires=A.is_primitive),
            task("reference", schema(type=Str(words=["Foo", "a.b.C"])), requires=A.is_reference),
            task("name", Str(words=PRIM + ["Foo", "a.b.C"]), requires=A.is_reference_str),
            task("union list", ListOf(CHILD)),
            task("record", schema(type=Const("record"), fields=ListOf(FIELD), **{k: Maybe(v) for k, v in SPACE.items()})),
            task("top-level record", schema(type=Const("record"), fields=ListOf(FIELD), **{k: Maybe(v) for k, v in SPACE.items()}),
                 A.code_top, A.spec_top),
            task("top-level type", schema(type=Str(words=PRIM + ["Foo"])), A.code_top, A.spec_top, requires=A.is_top),
            task("top-level enum", schema(type=Const("enum"), symbols=ListOf(Str())), A.code_top, A.spec_top),
            task("enum", schema(type=Const("enum"), symbols=ListOf(Str(words=["A", "B"])), **{k: Maybe(v) for k, v in SPACE.items()})),
            task("fixed", schema(type=Const("fixed"), size=size, **{k: Maybe(v) for k, v in SPACE.items()})),
            task("array", schema(type=Const("array"), items=CHILD), requires=A.field_name_plain),
            task("map", schema(type=Const("map"), values=CHILD), requires=A.field_name_plain),
            task("union", schema(type=ListOf(CHILD)), requires=A.field_name_plain),
            task("inline type", schema(type=Inline()), requires=A.field_name_plain),
        ]
        for n, (lt, base) in LOGICAL.items():
            kw = {"logicalType": Const(lt), "type": Const(base)}
            if lt == "decimal":
                kw |= {"precision": Int(lo=1), "scale": Maybe(Int(lo=0))}
            if base == "fixed":
                kw |= {"size": size, **{k: Maybe(v) for k, v in SPACE.items()}}
            out.append(task(n, schema(**kw), requires=None if base == "fixed" else A.field_name_plain))
        q = {"q": Str(words=["Foo", "n.B", "B", "a.b.C"])}
        named = {k: Maybe(v) for k, v in SPACE.items()}
        out += [
            task("reference to enum", None, A.code_resolves, A.spec_resolves, A.not_primitive,
                 {"s": schema(type=Const("enum"), symbols=ListOf(Str(words=["A"])), **named), **q}),
            task("reference to fixed", None, A.code_resolves, A.spec_resolves, A.not_primitive,
                 {"s": schema(type=Const("fixed"), size=size, **named), **q}),
            task("reference to decimal", None, A.code_resolves, A.spec_resolves, A.not_primitive,
                 {"s": schema(type=Const("fixed"), size=size, logicalType=Const("decimal"), precision=Int(lo=1), **named), **q}),
            task("recursive record", None, A.code_recursive, A.spec_recursive, A.not_primitive,
                 {"s": schema(type=Const("record"), **named), **q}),
        ]
        return out


class Inline(Child):
    def node(self):
        return DictOf({"type": Str(), **{k: Maybe(v) for k, v in COMMON.items()}})

    def sym(self, it, name):
        return self.node().sym(it, name)

    def conc(self, c, name):
        for m in c.mentioned:
            if m.startswith(f"avro({name}@") and m.endswith(".ok"):
                return {"type": "boolean" if c.boolean(m) else None}
        return self.node().conc(c, name)

    def rand(self, r):
        d = rand_avro(r, min(r.depth, 2))
        return d if isinstance(d, dict) else {"type": d}


# ---- Recap to Avro ---------------------------------------------------------------
EXTRA = DictOf({"name": Maybe(OptStr(words=["n", ""])), "default": Maybe(Scalar(words=["v"])),
                "unit": Maybe(Scalar(words=["millisecond", "microsecond", "day", "second"])),
                "precision": Maybe(Scalar(picks=[1, 10])), "scale": Maybe(Scalar(picks=[0, 2]))}, rest=Scalar(),
               excluded=RESERVED)
WRITTEN = lambda: Union(Str(nonempty=True), DictOf({"type": Str()}, rest=Scalar(), excluded=("type",)))


def type_key(it, f, args, kw):
    k = child_key(it, args[-1] if args else next(iter(kw.entries.values()), None))
    return None if k == "t" else k


class C17:
    trusted = []
    assumptions = ["references carry no further attributes than name, doc and default",
                   "integers that do not fit a long are covered up to 129 bits (bounded task)"]

    @staticmethod
    def tasks(tier):
        from recap.converters.avro import AvroConverter as K

        rec = lambda: [Contract("to avro", [getattr(K, "_from_recap", None)] if hasattr(K, "_from_recap") else [],
                                [A.to_avro], type_key, WRITTEN(), True)]
        out = []
        for k in ("null", "bool", "int", "float", "string", "bytes", "list", "map", "struct", "enum", "union"):
            s = recap_sort("Recap", extra=EXTRA, proxies=False, anybits=True, randbits=600)
            top = OneKind(s, k)
            out.append(Task(f"avro.from_recap({k})", A.code_from, A.spec_from, {"t": top}, requires=A.narrow, contracts=rec()))
        out += [
            Task("avro.from_recap(nested)", A.code_from_field, A.to_avro,
                 {"t": recap_sort("Recap", extra=DictOf({"name": Maybe(OptStr(words=["n", ""]))}), proxies=False, anybits=True, randbits=600)},
                 requires=A.narrow, contracts=rec()),
            Task("avro.from_recap(wide integers)", A.code_wide, A.spec_wide,
                 {"bits": Choice(*range(33, 130), 192, 255, 256, 257, 512), "signed": Bool()}, note="bounded: 33 to 129 bits and some wider ones", bounded_only=True),
            Task("avro.from_recap(map keyed by a reference)", A.code_keys, A.spec_keys, {"q": Str(words=list(S.BUILTIN))}, requires=A.not_text),
            Task("avro.from_recap(reference)", A.code_proxy, A.spec_proxy,
                 {"q": Str(words=list(S.BUILTIN) + ["a.b"]),
                  "over": DictOf({"name": Maybe(Str(words=["n"])), "default": Maybe(Scalar()), "doc": Maybe(Str(words=["d", ""]))})}),
        ]
        return out


class OneKind(Sort):
    """Recap types of one kind (nested ones: any)."""

    def __init__(self, s, kind):
        i = next(i for i, c in enumerate(s.classes) if c[1]["type_"].v == kind)
        self.s = Obj(s.name, [s.classes[i]], s.common, build=s.build)

    def sym(self, it, name):
        return self.s.sym(it, name)

    def conc(self, c, name):
        return self.s.conc(c, name)

    def rand(self, r):
        return self.s.rand(r)
