import z3

from engine.contract import Contract, MethodContract, Task, child_key
from engine.sorts import (
    Bool, Choice, Const, DictOf, Int, ListOf, Maybe, OptInt, OptStr, Ref, Scalar, Sort, Str, Union,
)
from engine.values import Lazy, PyExc, Star, Sym, Unsupported, VList, VDict, VExc, VObj

from contracts import types_spec as S
from contracts.recap_sort import RESERVED, Alias, recap_sort

ANY = recap_sort("Recap", anybits=True)


class C03:
    @staticmethod
    def tasks(tier):
        return [
            Task("types.make_nullable", S.code_make_nullable, S.spec_make_nullable, {"t": ANY}),
            Task("types.is_nullable", S.code_is_nullable, S.spec_is_nullable, {"t": ANY}),
            Task("types.make_nullable is nullable", S.code_nullable_twice, S.spec_true, {"t": ANY}),
        ]


# ---- type dictionaries ---------------------------------------------------------
ATTRS = {"doc": OptStr(words=["d"]), "logical": OptStr(words=["build.recap.Time"]),
         "alias": OptStr(words=["a.b", "c.d", "bad", "int32", "x."]), "name": OptStr(words=["n"]),
         "default": Scalar(words=["v"])}
KINDS = ["null", "bool", "int", "float", "string", "bytes", "list", "map", "struct", "enum", "union"]


def rand_dict(r, kind=None, depth=0):
    """A random (mostly well formed) type dictionary."""
    leaf = ["null", "bool", "int", "float", "string", "bytes", "int32", "a.b", "string64", "enum"]
    kind = kind or r.choice(leaf if depth > 2 or r.random() < 0.5 else KINDS)
    if depth and r.random() < 0.3 and kind in ("null", "bool", "string", "bytes", "int32"):
        return kind
    if depth and kind == "union" and r.random() < 0.4:
        return [rand_dict(r, None, depth + 1) for _ in range(r.randint(0, 3))]
    d = {"type": kind}
    sub = lambda: rand_dict(r, None, depth + 1)
    if kind in ("int", "float"):
        if r.random() < 0.9:
            d["bits"] = r.choice([8, 16, 32, 64, 1, 0, -1, 2147483647, 2147483648, 24, 128])
        if r.random() < 0.4:
            d["signed"] = r.random() < 0.5
    if kind in ("string", "bytes"):
        if r.random() < 0.6:
            d["bytes"] = r.choice([None, 1, 16, 36, 0, 2**31, 2**63 - 1, 2**63])
        if r.random() < 0.4:
            d["variable"] = r.random() < 0.5
    if kind == "list":
        d["values"] = sub()
        if r.random() < 0.4:
            d["length"] = r.choice([None, 1, 5, 0, 2**63 - 1, 2**63])
        if r.random() < 0.4:
            d["variable"] = r.random() < 0.5
    if kind == "map":
        d["keys"], d["values"] = sub(), sub()
    if kind == "struct" and r.random() < 0.9:
        d["fields"] = [sub() for _ in range(r.randint(0, 3))]
    if kind == "enum":
        d["symbols"] = r.choice([["A"], ["A", "B"], []])
    if kind == "union":
        d["types"] = [sub() for _ in range(r.randint(0, 3))]
        if r.random() < 0.4:
            d["types"].insert(0, "null")
        if r.random() < 0.2:
            d["type"] = d.pop("types")
    for k, p in (("doc", 0.15), ("logical", 0.1), ("alias", 0.12), ("name", 0.3), ("default", 0.25),
                 ("foo", 0.1), ("optional", 0.15)):
        if r.random() < p:
            d[k] = {"doc": "d", "logical": "build.recap.X", "alias": r.choice(["a.b", "c.d", "e.f", "bad", "g.h.i"]),
                    "name": r.choice(["n", "m"]), "default": r.choice([None, 0, "v", False]), "foo": 1,
                    "optional": r.choice([True, True, False])}[k]
    return d


class Child(Sort):
    """A nested type dictionary; in proofs it is known only through the contract of
    the function that parses it."""

    def sym(self, it, name):
        return Lazy(name, lambda i2, n: i2.force(self.node().sym(i2, n)))

    def node(self):
        return Union(Str(), ListOf(self), type_dict(Str()))

    def conc(self, c, name):
        if c.touches(name + ".kind"):
            return self.node().conc(c, name)
        if any(m.startswith(f"from_dict({name})") for m in c.mentioned):
            return "bool" if c.boolean(f"from_dict({name}).ok") else {"type": "int"}
        return "bool"

    def rand(self, r):
        return rand_dict(r, None, min(r.depth, 3))


CHILD = Child()


def type_dict(kind, **more):
    f = {"type": kind}
    for k, v in ATTRS.items():
        f[k] = Maybe(v)
    for k, v in {
        "bits": Scalar(("none", "int", "str"), picks=[1, 32, 0, 2147483647, 2147483648]),
        "signed": Bool(), "bytes": Scalar(("none", "int", "str"), picks=[0, 1, 2**63 - 1, 2**63]),
        "length": Scalar(("none", "int", "str"), picks=[0, 1, 2**63 - 1, 2**63]),
        "variable": Bool(), "values": CHILD, "keys": CHILD, "fields": ListOf(CHILD),
        "types": ListOf(CHILD), "symbols": ListOf(Str()), "optional": Bool(), **more,
    }.items():
        f[k] = Maybe(v)
    return DictOf(f, rest=Scalar(), excluded=("type_", "self", "bytes_", "extra_attrs", "registry", "_resolved"))


class Whole(Sort):
    """A type dictionary of one kind (proofs: any; search: mostly well formed)."""

    def __init__(self, kind, drop=()):
        self.kind = kind
        self.s = type_dict(Const(kind))
        for k in drop:
            del self.s.fields[k]
        self.s.excluded = self.s.excluded + tuple(drop)

    def sym(self, it, name):
        return self.s.sym(it, name)

    def conc(self, c, name):
        return self.s.conc(c, name)

    def rand(self, r):
        d = rand_dict(r, self.kind, 0)
        for k in self.s.excluded:
            if k not in self.s.fields:
                d.pop(k, None)
        return d


PARSED = recap_sort("Parsed")


def registry_of(args, kw):
    v = args[1] if len(args) > 1 else kw.entries.get("registry")
    return v


def alias_dicts(reg):
    return [d for d in reg.attrs.values() if isinstance(d, VDict)] if isinstance(reg, VObj) else []


def parse_key(it, f, args, kw):
    a = args[0] if args else kw.entries.get("type_dict")
    k = child_key(it, a)
    if k is None or k == "d":
        return None
    reg = registry_of(args, kw)
    if not isinstance(reg, VObj) or not reg.attrs.get("$root"):
        return k + "|own registry"
    k0 = k.replace("[g]", "")
    if any(k0 in d.ext for d in alias_dicts(reg)):
        return k + "|again"
    return k


def parse_effect(it, f, args, kw, nm):
    for d in alias_dicts(registry_of(args, kw)):
        d.ext = d.ext | {nm[len("from_dict("):-1].replace("[g]", "")}


def mark_root(it, args, kw):
    args[0].attrs["$root"] = True
    return args[0]


FROM_DICT = lambda: Contract("from_dict", [S.from_dict], [S.parse], parse_key, PARSED, True, parse_effect)
# postcondition of from_dict used by its own recursion: what it returns has passed validate()
VALID = lambda: MethodContract("validate", "from_dict(", lambda it, o, args, kw: None)
VALID_PART = lambda: MethodContract("validate", "same(", lambda it, o, args, kw: None)


def setup(e):
    e.models[S.root] = mark_root


def from_dict_task(name, sort, **kw):
    return Task(f"types.from_dict({name})", S.code_from_dict, S.spec_from_dict, {"d": sort},
                contracts=[FROM_DICT()], methods=[VALID()], setup=setup, **kw)


class ListTyped(Whole):
    """{"type": [...], ...}"""

    def __init__(self):
        super().__init__("union", ("optional", "types"))
        self.s.fields["type"] = ListOf(CHILD)

    def rand(self, r):
        d = rand_dict(r, "union", 0)
        d.pop("optional", None)
        if "types" in d:
            d["type"] = d.pop("types")
        return d


class OtherTyped(Whole):
    """A reference, or a "type" that is neither a string nor a list."""

    def __init__(self):
        super().__init__("x", ("optional",))
        self.s.fields["type"] = Scalar(("none", "bool", "int", "str"), words=["a.b", "int32", "foo", "Int"])

    def rand(self, r):
        d = rand_dict(r, r.choice(["a.b", "int32", "", "foo", "Int"]), 0)
        d.pop("optional", None)
        if r.random() < 0.2:
            d["type"] = r.choice([None, 1, 1.5, False])
        return d


class OptionalTyped(Whole):
    def __init__(self, kind, drop=()):
        super().__init__(kind, drop)
        self.s.fields["optional"] = Bool()

    def rand(self, r):
        return {**super().rand(r), "optional": r.random() < 0.8}


class OptionalList(ListTyped):
    def __init__(self):
        super().__init__()
        self.s.fields["optional"] = Bool()

    def rand(self, r):
        return {**super().rand(r), "optional": r.random() < 0.8}


def other_type(d):
    return d["type"] not in KINDS


class C02:
    trusted = ["copy.deepcopy copies (engine model)", "re.fullmatch is translated to a z3 regular expression"]
    assumptions = [
        "type dictionaries are acyclic trees of dict/list/str; attributes other than the documented ones are scalars",
        "attribute names that the constructors reserve (type_, bytes_, self, extra_attrs, registry) do not occur as keys",
        "nested dictionaries are parsed once, with the registry of the outermost call (checked: a second parse or another registry is a different callee in the contract)",
    ]

    @staticmethod
    def tasks(tier):
        small = ["null", "bool", "int", "struct"] if tier == "quick" else KINDS
        return (
            [from_dict_task(k, Whole(k, ("optional",))) for k in KINDS]
            + [from_dict_task("list-valued type", ListTyped()),
               from_dict_task("reference", OtherTyped(), requires=other_type),
               from_dict_task("string", Str(words=KINDS + ["int32", "a.b"])),
               from_dict_task("list", ListOf(CHILD))]
            + [from_dict_task(f"optional {k}", OptionalTyped(k)) for k in small + ["union"]]
            + [from_dict_task("optional list", OptionalList())]
        )


NAMES = Str(words=list(S.BUILTIN) + ["a.b", "x.y.Z", "nope"])
OVER = DictOf({"name": Maybe(OptStr()), "default": Maybe(Scalar()), "foo": Maybe(Scalar()), "bits": Maybe(OptInt())})


class AnyAlias(Alias):
    """Aliases, well formed or not."""

    def rand(self, r):
        a = super().rand(r)
        return r.mutate(a) if a is not None and r.random() < 0.2 else a

    def conc(self, c, name):
        return Scalar.conc(self, c, name)


PLAIN = recap_sort("Plain", anybits=True, proxies=False, alias=AnyAlias(("a.b", "x.y.Z", "p.q", "p.R", "a.b\n", "bad", "a..b")))


class C04:
    trusted = ["copy.deepcopy copies (engine model)", "re.fullmatch is translated to a z3 regular expression"]
    assumptions = ["overrides of a reference range over name, default, bits and one further attribute"]

    @staticmethod
    def tasks(tier):
        return [
            Task("types.registry.register", S.code_register, S.spec_register, {"t": PLAIN, "q": NAMES}, frame=False),
            Task("types.registry.register two", S.code_register_twice, S.spec_register_twice,
                 {"t": PLAIN, "u": PLAIN, "q": NAMES}),
            Task("types.registry.refused", S.code_refused, S.spec_refused, {"t": PLAIN}),
            Task("types.registry.taken", S.code_taken, S.spec_taken, {"t": PLAIN, "u": PLAIN}),
            Task("types.proxy.resolve", S.code_resolve, S.spec_resolve, {"t": PLAIN, "over": OVER}),
            Task("types.proxy.resolve builtin", S.code_builtin, S.spec_builtin, {"q": NAMES, "over": OVER}),
        ]


class FewAliases(Alias):
    def rand(self, r):
        return f"{r.choice('abcdefg')}.{r.choice('tuvwxyz')}" if r.random() < 0.1 else None


FEW = DictOf({"name": Maybe(Str(words=["n", "m"])), "default": Maybe(Scalar(words=["v"]))}, rest=Scalar(), excluded=RESERVED)
WRITTEN = recap_sort("Written", alias=FewAliases(), extra=FEW)


class NullFirst(Ref):
    """Types with optional unions."""

    def sym(self, it, name):
        raise Unsupported("types of any depth")

    def rand(self, r):
        return optional(r, super().rand(r))


def optional(r, t):
    for k in ("keys", "values", "fields", "types"):
        v = getattr(t, k, None)
        if isinstance(v, list) and v and not isinstance(v[0], str):
            setattr(t, k, [optional(r, x) for x in v])
        elif isinstance(v, S.RecapType):
            setattr(t, k, optional(r, v))
    if isinstance(t, S.UnionType):
        if r.random() < 0.5:
            t.types = [S.NullType(), *t.types]
        if r.random() < 0.5:
            t.extra_attrs["default"] = r.choice([None, 1, "x"])
    elif r.random() < 0.15:
        t = S.UnionType([S.NullType(), t], default=r.choice([None, 0, "x"]))
        if r.random() < 0.5:
            t.extra_attrs["name"] = "f"
        if r.random() < 0.1:
            t.doc = "d"
    if t.extra_attrs.get("name", "") is None:
        del t.extra_attrs["name"]
    return t


def strip(k):
    """The input part that a name is about."""
    while k.endswith(")") and "(" in k:
        k = k[k.index("(") + 1:-1]
    return k


def assume_parts(e):
    setup(e)
    e.models[S.members_ok] = lambda it, args, kw: True
    e.models[S.parts_ok] = lambda it, args, kw: True


def part_key(it, f, args, kw):
    """Calls on parts of the input, and on what was written for them."""
    k = part_name(it, args[0]) if args else None
    return None if k is None or strip(k) == "t" else k


def name_of(v):
    return v.t.decl().name() if isinstance(v, Sym) and z3.is_const(v.t) else getattr(v, "name", None)


def copy_of(it, d):
    """The description that d has the entries of."""
    if d.rest is None or "(" not in d.rest.src or d.dyn or d.ext or getattr(d.rest, "filt", None):
        return None
    src = d.rest.src
    has = it.path.store_get(("rest", src))
    for k, v in d.entries.items():
        if name_of(v) != (f"{src}.type" if k == "type" else f"{src}.val.{k}"):
            return None
    return src if set(d.entries) == {"type"} | {k for k in has if has[k]} else None


def part_name(it, a):
    k = child_key(it, a)
    if k is None and isinstance(a, Sym) and z3.is_const(a.t) and "(" in a.t.decl().name():
        return a.t.decl().name()
    if k is None and isinstance(a, VList) and len(a.items) == 1 and isinstance(a.items[0], Star):
        # every element replaced by another description of the same type
        s = a.items[0]
        if not s.opaque and s.cases and all(len(vs) == 1 and strip(part_name(it, vs[0]) or "") == f"{s.src}[{s.tag}]" for _, vs in s.cases):
            return f"elements({s.src})"
    if k is None and isinstance(a, VDict):
        if list(a.entries) == ["type"] and a.rest is None and not a.dyn and it.kind_of(it.force(a.entries["type"])) == "str":
            return part_name(it, a.entries["type"])
        return copy_of(it, a)
    return k


def same_key(it, f, args, kw):
    k = part_key(it, f, args, kw)
    if k is None:
        return None
    k = strip(k)
    reg = registry_of(args, kw) if f is S.from_dict else None
    return k + "|again" if isinstance(reg, VObj) and k in reg.attrs.get("$read", ()) else k


def same_effect(it, f, args, kw, nm):
    """Reading a part defines its aliases: it cannot be read twice with one registry."""
    reg = registry_of(args, kw) if f is S.from_dict else None
    if isinstance(reg, VObj):
        reg.attrs["$read"] = reg.attrs.get("$read", frozenset()) | {strip(nm)}


class Written(Child):
    """What a part is written as: "null" only for the bare null type."""

    def node(self):
        return Union(NotNull(), ListOf(CHILD), type_dict(Str()))


class NotNull(Str):
    def sym(self, it, name):
        v = super().sym(it, name)
        it.path.assume(v.t != z3.StringVal("null"))
        return v


DESCRIPTION = lambda it, nm: Written().sym(it, nm)
def named(name):
    f = getattr(S.T, name, None)
    return [] if f is None else [f]


ROUND = lambda: [Contract("to_dict", [S.to_dict], [], part_key, DESCRIPTION, False), Contract("clean_dict", named("clean_dict"), [], part_key, DESCRIPTION, False),
                 Contract("alias_dict", named("alias_dict"), [], part_key, DESCRIPTION, False),
                 Contract("same", [S.from_dict, S.same], [S.same], same_key, PARSED, False, same_effect)]


class Row(Sort):
    def __init__(self, *parts):
        self.parts = parts

    def sym(self, it, name):
        return VList([s.sym(it, f"{name}.{i}") for i, s in enumerate(self.parts)])

    def conc(self, c, name):
        return [s.conc(c, f"{name}.{i}") for i, s in enumerate(self.parts)]

    def rand(self, r):
        return [s.rand(r) for s in self.parts]


class C01:
    trusted = ["copy.deepcopy copies (engine model)"]
    assumptions = ["types are trees with scalar attributes; every alias is well formed and defined once"]

    @staticmethod
    def tasks(tier):
        flags = {"clean": Choice(True, False), "alias": Choice(True, False)}
        out = []
        for k in LEAVES:
            out.append(Task(f"types.to_dict({k})", S.code_round, S.spec_round, {"t": recap_sort("Written", extra=FEW, kinds=[k]), **flags}, requires=S.r_round, frame=False))
        for k in ["list", "map", "struct"]:
            out.append(Task(f"types.to_dict({k})", S.code_nested, S.spec_nested, {"t": recap_sort("Written", extra=FEW, kinds=[k], nested=ANY), **flags},
                            requires=S.own_ok, frame=False, contracts=ROUND(), methods=[VALID_PART()], setup=assume_parts))
        for shape in S.SHAPES:
            out.append(Task(f"types.to_dict(union of {shape or 'nothing'})", S.code_union, S.spec_union, {
                "shape": Choice(shape), "x": ANY, "y": ANY, "z": ANY,
                "attrs": Row(OptStr(words=["build.recap.X"]), Alias(), OptStr(words=["d"])), "extra": FEW, **flags},
                requires=S.r_union, frame=False, contracts=ROUND(), methods=[VALID_PART()], setup=assume_parts))
        return out + [
            Task("types.to_dict", S.code_round, S.spec_round, {"t": NullFirst(lambda: WRITTEN), **flags}, requires=S.r_round, bounded_only=True, frame=False,
                 note="bounded: types of every kind with a few levels of nesting"),
        ]


LEAVES = ["null", "bool", "int", "float", "string", "bytes", "enum", "proxy"]
