"""Symbolic value domain of the verifier.

Concrete Python values (None, bool, int, float, str, tuples, classes, functions,
enum members ...) are used as they are.  Symbolic scalars are z3 terms wrapped in
Sym.  Mutable containers and objects created by the interpreted program are
VList / VDict / VSet / VObj.  A list of arbitrary length is a VList that holds a
Star segment; a dict with arbitrary further keys is a VDict that holds a Rest.
"""
from __future__ import annotations

import z3


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the path is undecided."""


class Infeasible(Exception):
    """The current path is contradictory; drop it."""


class EngineError(Exception):
    pass


Val = z3.Datatype("Val")
Val.declare("vnone")
Val.declare("vbool", ("b", z3.BoolSort()))
Val.declare("vint", ("i", z3.IntSort()))
Val.declare("vstr", ("s", z3.StringSort()))
Val.declare("voth", ("o", z3.IntSort()))
Val = Val.create()

INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()


class Sym:
    """A symbolic scalar. kind in 'int','bool','str','val'."""


    def __init__(self, t):
        self.t = t

    @property
    def kind(self):
        s = self.t.sort()
        if s == INT:
            return "int"
        if s == BOOL:
            return "bool"
        if s == STR:
            return "str"
        if s == Val:
            return "val"
        raise EngineError(f"sort {s}")

    def __repr__(self):
        return f"<{self.t}>"

    def __deepcopy__(self, memo):
        return self

    # never let a symbolic value be used by accident as a Python bool/hash key
    def __bool__(self):
        raise EngineError("Sym used as Python bool")

    __hash__ = None

    def __eq__(self, other):
        raise EngineError("Sym compared natively")


_OTH: dict = {}
_OTH_BACK: dict = {}


def oth_id(v):
    """Number of a concrete value that is none of None/bool/int/str."""
    key = (type(v), v)
    try:
        hash(key)
    except TypeError:
        return None
    if key not in _OTH:
        _OTH[key] = len(_OTH) + 1
        _OTH_BACK[len(_OTH)] = v
    return _OTH[key]


def to_val(v):
    """z3 Val term for a scalar."""
    if v is None:
        return Val.vnone
    if isinstance(v, bool):
        return Val.vbool(z3.BoolVal(v))
    if isinstance(v, int):
        return Val.vint(z3.IntVal(v))
    if isinstance(v, str):
        return Val.vstr(zstr(v))
    if isinstance(v, Sym):
        k = v.kind
        if k == "val":
            return v.t
        if k == "int":
            return Val.vint(v.t)
        if k == "bool":
            return Val.vbool(v.t)
        if k == "str":
            return Val.vstr(v.t)
    if isinstance(v, (float, bytes, tuple)) or type(v).__module__ == "enum":
        if isinstance(v, tuple) and not all(
            x is None or isinstance(x, (bool, int, str, float)) for x in v
        ):
            return None
        n = oth_id(v)
        return Val.voth(z3.IntVal(n)) if n is not None else None
    return None


def zstr(s: str):
    # z3 wants non-ascii characters escaped
    out = []
    for ch in s:
        if 32 <= ord(ch) < 127 and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % ord(ch))
    return z3.StringVal("".join(out))


def zstr_value(t) -> str:
    """Python string of a z3 string literal."""
    raw = t.as_string()
    out, i = [], 0
    while i < len(raw):
        if raw.startswith("\\u{", i):
            j = raw.index("}", i)
            out.append(chr(int(raw[i + 3 : j], 16)))
            i = j + 1
        else:
            out.append(raw[i])
            i += 1
    return "".join(out)


def simp(t):
    return z3.simplify(t)


class VObj:
    """An object. cls None means: the class is not determined yet (a skeleton)."""


    def __init__(self, cls, attrs=None, name=None, univ=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.name = name  # skeleton name (None for objects the program made)
        self.univ = univ  # Universe describing the possible classes
        self.poss = None
        self.dirty = False  # written to since it was made (skeletons only)

    def __repr__(self):
        c = self.cls.__name__ if self.cls else "?"
        n = f"@{self.name}" if self.name else ""
        return f"{c}{n}({', '.join(f'{k}={v!r}' for k, v in self.attrs.items())})"


class Star:
    """Segment of a VList: zero or more elements of source `src`.

    gen(path, elem_name) -> value builds the element skeleton for an instance name.
    cases None: the elements are the source elements themselves.
    cases [(phi, [values])]: image under a summarised loop body, in terms of the
    generic instance `src[g]`; phi are z3 Bool terms.
    """


    def __init__(self, src, gen, cases=None, opaque=False, tag="g"):
        self.src = src
        self.gen = gen
        self.cases = cases
        self.opaque = opaque
        self.tag = tag

    def __repr__(self):
        if self.opaque:
            return f"*opaque({self.src})"
        if self.cases is None:
            return f"*{self.src}"
        return f"*{self.src}=>{self.cases}"


class VList:

    def __init__(self, items=None, name=None):
        self.items = list(items) if items is not None else []
        self.name = name
        self.dirty = False

    def __repr__(self):
        return f"VList({self.items})"

    @property
    def has_star(self):
        return any(isinstance(x, Star) for x in self.items)


class Lazy:
    """A value that is decided when it is first used."""

    def __init__(self, name, gen):
        self.name, self.gen = name, gen

    def __repr__(self):
        return f"lazy@{self.name}"


class Rest:
    """Unknown further entries of a dict, named by src. filt: None or
    list of (phi over generic key/value, keep)."""


    def __init__(self, src, valgen=None, excluded=()):
        self.src = src
        self.valgen = valgen
        self.excluded = frozenset(excluded)

    def __repr__(self):
        return f"**{self.src}"


class DynEntry:
    """Entry of a VDict whose key is symbolic."""


    def __init__(self, key, value):
        self.key, self.value = key, value

    def __repr__(self):
        return f"[{self.key!r}]={self.value!r}"


class DynStar:
    """Entries of a VDict produced by a summarised loop: cases yield (key, value)."""


    def __init__(self, src, gen, cases, tag="g"):
        self.src, self.gen, self.cases, self.tag = src, gen, cases, tag

    def __repr__(self):
        return f"*entries({self.src}=>{self.cases})"


class VDict:

    def __init__(self, entries=None, rest=None, name=None):
        self.entries = dict(entries) if entries else {}
        self.seen = set()  # keys of rest that were materialised (or removed)
        self.rest = rest
        self.dyn = []
        self.log = False  # dyn is a log of stores whose keys may coincide
        self.ext = frozenset()  # names of callees that may have added further keys
        self.name = name
        self.dirty = False

    def __repr__(self):
        r = f", {self.rest}" if self.rest else ""
        d = f", dyn={self.dyn}" if self.dyn else ""
        return f"VDict({self.entries}{r}{d})"


class VSet:

    def __init__(self, items=None):
        self.items = list(items or [])

    def __repr__(self):
        return f"VSet({self.items})"


class VExc(VObj):
    """An exception instance."""

    def __init__(self, cls, args=()):
        super().__init__(cls, {"args": tuple(args)})


class VFunc:
    """A function/lambda defined by interpreted code."""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame = node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name


class BoundMethod:
    def __init__(self, func, self_, defcls=None):
        self.func, self.self_, self.defcls = func, self_, defcls

    def __repr__(self):
        return f"<bound {getattr(self.func,'__qualname__',self.func)}>"


class VSuper:
    def __init__(self, defcls, self_):
        self.defcls, self.self_ = defcls, self_


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc: VObj):
        super().__init__(repr(exc))
        self.exc = exc


class Opaque:
    """A value known only by name (identity). Equality is by name."""


    def __init__(self, name, **meta):
        self.name = name
        self.meta = meta

    def __repr__(self):
        return f"`{self.name}`"


class Havoc:
    """Value of a variable whose content is unknown after a summarised loop."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"havoc({self.name})"


_EXT: dict = {}


def root_name(k):
    """Name of the input part an element name belongs to."""
    for cut in ("/pre", "/w", "/post", "[g]"):
        k = k.replace(cut, "")
    return k


def ext_id(ext):
    return _EXT.setdefault(frozenset(root_name(k) for k in ext), len(_EXT) + 1)
