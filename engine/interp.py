"""Symbolic interpreter for the Python subset that the verified code uses.

It executes the AST of the real functions (read from the files they were imported
from) on the symbolic domain of values.py.  Calls to a function under contract are
replaced by the contract; other functions of the verified packages are inlined.
"""
from __future__ import annotations

import ast
import builtins
import dataclasses
import enum
import inspect
import types

import z3

from .path import literals, Path, explore, conj, Budget, STATS, rename_name, rename_term
from .values import *


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class OpaqueExc(Exception):
    """Some exception raised by a callee under contract."""


class Frame:
    def __init__(self, globals_, parent=None, fn=None, defcls=None):
        self.locals = {}
        self.globals = globals_
        self.parent = parent
        self.fn = fn
        self.defcls = defcls if defcls is not None else (parent.defcls if parent else None)
        self.nonlocals = set()
        self.globalnames = set()
        self.cont = None  # continuation for `yield` in an inlined context manager
        self.yields = None

    def func_frame(self):
        return self


class VMethod:
    """A method of a builtin container or symbolic scalar."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"<method {self.name}>"


class VRatio:
    """Exact quotient of two integers (result of /)."""

    def __init__(self, num, den):
        self.num, self.den = num, den


class Gen:
    """A generator-based context manager call, run when entered."""

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Model:
    """An object modelled by Python code on the engine side.

    Subclasses implement m_<name>(interp, args, kw) and a_<name>(interp)."""

    truthy = True

    def clone(self, memo, cloner):
        return self

    def getattr(self, interp, name):
        f = getattr(self, "a_" + name, None)
        if f is not None:
            return f(interp)
        if hasattr(self, "m_" + name):
            return ModelMethod(self, name)
        raise Unsupported(f"model {type(self).__name__} has no {name}")


class ContractMethod(Model):
    """A method of an input skeleton that is known by its contract only."""

    def __init__(self, contract, obj):
        self.contract, self.obj = contract, obj

    def clone(self, memo, cloner):
        return ContractMethod(self.contract, cloner(self.obj))

    def call(self, interp, args, kw):
        return self.contract.apply_method(interp, self.obj, args, kw)


class ModelMethod:
    def __init__(self, model, name):
        self.model, self.name = model, name

    def __call__(self, interp, args, kw):
        return getattr(self.model, "m_" + self.name)(interp, args, kw)


# --------------------------------------------------------------------------
# source access

_FILES: dict = {}


def file_index(filename):
    if filename not in _FILES:
        with open(filename) as f:
            src = f.read()
        tree = ast.parse(src, filename)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                idx[(node.lineno, node.name)] = node
                for d in node.decorator_list:
                    idx[(d.lineno, node.name)] = node
            elif isinstance(node, ast.Lambda):
                idx.setdefault((node.lineno, "<lambda>"), node)
        _FILES[filename] = idx
    return _FILES[filename]


def func_node(fn):
    code = fn.__code__
    node = file_index(code.co_filename).get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported(f"no source for {fn.__qualname__}")
    return node


VPREFIX = ["recap.", "contracts.", "speclib", "proto_schema_parser.ast", "pymetastore.htypes", "pymetastore.metastore"]


def verified_module(name):
    if name is None:
        return False
    return any(name == p.rstrip(".") or name.startswith(p) for p in VPREFIX)


def is_vclass(cls):
    return (
        isinstance(cls, type)
        and verified_module(cls.__module__)
        and not issubclass(cls, (enum.Enum, BaseException))
    ) or getattr(cls, "__verif_vclass__", False)


SCALARS = (bool, int, float, str, bytes, type(None))
NATIVE_OK_MODULES = {
    "builtins", "re", "urllib.parse", "json", "math", "posixpath", "copy", "inspect",
    "itertools", "functools", "string", "operator", "_operator", "pathlib", "datetime",
    "enum", "typing", "collections", "json.decoder", "json.encoder", "importlib",
    "unicodedata", "collections.abc", "_collections", "decimal", "fractions", "os.path",
}

LOWER = z3.Function("py.lower", STR, STR)
UPPER = z3.Function("py.upper", STR, STR)
INT_OF_STR = z3.Function("py.int", STR, INT)
IS_INT_STR = z3.Function("py.is_int", STR, BOOL)
STR_OF_INT = z3.Function("py.str_int", INT, STR)
STR_OF_VAL = z3.Function("py.str_val", Val, STR)
TRUTHY_OTH = z3.Function("py.truthy", INT, BOOL)
_UFS = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _UFS:
        _UFS[key] = z3.Function(name, *sorts)
    return _UFS[key]


def zint(v):
    if isinstance(v, Sym):
        return v.t
    return z3.IntVal(int(v))


def zs(v):
    return v.t if isinstance(v, Sym) else zstr(v)


def mk(t):
    """Wrap a z3 term, folding literals."""
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_string_value(t):
        return zstr_value(t)
    if t.sort() == Val and t.num_args() <= 1 and z3.is_app(t):
        d = t.decl().name()
        if d == "vnone":
            return None
        if d in ("vbool", "vint", "vstr"):
            return mk(t.arg(0))
    return Sym(t)


def z_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def z_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def z_not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


class Universe:
    """Possible classes of a skeleton object and the sorts of their attributes."""

    def __init__(self, name, classes, common=None):
        self.name = name
        self.classes = classes  # list of (cls, {attr: gen})
        self.common = common or {}

    def index(self, cls):
        return [i for i, (c, _) in enumerate(self.classes) if issubclass(c, cls)]


# --------------------------------------------------------------------------
# cloning and renaming of states


class Cloner:
    def __init__(self, rename=None):
        self.memo = {}  # id(orig) -> (orig, clone)
        self.rename = rename  # None or (old, new) generic-name substitution

    def nm(self, name):
        if self.rename and isinstance(name, str):
            return rename_name(name, *self.rename)
        return name

    def term(self, t):
        if not self.rename:
            return t
        return rename_term(t, *self.rename)

    def __call__(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, type)):
            return v
        if isinstance(v, Sym):
            return Sym(self.term(v.t)) if self.rename else v
        if isinstance(v, tuple):
            out = tuple(self(x) for x in v)
            return out if any(a is not b for a, b in zip(out, v)) else v
        hit = self.memo.get(id(v))
        if hit is not None:
            return hit[1]
        if isinstance(v, VObj):
            c = object.__new__(type(v))
            self.memo[id(v)] = (v, c)
            c.__dict__.update(v.__dict__)
            c.name = self.nm(v.name)
            c.poss = set(v.poss) if v.poss is not None else None
            c.attrs = {k: self(x) for k, x in v.attrs.items()}
            return c
        if isinstance(v, VList):
            c = VList()
            self.memo[id(v)] = (v, c)
            c.name = self.nm(v.name)
            c.dirty = v.dirty
            c.items = [self(x) for x in v.items]
            return c
        if isinstance(v, Star):
            if not self.rename:
                return v  # templates are never written to
            c = Star(self.nm(v.src), v.gen, None, v.opaque, v.tag)
            c.__dict__.update({k: x for k, x in v.__dict__.items() if k not in c.__dict__})
            if v.cases is not None:
                c.cases = [(self.term(f), [self(x) for x in vs]) for f, vs in v.cases]
            return c
        if isinstance(v, VDict):
            c = VDict()
            self.memo[id(v)] = (v, c)
            c.name = self.nm(v.name)
            c.dirty = v.dirty
            c.seen = set(v.seen)
            c.ext = v.ext
            c.rest = self(v.rest) if v.rest is not None else None
            c.entries = {k: self(x) for k, x in v.entries.items()}
            c.log = v.log
            c.dyn = [self(x) for x in v.dyn]
            return c
        if isinstance(v, Rest):
            return Rest(self.nm(v.src), v.valgen, v.excluded) if self.rename else v
        if isinstance(v, DynEntry):
            return DynEntry(self(v.key), self(v.value))
        if isinstance(v, DynStar):
            if not self.rename:
                return v
            c = DynStar(self.nm(v.src), v.gen, None, v.tag)
            c.cases = [
                (self.term(f), [(self(k), self(x)) for k, x in kvs]) for f, kvs in v.cases
            ]
            return c
        if isinstance(v, VSet):
            c = VSet()
            self.memo[id(v)] = (v, c)
            c.items = [self(x) for x in v.items]
            return c
        if isinstance(v, Lazy):
            return Lazy(self.nm(v.name), v.gen) if self.rename else v
        if isinstance(v, Frame):
            c = Frame(v.globals, None, v.fn, v.defcls)
            self.memo[id(v)] = (v, c)
            c.nonlocals, c.globalnames = v.nonlocals, v.globalnames
            c.cont, c.yields = v.cont, v.yields
            c.parent = self(v.parent) if v.parent is not None else None
            c.locals = {k: self(x) for k, x in v.locals.items()}
            return c
        if isinstance(v, VFunc):
            c = VFunc(v.node, None, v.defaults, v.kwdefaults, v.__name__)
            self.memo[id(v)] = (v, c)
            c.frame = self(v.frame)
            c.defaults = [self(x) for x in v.defaults]
            return c
        if isinstance(v, BoundMethod):
            return BoundMethod(self(v.func), self(v.self_), v.defcls)
        if isinstance(v, VMethod):
            return VMethod(self(v.obj), v.name)
        if isinstance(v, VSuper):
            return VSuper(v.defcls, self(v.self_))
        if isinstance(v, Opaque):
            return Opaque(self.nm(v.name), **v.meta) if self.rename else v
        if isinstance(v, Model):
            c = v.clone(self.memo, self)
            self.memo[id(v)] = (v, c)
            return c
        if isinstance(v, ModelMethod):
            return ModelMethod(self(v.model), v.name)
        return v  # native immutable / module / function


# --------------------------------------------------------------------------


class Engine:
    """What a verification run shares between paths."""

    def __init__(self):
        self.contracts = {}  # function object -> Contract
        self.models = {}  # native callable -> handler(interp, args, kw)
        self.class_models = {}  # native class -> handler
        self.method_contracts = {}  # method name -> MethodContract
        self.global_models = {}  # (module, name) -> value
        self.functions = set()  # functions interpreted (under verification)
        self.inlined = set()
        self.contract_uses = {}
        self.trusted = set()
        self.max_depth = 60


class Interp:
    def __init__(self, path: Path, eng: Engine):
        self.path = path
        self.eng = eng
        self.depth = 0
        self.mode = "code"

    # ---- errors -------------------------------------------------------
    def throw(self, cls, *args):
        raise PyExc(VExc(cls, args))

    # ---- forcing skeletons ---------------------------------------------
    def force(self, v):
        while isinstance(v, Lazy):
            if v.name in self.path.forced:
                w = self.path.forced[v.name]
                # every alias of a lazy cell sees the same mutable object only
                # through its container; a fresh copy keeps runs independent
                v = w(self) if callable(w) else w
            else:
                v = v.gen(self, v.name)
        if isinstance(v, Havoc):
            raise Unsupported(f"read of {v.name}, which a summarised loop wrote")
        return v

    def refine(self, o: VObj):
        """Decide the class of a skeleton."""
        if o.cls is not None:
            return o.cls
        c = z3.Int(f"{o.name}.cls")
        n = len(o.univ.classes)
        if o.poss is None:
            o.poss = set(range(n))
            self.path.assume(z3.And(c >= 0, c < n))
        poss = sorted(o.poss)
        for i in poss[:-1]:
            if self.path.decide(c == i):
                o.poss = {i}
                break
        else:
            self.path.assume(c == poss[-1]) if len(poss) > 1 else None
            o.poss = {poss[-1]}
        o.cls = o.univ.classes[next(iter(o.poss))][0]
        return o.cls

    def narrow(self, o: VObj, idxs):
        """Decide whether the skeleton's class index lies in idxs."""
        c = z3.Int(f"{o.name}.cls")
        n = len(o.univ.classes)
        if o.poss is None:
            o.poss = set(range(n))
            self.path.assume(z3.And(c >= 0, c < n))
        inn = o.poss & set(idxs)
        if not inn:
            return False
        if inn == o.poss:
            return True
        f = z3.Or([c == i for i in sorted(inn)])
        r = self.path.decide(f)
        o.poss = inn if r else (o.poss - inn)
        if len(o.poss) == 1:
            o.cls = o.univ.classes[next(iter(o.poss))][0]
        return r

    # ---- lifting native values -----------------------------------------
    def lift(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, type, enum.Enum)):
            return v
        if isinstance(v, (Sym, VObj, VList, VDict, VSet, Lazy, Havoc, Opaque, Model)):
            return v
        if isinstance(v, (types.FunctionType, types.ModuleType, types.BuiltinFunctionType)):
            return v
        key = id(v)
        hit = self.path.lifted.get(key)
        if hit is not None:
            return hit[1]
        if isinstance(v, list):
            out = VList()
            self.path.lifted[key] = (v, out)
            out.items = [self.lift(x) for x in v]
            return out
        if isinstance(v, dict):
            out = VDict()
            self.path.lifted[key] = (v, out)
            out.entries = {k: self.lift(x) for k, x in v.items()}
            return out
        if isinstance(v, (set, frozenset)):
            out = VSet([self.lift(x) for x in v])
            self.path.lifted[key] = (v, out)
            return out
        if isinstance(v, tuple):
            if type(v) is tuple:
                return tuple(self.lift(x) for x in v)
            return v
        if is_vclass(type(v)):
            out = VObj(type(v))
            self.path.lifted[key] = (v, out)
            out.attrs = {k: self.lift(x) for k, x in vars(v).items()}
            return out
        return v

    def concrete(self, v):
        """Native value of v, or raise Unsupported when it is not concrete."""
        v = self.force(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes, type, enum.Enum)):
            return v
        if isinstance(v, Sym):
            raise Unsupported(f"symbolic value {v} passed to native code")
        if isinstance(v, VList):
            if v.has_star:
                raise Unsupported("unbounded list passed to native code")
            return [self.concrete(x) for x in v.items]
        if isinstance(v, VDict):
            if v.rest or v.dyn:
                raise Unsupported("open dict passed to native code")
            return {k: self.concrete(x) for k, x in v.entries.items()}
        if isinstance(v, VSet):
            return {self.concrete(x) for x in v.items}
        if isinstance(v, tuple):
            return tuple(self.concrete(x) for x in v)
        if isinstance(v, VExc):
            try:
                return v.cls(*[self.concrete(a) for a in v.attrs["args"]])
            except Unsupported:
                raise
            except Exception:
                raise Unsupported("exception object passed to native code")
        if isinstance(v, (VObj, VFunc, BoundMethod, VMethod, Opaque, Model, VRatio, Gen,
                          ModelMethod, VSuper)):
            raise Unsupported(f"{type(v).__name__} passed to native code")
        return v

    # ---- truth, equality, comparison -----------------------------------
    def truth_formula(self, v):
        v = self.force(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, Sym):
            k = v.kind
            if k == "bool":
                return v.t
            if k == "int":
                return v.t != 0
            if k == "str":
                return v.t != z3.StringVal("")
            t = v.t
            return z3.And(
                z3.Not(Val.is_vnone(t)),
                z3.Implies(Val.is_vbool(t), Val.b(t)),
                z3.Implies(Val.is_vint(t), Val.i(t) != 0),
                z3.Implies(Val.is_vstr(t), Val.s(t) != z3.StringVal("")),
                z3.Implies(Val.is_voth(t), TRUTHY_OTH(Val.o(t))),
            )
        if isinstance(v, VList):
            if any(not isinstance(x, Star) for x in v.items):
                return True
            if not v.items:
                return False
            return self.nonempty(v)
        if isinstance(v, VDict):
            if v.entries or any(isinstance(d, DynEntry) for d in v.dyn):
                return True
            if v.rest is not None:
                n = self.rest_count(v)
                return n > 0 if not isinstance(n, int) else bool(n)
            if v.dyn:
                raise Unsupported("truth of a summarised dict")
            return False
        if isinstance(v, VSet):
            return bool(v.items)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, VObj):
            cls = self.refine(v) if v.cls is None and v.univ is not None else v.cls
            for nm in ("__bool__", "__len__"):
                m = self.lookup_class(cls, nm)
                if m is not None and cls is not type(None):
                    return self.truth_formula(self.call(self.bind(m, v, cls), [], VDict()))
            return True
        if isinstance(v, Model):
            t = v.truthy
            return t(self) if callable(t) else t
        if isinstance(v, (VFunc, BoundMethod, VMethod, type, Gen, VRatio)):
            return True
        if isinstance(v, Opaque):
            return z3.Bool(f"truthy({v.name})")
        return bool(v)

    def truth(self, v) -> bool:
        return self.path.decide(self.truth_formula(v))

    def nonempty(self, lst: VList) -> bool:
        """Does a list that consists of Star segments have an element?"""
        while True:
            self.expand(lst)
            if any(not isinstance(x, Star) for x in lst.items):
                return True
            if not lst.items:
                return False
            seg = lst.items[0]
            self.exists(seg, lambda it, e: True, "nonempty")
            # exists() has split the source or dropped the segment
            if seg.src in self.path.splits:
                continue
            lst.items = lst.items[1:]

    def rest_count(self, d: VDict):
        """Number of entries of d.rest that are not materialised in d."""
        src = d.rest.src
        n = z3.Int(f"{src}.n")
        known = self.path.store_get(("rest", src))
        true_all = sum(1 for k, h in known.items() if h)
        self.path.assume(n >= true_all)
        true_here = sum(1 for k in d.seen if known.get(k))
        return z3.simplify(n - true_here)

    def kind_of(self, v):
        """'none','bool','int','str','float','val' or None for non-scalars."""
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, str):
            return "str"
        if isinstance(v, Sym):
            return v.kind
        if isinstance(v, (float, bytes)):
            return "oth"
        return None

    def eq(self, a, b):
        """a == b as Python bool or z3 Bool."""
        if isinstance(a, Lazy) and isinstance(b, Lazy) and a.name == b.name:
            return True
        a, b = self.force(a), self.force(b)
        if a is b:
            return True
        if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
            if isinstance(a, Sym) or isinstance(b, Sym):
                s, e = (a, b) if isinstance(a, Sym) else (b, a)
                if isinstance(e, str):
                    return self.eq(s, str.__str__(e.value))
                if s.kind == "val":
                    va, vb = to_val(a), to_val(b)
                    return va == vb
                return False
            if isinstance(a, (VObj, VList, VDict)) or isinstance(b, (VObj, VList, VDict)):
                return False
            return a == b
        ka, kb = self.kind_of(a), self.kind_of(b)
        if ka and kb:
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            if ka == kb and ka != "val":
                ta = a.t if isinstance(a, Sym) else to_z3(a)
                tb = b.t if isinstance(b, Sym) else to_z3(b)
                return z3.simplify(ta == tb)
            if ka != "val" and kb != "val":
                if {ka, kb} == {"int", "bool"}:
                    ia = z3.If(a.t, 1, 0) if (ka == "bool" and isinstance(a, Sym)) else zint(a)
                    ib = z3.If(b.t, 1, 0) if (kb == "bool" and isinstance(b, Sym)) else zint(b)
                    return z3.simplify(ia == ib)
                return False
            va, vb = to_val(a), to_val(b)
            if va is None or vb is None:
                return False
            return z3.simplify(va == vb)
        if ka or kb:
            # scalar against container
            s = a if ka else b
            o = b if ka else a
            if isinstance(s, Sym) and s.kind == "val" and isinstance(o, (tuple, float)):
                vo = to_val(o)
                if vo is not None:
                    return z3.simplify(s.t == vo)
            if isinstance(s, Sym) and s.kind == "val" and isinstance(o, (VList, VDict)):
                self.path.taints.add("opaque value compared with a container")
                return self.path.fresh("opq_eq", BOOL)
            if isinstance(o, VObj):
                return self.obj_eq(o, s)
            return False
        if isinstance(a, VObj) or isinstance(b, VObj):
            if isinstance(a, VObj):
                return self.obj_eq(a, b)
            return self.obj_eq(b, a)
        if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            return self.seq_eq(a, b)
        if isinstance(a, VDict) and isinstance(b, VDict):
            return self.dict_eq(a, b)
        if isinstance(a, VSet) and isinstance(b, VSet):
            if len(a.items) != len(b.items):
                return False
            return all(self.contains(b, x) for x in a.items)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.name == b.name:
                return True
            self.path.taints.add("opaque equality")
            return self.path.fresh("opq_eq", BOOL)
        if isinstance(a, Model) and hasattr(a, "eq"):
            return a.eq(self, b)
        if isinstance(b, Model) and hasattr(b, "eq"):
            return b.eq(self, a)
        if isinstance(a, (VList, VDict, VSet, tuple)) or isinstance(b, (VList, VDict, VSet, tuple)):
            return False
        if isinstance(a, (VFunc, BoundMethod, Model)) or isinstance(b, (VFunc, BoundMethod, Model)):
            return False
        return bool(a == b)

    def obj_eq(self, a: VObj, b):
        if isinstance(b, VObj) and a.name and a.name == b.name and not a.dirty and not b.dirty:
            return True
        cls = self.refine(a) if a.cls is None else a.cls
        m = self.lookup_class(cls, "__eq__")
        if m is object.__eq__ or m is None:
            return False
        if isinstance(m, types.FunctionType):
            if dataclasses.is_dataclass(cls) and "__eq__" in vars(cls) and m.__module__ is None or (
                dataclasses.is_dataclass(cls) and m.__code__.co_filename.startswith("<")
            ):
                if not isinstance(b, VObj):
                    return False
                if self.refine(b) is not cls:
                    return False
                for f in dataclasses.fields(cls):
                    if not self.path.decide(
                        self.eq(self.getattr(a, f.name), self.getattr(b, f.name))
                    ):
                        return False
                return True
            r = self.call(m, [a, b], VDict())
            if r is NotImplemented:
                return False
            return self.truth_formula(r)
        raise Unsupported(f"__eq__ of {cls}")

    def seq_eq(self, a, b):
        ia = list(a) if isinstance(a, tuple) else self.expand(a).items
        ib = list(b) if isinstance(b, tuple) else self.expand(b).items
        sa, sb = any(isinstance(x, Star) for x in ia), any(isinstance(x, Star) for x in ib)
        if not sa and not sb:
            if len(ia) != len(ib):
                return False
            for x, y in zip(ia, ib):
                if not self.path.decide(self.eq(x, y)):
                    return False
            return True
        if len(ia) == len(ib) and all(
            (x is y)
            or (
                isinstance(x, Star)
                and isinstance(y, Star)
                and x.src == y.src
                and x.cases is None
                and y.cases is None
            )
            for x, y in zip(ia, ib)
        ):
            return True
        # decide emptiness when the other side is empty
        if not ia or not ib:
            other = VList(ia or ib)
            return not self.path.decide(self.truth_formula(other))
        raise Unsupported("equality of unbounded lists")

    def dict_eq(self, a: VDict, b: VDict):
        if a.dyn or b.dyn:
            raise Unsupported("equality of dicts with symbolic keys")
        for _ in range(3):
            keys = list(dict.fromkeys([*a.entries, *b.entries, *a.seen, *b.seen]))
            for k in keys:
                pa, va = self.dget(a, k)
                pb, vb = self.dget(b, k)
                if pa != pb:
                    return False
                if pa and not self.path.decide(self.eq(va, vb)):
                    return False
        if a.rest is None and b.rest is None:
            return True
        if a.rest is not None and b.rest is not None and a.rest.src == b.rest.src:
            return True
        if a.rest is not None and b.rest is not None:
            raise Unsupported("equality of two open dicts")
        d = a if a.rest is not None else b
        return z3.simplify(self.rest_count(d) == 0)

    def set_part(self, v):
        """(members, what to look members up in) of a set or a dict's keys, else None."""
        if isinstance(v, VSet):
            return list(v.items), v
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr), VSet(sorted(v, key=repr))
        if isinstance(v, VList) and getattr(v, "keys_of", None) is not None:
            return list(v.items), v.keys_of
        return None

    def is_subset(self, a, b):
        d = a[1]
        if isinstance(d, VDict) and d.rest is not None and not d.dyn and not d.ext and not getattr(d.rest, "filt", None) \
                and isinstance(b[1], VSet) and all(isinstance(x, str) for x in b[0]):
            # an open dict has only these keys when nothing remains once they are looked up
            for x in b[0]:
                self.dget(d, x)
            return all(k in b[0] for k in d.entries) and self.path.decide(self.rest_count(d) == 0)
        for x in a[0]:
            if isinstance(x, Star):
                if self.exists(x, lambda j, e: not j.contains(Cloner()(b[1]), e), "subset"):
                    return False
            elif not self.contains(b[1], x):
                return False
        return True

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        sa, sb = self.set_part(a), self.set_part(b)
        if sa is not None and sb is not None:
            if op == "<=" or op == ">=":
                return self.is_subset(sa, sb) if op == "<=" else self.is_subset(sb, sa)
            raise Unsupported("comparison of sets")
        if any(isinstance(x, (VList, VSet, tuple)) for x in (a, b)) and type(a) is type(b):
            raise Unsupported("comparison of sequences")
        a, b = self.scalar(a), self.scalar(b)
        ka, kb = self.kind_of(a), self.kind_of(b)
        if isinstance(a, VRatio) or isinstance(b, VRatio):
            raise Unsupported("comparison of quotients")
        if ka is None or kb is None or ka == "oth" or kb == "oth":
            if isinstance(a, (VObj, VList, VDict, Sym)) or isinstance(b, (VObj, VList, VDict, Sym)):
                if isinstance(a, (Sym,)) or isinstance(b, Sym) or isinstance(a, VList):
                    if ka in ("oth",) or kb in ("oth",):
                        raise Unsupported("float comparison")
                self.throw(TypeError, "comparison not supported")
            try:
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op] if False else _native_cmp(op, a, b)
            except TypeError as e:
                self.throw(TypeError, str(e))
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                return _native_cmp(op, a, b)
            except TypeError as e:
                self.throw(TypeError, str(e))
        num = ("int", "bool")
        if ka in num and kb in num:
            ta = self.as_int(a)
            tb = self.as_int(b)
            return mk({"<": ta < tb, "<=": ta <= tb, ">": ta > tb, ">=": ta >= tb}[op])
        if ka == "str" and kb == "str":
            ta, tb = zs(a), zs(b)
            return mk({"<": ta < tb, "<=": ta <= tb, ">": tb < ta, ">=": tb <= ta}[op])
        self.throw(TypeError, f"'{op}' not supported")

    def as_int(self, v):
        if isinstance(v, Sym):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if v.kind == "bool" else v.t
        return z3.IntVal(int(v))

    def scalar(self, v):
        """Resolve the type of a 'val' symbol by forking."""
        v = self.force(v)
        if isinstance(v, Sym) and v.kind == "val":
            t = v.t
            if self.path.decide(Val.is_vnone(t)):
                return None
            if self.path.decide(Val.is_vstr(t)):
                return mk(Val.s(t))
            if self.path.decide(Val.is_vint(t)):
                return mk(Val.i(t))
            if self.path.decide(Val.is_vbool(t)):
                return mk(Val.b(t))
            return Opaque(f"oth({t})", term=t)
        return v

    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b:
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if o is None:
                return z3.simplify(Val.is_vnone(s.t)) if s.kind == "val" else False
            if isinstance(o, bool):
                if s.kind == "bool":
                    return z3.simplify(s.t == z3.BoolVal(o))
                if s.kind == "val":
                    return z3.simplify(s.t == Val.vbool(z3.BoolVal(o)))
                return False
            if isinstance(o, Sym):
                return self.eq(a, b)
            return False
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return a is b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        return False

    # ---- isinstance -----------------------------------------------------
    def isinstance_(self, v, cls):
        v = self.force(v)
        if isinstance(cls, tuple):
            r = False
            for c in cls:
                x = self.isinstance_(v, c)
                if x is True:
                    return True
                r = z_or(r, x)
            return r
        if isinstance(cls, types.UnionType):
            return self.isinstance_(v, cls.__args__)
        if not isinstance(cls, type):
            cls2 = getattr(cls, "__origin__", None)
            if isinstance(cls2, type):
                cls = cls2
            else:
                raise Unsupported(f"isinstance with {cls}")
        if isinstance(v, Sym):
            k = v.kind
            if cls is object:
                return True
            if k == "val":
                fs = []
                if issubclass(str, cls):
                    fs.append(Val.is_vstr(v.t))
                if issubclass(int, cls):
                    fs.append(Val.is_vint(v.t))
                if issubclass(bool, cls):
                    fs.append(Val.is_vbool(v.t))
                if issubclass(type(None), cls):
                    fs.append(Val.is_vnone(v.t))
                if not fs:
                    if cls in (float, list, dict, bytes, tuple):
                        f = uf(f"py.isinst.{cls.__name__}", INT, BOOL)
                        return z3.And(Val.is_voth(v.t), f(Val.o(v.t)))
                    return False
                return z3.simplify(z3.Or(fs))
            py = {"int": int, "bool": bool, "str": str}[k]
            return issubclass(py, cls)
        if isinstance(v, VObj):
            if v.cls is not None:
                return issubclass(v.cls, cls)
            idx = v.univ.index(cls)
            return self.narrow(v, idx)
        if isinstance(v, VList):
            return issubclass(list, cls)
        if isinstance(v, VDict):
            return issubclass(dict, cls)
        if isinstance(v, VSet):
            return issubclass(set, cls)
        if isinstance(v, Model):
            pc = getattr(v, "pycls", None)
            if pc is None:
                raise Unsupported(f"isinstance of model {type(v).__name__}")
            return issubclass(pc, cls)
        if isinstance(v, Opaque):
            raise Unsupported("isinstance of an opaque value")
        if isinstance(v, (VFunc, BoundMethod)):
            return issubclass(types.FunctionType, cls)
        return isinstance(v, cls)

    # ---- lists with Star segments ---------------------------------------
    def expand(self, lst: VList):
        """Replace split sources by their parts."""
        changed = True
        while changed:
            changed = False
            out = []
            for x in lst.items:
                if isinstance(x, Star) and x.src in self.path.pending and x.src not in self.path.open:
                    self.path.settle(x.src)
                if isinstance(x, Star) and x.src in self.path.splits:
                    out.extend(self.split_parts(x))
                    changed = True
                else:
                    out.append(x)
            lst.items = out
        return lst

    def split_parts(self, star: Star):
        """Instances of star for the parts its source was split into."""
        out = []
        for part in self.path.splits[star.src]:
            kind, name = part
            if kind == "star":
                if star.cases is None:
                    out.append(Star(name, star.gen, None, star.opaque, star.tag))
                else:
                    ren = Cloner((star.src + "[g]", name + "[g]"))
                    c = Star(name, star.gen, None, star.opaque, star.tag)
                    c.cases = [
                        (ren.term(f), [ren(x) for x in vs]) for f, vs in star.cases
                    ]
                    out.append(c)
            else:
                if star.cases is None:
                    out.append(star.gen(self, name))
                else:
                    ren = Cloner((star.src + "[g]", name))
                    out.extend(self.pick_case([(ren.term(f), ren, vs) for f, vs in star.cases]))
        return out

    def pick_case(self, cases):
        """Fork over the cases of a summarised loop body.  The conditions come from one
        decision tree; it is walked literal by literal."""
        lits = [literals(f) for f, _, _ in cases]
        rows, pos = list(range(len(cases))), 0
        while True:
            if len(rows) == 1:
                i = rows[0]
                for _, _, l in lits[i][pos:]:
                    self.path.assume(l)
                f, ren, vs = cases[i]
                break
            heads = {}
            for i in rows:
                if pos >= len(lits[i]):
                    return self.pick_linear([cases[i] for i in rows])
                heads.setdefault(lits[i][pos][0], []).append(i)
            if len(heads) == 1:
                self.path.assume(lits[rows[0]][pos][2])
                pos += 1
                continue
            if len(heads) == 2:
                (g1, g2) = heads.values()
                a, b = lits[g1[0]][pos], lits[g2[0]][pos]
                if a[1] == b[0]:
                    g1, g2, a, b = g2, g1, b, a
                if b[1] == a[0]:
                    rows = g1 if self.path.decide(a[2]) else g2
                    pos += 1
                    continue
            return self.pick_linear([cases[i] for i in rows])
        return [ren(x) for x in vs]

    def pick_linear(self, cases):
        for i, (f, ren, vs) in enumerate(cases):
            if i == len(cases) - 1:
                self.path.assume(f)
                if not self.path.feasible():
                    raise Infeasible()
                return [ren(x) for x in vs]
            if self.path.decide(f):
                return [ren(x) for x in vs]
        return []

    def elements(self, star: Star):
        """Generic element(s) of a star inside a nested exploration."""
        g = star.src + "[g]"
        if star.cases is None:
            return [star.gen(self, g)]
        cl = Cloner()
        return self.pick_case([(f, cl, vs) for f, vs in star.cases])

    def open_source(self, path, src):
        for f in path.facts.get(src, ()):
            path.assume(f)
        path.open.add(src)

    def exists(self, star: Star, pred, label):
        """Fork: some element of the star satisfies pred (source is split there) or none."""
        src = star.src
        if src in self.path.open:
            raise Unsupported("nested loop over the same list")
        if src in self.path.empty_sources():
            return False
        phis = []

        def run(p):
            it = Interp(p, self.eng)
            it.depth = self.depth
            it.open_source(p, src)
            for e in it.elements(star):
                if pred(it, e):
                    return True
            return False

        for p, r in explore(run, self.path):
            if r:
                phis.append(p)
        if not phis:
            return False
        return not self.path.decide(self.path.none_literal(src, phis))

    def list_len(self, lst: VList):
        self.expand(lst)
        n = 0
        terms = []
        for x in lst.items:
            if isinstance(x, Star):
                if x.cases is not None and any(len(vs) != 1 for _, vs in x.cases):
                    counts = {len(vs) for _, vs in x.cases}
                    if counts <= {0, 1}:
                        # number of elements in the filtered image
                        keep = z3.simplify(z3.Or([f for f, vs in x.cases if vs]))
                        if n >= 2:
                            # enough witnesses for a comparison with a small number
                            from .loops import sum_id
                            t = z3.Int(f"total({x.src})~{sum_id(self, x, z3.If(keep, z3.IntVal(1), z3.IntVal(0)))}")
                            self.path.assume(t >= 0)
                            self.path.taints.add("length of a filtered list")
                            terms.append(t)
                            continue
                        if not self.path.splits.get(x.src) and self.exists(
                            x, lambda it, e: True, "len"
                        ):
                            return self.list_len(lst)
                        continue
                    raise Unsupported("length of an expanded list")
                t = z3.Int(f"len({x.src})")
                self.path.assume(t >= 0)
                if x.src in self.path.empty_sources():
                    continue
                terms.append(t)
            else:
                n += 1
        if not terms:
            return n
        return mk(z3.Sum([z3.IntVal(n)] + terms))

    def first(self, lst: VList):
        """Materialise the first element. Returns (present, value)."""
        while True:
            self.expand(lst)
            if not lst.items:
                return False, None
            x = lst.items[0]
            if not isinstance(x, Star):
                return True, x
            if not self.exists(x, lambda it, e: True, "first"):
                lst.items = lst.items[1:]

    # ---- dict access ----------------------------------------------------
    def dget(self, d: VDict, key):
        """(present, value)"""
        key = self.force(key)
        if isinstance(key, Sym):
            if key.kind == "val":
                key = self.scalar(key)
        if isinstance(key, Sym):
            for e in reversed(d.dyn):
                if isinstance(e, DynEntry):
                    if self.path.decide(self.eq(key, e.key)):
                        return True, e.value
                else:
                    raise Unsupported("lookup in a summarised dict")
            for k, v in list(d.entries.items()):
                if self.path.decide(self.eq(key, k)):
                    return True, v
            if d.rest is not None:
                raise Unsupported("symbolic key lookup in an open dict")
            return self.ext_get(d, key)
        if isinstance(key, (VObj, VList, VDict, Opaque)):
            if isinstance(key, (VList, VDict)):
                self.throw(TypeError, "unhashable type")
            raise Unsupported("object used as dict key")
        for e in reversed(d.dyn):
            if isinstance(e, DynEntry):
                if self.path.decide(self.eq(key, e.key)):
                    return True, e.value
            else:
                raise Unsupported("lookup in a summarised dict")
        if key in d.entries:
            return True, d.entries[key]
        if d.rest is None or key in d.seen or key in d.rest.excluded:
            return self.ext_get(d, key)
        if not isinstance(key, str):
            return False, None
        src = d.rest.src
        known = self.path.store_get(("rest", src))
        if key in known:
            has = known[key]
        else:
            has = self.path.decide(z3.Bool(f"{src}.has.{key}"))
            known = dict(known)
            known[key] = has
            self.path.store_set(("rest", src), known)
        d.seen.add(key)
        if has:
            v = (d.rest.valgen or default_valgen)(self, f"{src}.val.{key}", key)
            d.entries[key] = v
            return True, v
        return False, None

    def ext_get(self, d, key):
        """Was the key added by a callee that is known by contract only?"""
        if not d.ext or self.kind_of(key) != "str":
            return False, None
        f = z3.Function("added.by", z3.IntSort(), z3.StringSort(), z3.BoolSort())
        if self.path.decide(f(z3.IntVal(ext_id(d.ext)), zs(key))):
            return True, Havoc("value added by a callee")
        return False, None

    def dset(self, d: VDict, key, value):
        key = self.force(key)
        d.dirty = True
        if isinstance(key, Sym) and key.kind == "val":
            key = self.scalar(key)
        if isinstance(key, Sym):
            if d.dyn and (self.path.open or d.log or any(isinstance(e, DynStar) for e in d.dyn)):
                # keep the log of the stores: a later one overrides an equal key
                if d.dyn and isinstance(d.dyn[-1], DynEntry) and d.dyn[-1].key.t.eq(key.t):
                    d.dyn = d.dyn[:-1] + [DynEntry(key, value)]
                    return
                d.log = True
                for k in list(d.entries):
                    if self.path.decide(self.eq(key, k)):
                        raise Unsupported("store of a known key into a log")
                d.dyn = d.dyn + [DynEntry(key, value)]
                return
            for i, e in enumerate(d.dyn):
                if isinstance(e, DynEntry):
                    if self.path.decide(self.eq(key, e.key)):
                        d.dyn[i] = DynEntry(e.key, value)
                        return
            for k in list(d.entries):
                if self.path.decide(self.eq(key, k)):
                    d.entries[k] = value
                    return
            d.dyn = d.dyn + [DynEntry(key, value)]
            return
        if isinstance(key, (VList, VDict)):
            self.throw(TypeError, "unhashable type")
        for i, e in enumerate(d.dyn):
            if isinstance(e, DynEntry):
                if self.path.decide(self.eq(key, e.key)):
                    if d.log:
                        raise Unsupported("store into a log")
                    d.dyn[i] = DynEntry(e.key, value)
                    return
            else:
                raise Unsupported("store into a summarised dict")
        if d.rest is not None and key not in d.entries and key not in d.rest.excluded:
            self.dget(d, key)
        d.entries[key] = value

    def ddel(self, d: VDict, key):
        d.dirty = True
        if d.log:
            raise Unsupported("delete from a log")
        key = self.force(key)
        if d.rest is not None and isinstance(key, str):
            d.seen.add(key)
        if isinstance(key, Sym):
            for i, e in enumerate(d.dyn):
                if isinstance(e, DynEntry) and self.path.decide(self.eq(key, e.key)):
                    d.dyn = d.dyn[:i] + d.dyn[i + 1:]
                    return
            for k in list(d.entries):
                if self.path.decide(self.eq(key, k)):
                    del d.entries[k]
                    return
            raise Unsupported("delete of a symbolic key")
        if key in d.entries:
            del d.entries[key]
            return
        for i, e in enumerate(d.dyn):
            if isinstance(e, DynEntry) and self.path.decide(self.eq(key, e.key)):
                d.dyn = d.dyn[:i] + d.dyn[i + 1:]
                return

    def dict_update(self, d: VDict, other):
        other = self.force(other)
        if isinstance(other, VDict):
            d.dirty = True
            if other.dyn:
                for e in other.dyn:
                    if isinstance(e, DynEntry):
                        self.dset(d, e.key, e.value)
                    elif not d.entries and not d.dyn and d.rest is None:
                        d.dyn = list(other.dyn)
                        d.log = other.log
                        break
                    else:
                        raise Unsupported("update from a summarised dict")
            if other.rest is not None:
                if d.rest is not None and d.rest.src != other.rest.src:
                    raise Unsupported("union of two open dicts")
                # the other's open keys override: materialise d's own keys there
                for k in list(d.entries):
                    if k not in other.entries and k not in other.rest.excluded and isinstance(k, str):
                        self.dget(other, k)
                d.seen |= other.seen
                d.rest = other.rest
            for k, v in other.entries.items():
                self.dset(d, k, v)
            return
        if isinstance(other, (VList, tuple)):
            for kv in self.items_of(other):
                k, v = self.unpack(kv, 2)
                self.dset(d, k, v)
            return
        raise Unsupported("dict update")

    def dcopy(self, d: VDict):
        c = VDict(d.entries, d.rest)
        c.seen = set(d.seen)
        c.ext = d.ext
        c.dyn = list(d.dyn)
        c.log = d.log
        return c

    # ---- iteration ------------------------------------------------------
    def segments(self, v):
        """Items and Stars of an iterable."""
        v = self.force(v)
        if isinstance(v, VList):
            self.expand(v)
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, VSet):
            return list(v.items)
        if isinstance(v, VDict):
            return self.dict_segments(v, "keys")
        if isinstance(v, Sym):
            v = self.scalar(v)
            if isinstance(v, Sym):
                if v.kind == "str":
                    raise Unsupported("iteration over a symbolic string")
                self.throw(TypeError, "not iterable")
            if v is None:
                self.throw(TypeError, "'NoneType' object is not iterable")
        if isinstance(v, str):
            return list(v)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return list(v)
        if isinstance(v, (frozenset, set)):
            return [self.lift(x) for x in v]
        if isinstance(v, VObj):
            if isinstance(v, VExc):
                self.throw(TypeError, "not iterable")
            cls = self.refine(v) if v.cls is None else v.cls
            m = self.lookup_class(cls, "__iter__")
            if m is None:
                self.throw(TypeError, f"'{cls.__name__}' object is not iterable")
            return self.segments(self.call(m, [v], VDict()))
        if isinstance(v, Model) and hasattr(v, "segments"):
            return v.segments(self)
        if isinstance(v, types.MappingProxyType) or hasattr(v, "keys") and isinstance(v, dict):
            return [self.lift(k) for k in v]
        if isinstance(v, (Model, Opaque, VRatio, VFunc)):
            raise Unsupported(f"iteration over {type(v).__name__}")
        if v is None or isinstance(v, (bool, int, float)):
            self.throw(TypeError, f"'{type(v).__name__}' object is not iterable")
        if hasattr(v, "__iter__"):
            return [self.lift(x) for x in v]
        self.throw(TypeError, "object is not iterable")

    def dict_segments(self, d: VDict, what):
        out = []
        if d.log or len(d.dyn) > 1 and any(isinstance(e, DynStar) for e in d.dyn):
            raise Unsupported("iteration over a dict whose keys may coincide")
        for k, v in d.entries.items():
            out.append({"keys": k, "values": v, "items": (k, v)}[what])
        for e in d.dyn:
            if isinstance(e, DynEntry):
                out.append({"keys": e.key, "values": e.value, "items": (e.key, e.value)}[what])
            else:
                for _, kvs in e.cases:
                    # the keys of a mapping are distinct, those of a list need not be
                    if len(kvs) > 1 or any(not (isinstance(k, Sym) and z3.is_const(k.t) and k.t.decl().name() in (
                            f"{e.src}[{e.tag}].key", f"{e.src}[g].key")) for k, _ in kvs):
                        raise Unsupported("iteration over a dict whose keys may coincide")
                st = Star(e.src, e.gen, None, False, e.tag)
                st.cases = [
                    (
                        f,
                        [
                            {"keys": k, "values": v, "items": (k, v)}[what]
                            for k, v in kvs
                        ],
                    )
                    for f, kvs in e.cases
                ]
                out.append(st)
        if d.rest is not None:
            rest = d.rest
            seen = frozenset(d.seen) | rest.excluded

            def gen(it, name, rest=rest, seen=seen, what=what):
                k = z3.String(name + ".key")
                for s in sorted(seen):
                    it.path.assume(k != zstr(s))
                key = Sym(k)
                val = (rest.valgen or default_valgen)(it, name + ".val", None)
                return {"keys": key, "values": val, "items": (key, val)}[what]

            st = Star(f"{rest.src}.items", gen, None, False, "rest")
            st.rest = rest
            st.rest_what = what
            st.rest_seen = frozenset(d.seen)
            out.append(st)
        return out

    def items_of(self, v):
        segs = self.segments(v)
        if any(isinstance(s, Star) for s in segs):
            raise Unsupported("unbounded iterable where a finite one is needed")
        return segs

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, Sym) and v.kind == "str" or isinstance(v, str):
            raise Unsupported("unpacking a string")
        segs = self.segments(v)
        if any(isinstance(s, Star) for s in segs):
            lst = v
            out = []
            work = VList(list(lst.items))
            for _ in range(n):
                ok, x = self.first(work)
                if not ok:
                    self.throw(ValueError, "not enough values to unpack")
                out.append(x)
                work.items = work.items[1:]
            ok, _ = self.first(work)
            if ok:
                self.throw(ValueError, "too many values to unpack")
            return out
        if len(segs) != n:
            self.throw(ValueError, "wrong number of values to unpack")
        return segs

    def contains(self, container, x):
        """x in container -> bool (forking)."""
        c = self.force(container)
        if isinstance(c, Sym) and c.kind == "val":
            c = self.scalar(c)
        if isinstance(c, VDict):
            return self.dget(c, x)[0]
        if isinstance(c, (VList,)):
            self.expand(c)
            i = 0
            while i < len(c.items):
                y = c.items[i]
                if isinstance(y, Star):
                    xc = x
                    found = self.exists(
                        y, lambda it, e: it.path.decide(it.eq(Cloner()(xc), e)), "in"
                    )
                    if found:
                        self.expand(c)
                        # restart at the split parts; pre has no match, w has
                        continue
                    i += 1
                    continue
                if self.path.decide(self.eq(x, y)):
                    return True
                i += 1
            return False
        if isinstance(c, (tuple, VSet)):
            for y in c if isinstance(c, tuple) else c.items:
                if self.path.decide(self.eq(x, y)):
                    return True
            return False
        if isinstance(c, (str, Sym)):
            if isinstance(c, Sym) and c.kind != "str":
                self.throw(TypeError, "argument is not iterable")
            x = self.scalar(x)
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if self.kind_of(x) != "str":
                self.throw(TypeError, "'in <string>' requires string")
            return self.path.decide(z3.Contains(zs(c), zs(x)))
        if c is None:
            self.throw(TypeError, "argument of type 'NoneType' is not iterable")
        if isinstance(c, (set, frozenset, list, dict, types.MappingProxyType)):
            return self.contains(self.lift(c) if not isinstance(c, types.MappingProxyType) else self.lift(dict(c)), x)
        if isinstance(c, type) and issubclass(c, enum.Enum):
            return self.contains(tuple(c), x)
        if isinstance(c, Model) and hasattr(c, "contains"):
            return c.contains(self, x)
        if isinstance(c, VObj):
            m = self.lookup_class(c.cls, "__contains__")
            if m:
                return self.truth(self.call(m, [c, x], VDict()))
        raise Unsupported(f"in {type(c).__name__}")

    # ---- attributes -----------------------------------------------------
    def lookup_class(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def defining_class(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c
        return None

    def bind(self, m, obj, cls):
        if isinstance(m, staticmethod):
            return m.__func__
        if isinstance(m, classmethod):
            return BoundMethod(m.__func__, cls)
        if isinstance(m, (types.FunctionType, VFunc)):
            return BoundMethod(m, obj)
        return m

    def obj_has(self, o: VObj, name):
        if name in o.attrs:
            return True
        if o.univ is not None and o.name:
            if name in o.univ.common:
                return True
            cls = self.refine(o)
            for c, attrs in o.univ.classes:
                if c is cls:
                    if name in attrs:
                        return True
        cls = o.cls
        return self.lookup_class(cls, name) is not None

    def getattr(self, o, name, default=KeyError):
        o = self.force(o)
        if isinstance(o, VSuper):
            mro = (o.self_.cls if isinstance(o.self_, VObj) else o.self_).__mro__
            i = mro.index(o.defcls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    m = c.__dict__[name]
                    if isinstance(m, staticmethod):
                        return m.__func__
                    if isinstance(m, property):
                        return self.call(m.fget, [o.self_], VDict())
                    if isinstance(m, types.FunctionType):
                        return BoundMethod(m, o.self_)
                    return VMethod(o, name)
            raise Unsupported(f"super().{name}")
        if isinstance(o, VObj):
            if name in o.attrs:
                return o.attrs[name]
            if o.univ is not None and o.name:
                if name in o.univ.common:
                    v = o.univ.common[name](self, f"{o.name}.{name}")
                    o.attrs[name] = v
                    return v
                mc = self.eng.method_contracts.get(name)
                if mc is not None and mc.accepts(self, o):
                    return ContractMethod(mc, o)
                cls = self.refine(o)
                for c, attrs in o.univ.classes:
                    if c is cls and name in attrs:
                        v = attrs[name](self, f"{o.name}.{name}")
                        o.attrs[name] = v
                        return v
            cls = o.cls
            if name == "__class__":
                return cls
            if name == "__dict__":
                return self.vars_(o)
            m = self.lookup_class(cls, name)
            if m is None:
                if default is not KeyError:
                    return default
                self.throw(AttributeError, name)
            if isinstance(m, property):
                return self.call(m.fget, [o], VDict())
            if isinstance(m, (types.FunctionType, staticmethod, classmethod)):
                return self.bind(m, o, cls)
            if isinstance(m, types.MemberDescriptorType):
                self.throw(AttributeError, name)
            if hasattr(m, "func") and type(m).__name__ == "cached_property":
                v = self.call(m.func, [o], VDict())
                o.attrs[name] = v
                return v
            return self.lift(m)
        if isinstance(o, Model):
            return o.getattr(self, name)
        if isinstance(o, enum.Enum) and not isinstance(o, str):
            return self.lift(getattr(o, name))
        if isinstance(o, (VList, VDict, VSet, Sym, str, bytes, tuple)) and not isinstance(o, enum.Enum):
            if type(o) is not tuple and isinstance(o, tuple):
                return self.lift(getattr(o, name))
            if isinstance(o, Sym) and o.kind == "val":
                o = self.scalar(o)
                if not isinstance(o, (Sym, str)):
                    return self.getattr(o, name, default)
            pyt = {VList: list, VDict: dict, VSet: set}.get(type(o))
            if pyt is None:
                pyt = type(o) if not isinstance(o, Sym) else {"int": int, "str": str, "bool": bool}[o.kind]
            if name == "__class__":
                return pyt
            if not hasattr(pyt, name):
                if default is not KeyError:
                    return default
                self.throw(AttributeError, name)
            return VMethod(o, name)
        if isinstance(o, BoundMethod):
            return getattr(o.func, name)
        if isinstance(o, (Opaque, VRatio)):
            raise Unsupported(f"attribute {name} of an opaque value")
        if isinstance(o, VMethod) and name == "__name__":
            return o.name
        if isinstance(o, types.ModuleType):
            gm = self.eng.global_models.get((o.__name__, name))
            if gm is not None:
                return gm
        if isinstance(o, type):
            m = self.lookup_class(o, name)
            if isinstance(m, (types.FunctionType,)):
                return m
            if isinstance(m, staticmethod):
                return m.__func__
            if isinstance(m, classmethod):
                return BoundMethod(m.__func__, o)
        if not isinstance(o, (type, types.ModuleType)):
            m = getattr(type(o), name, None)
            if isinstance(m, property) and m.fget in self.eng.models:
                return self.call(m.fget, [o], VDict())
        try:
            return self.lift(getattr(o, name))
        except AttributeError as e:
            if default is not KeyError:
                return default
            self.throw(AttributeError, str(e))

    def setattr(self, o, name, value):
        o = self.force(o)
        if isinstance(o, VObj):
            if o.cls is not None and o.name is None:
                m = self.lookup_class(o.cls, name)
                if isinstance(m, property) and m.fset:
                    return self.call(m.fset, [o, value], VDict())
                sa = self.lookup_class(o.cls, "__setattr__")
                if isinstance(sa, types.FunctionType) and dataclasses.is_dataclass(o.cls):
                    self.throw(dataclasses.FrozenInstanceError, name)
            o.attrs[name] = value
            o.dirty = True
            return
        if isinstance(o, Model):
            f = getattr(o, "s_" + name, None)
            if f:
                return f(self, value)
        raise Unsupported(f"attribute store on {type(o).__name__}")

    def vars_(self, o: VObj):
        o = self.force(o)
        if not isinstance(o, VObj):
            raise Unsupported("vars()")
        if o.univ is not None and o.name:
            cls = self.refine(o)
            order = list(o.univ.common)
            for c, attrs in o.univ.classes:
                if c is cls:
                    order += [a for a in attrs if a not in order]
            for a in order:
                self.getattr(o, a)
        d = VDict(dict(o.attrs))
        d.frozen = True
        return d

    # ---- subscripts -----------------------------------------------------
    def getitem(self, o, k):
        o = self.force(o)
        if isinstance(o, Sym) and o.kind == "val":
            o = self.scalar(o)
        if isinstance(o, VDict):
            ok, v = self.dget(o, k)
            if not ok:
                self.throw(KeyError, k)
            return v
        if isinstance(o, (VList, tuple)):
            k = self.scalar(k)
            if isinstance(k, slice):
                return self.slice(o, k)
            items = list(o) if isinstance(o, tuple) else self.expand(o).items
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if not any(isinstance(x, Star) for x in items):
                    if -len(items) <= k < len(items):
                        return items[k]
                    self.throw(IndexError, "index out of range")
                if k >= 0:
                    work = VList(list(items))
                    for i in range(k + 1):
                        ok, x = self.first(work)
                        if not ok:
                            self.throw(IndexError, "index out of range")
                        work.items = work.items[1:]
                    return x
                raise Unsupported("negative index into an unbounded list")
            if isinstance(k, Sym):
                if any(isinstance(x, Star) for x in items):
                    raise Unsupported("symbolic index into an unbounded list")
                for i, x in enumerate(items):
                    if self.path.decide(z3.Or(k.t == i, k.t == i - len(items))):
                        return x
                self.throw(IndexError, "index out of range")
            self.throw(TypeError, "list indices must be integers")
        if isinstance(o, (str, Sym)):
            k = self.scalar(k) if not isinstance(k, slice) else k
            if isinstance(o, str) and isinstance(k, (int,)):
                if -len(o) <= k < len(o):
                    return o[k]
                self.throw(IndexError, "string index out of range")
            if isinstance(k, slice):
                return self.slice(o, k)
            if isinstance(o, Sym) and o.kind != "str":
                self.throw(TypeError, "object is not subscriptable")
            if isinstance(o, Sym) and isinstance(k, int):
                n = z3.Length(o.t)
                idx = z3.IntVal(k) if k >= 0 else n + k
                if not self.path.decide(z3.And(idx >= 0, idx < n)):
                    self.throw(IndexError, "string index out of range")
                return mk(z3.SubString(o.t, idx, 1))
            if not isinstance(k, (int, Sym)):
                self.throw(TypeError, "string indices must be integers")
            raise Unsupported("symbolic string index")
        if o is None:
            self.throw(TypeError, "'NoneType' object is not subscriptable")
        if isinstance(o, VObj):
            cls = self.refine(o) if o.cls is None else o.cls
            m = self.lookup_class(cls, "__getitem__")
            if m is None:
                self.throw(TypeError, "object is not subscriptable")
            return self.call(m, [o, k], VDict())
        if isinstance(o, Model):
            if hasattr(o, "getitem"):
                return o.getitem(self, k)
            raise Unsupported(f"subscript of {type(o).__name__}")
        if isinstance(o, (bool, int, float)):
            self.throw(TypeError, "object is not subscriptable")
        if isinstance(o, Opaque):
            raise Unsupported("subscript of an opaque value")
        try:
            kk = self.concrete(k)
            return self.lift(o[kk])
        except (KeyError, IndexError, TypeError, ValueError) as e:
            self.throw(type(e), *e.args)

    def slice(self, o, k):
        lo, hi, st = k.start, k.stop, k.step
        lo, hi, st = [self.scalar(x) for x in (lo, hi, st)]
        if isinstance(o, (tuple, VList)):
            items = list(o) if isinstance(o, tuple) else self.expand(o).items
            if any(isinstance(x, Star) for x in items):
                if hi is None and st is None and (lo is None or isinstance(lo, int) and lo >= 0):
                    work = VList(list(items))
                    for _ in range(lo or 0):
                        ok, _x = self.first(work)
                        if not ok:
                            break
                        work.items = work.items[1:]
                    return VList(work.items)
                raise Unsupported("slice of an unbounded list")
            if any(isinstance(x, Sym) for x in (lo, hi, st)):
                raise Unsupported("symbolic slice")
            r = items[lo:hi:st]
            return tuple(r) if isinstance(o, tuple) else VList(r)
        if isinstance(o, str) and not any(isinstance(x, Sym) for x in (lo, hi, st)):
            return o[lo:hi:st]
        if st not in (None, 1):
            raise Unsupported("string slice step")
        s = zs(o)
        if hi is None and isinstance(lo, Sym):
            # drop a prefix of known length
            ps, todo = [], [s]
            while todo:
                x = todo.pop(0)
                if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT):
                    todo = x.children() + todo
                else:
                    ps.append(x)
            left = z3.simplify(lo.t)
            while ps:
                c = ps[0]
                d = z3.simplify(left - z3.Length(c))
                if z3.is_int_value(z3.simplify(left)):
                    k = z3.simplify(left).as_long()
                    if z3.is_string_value(c) and 0 < k:
                        w = zstr_value(c)
                        if k >= len(w):
                            left, ps = z3.IntVal(k - len(w)), ps[1:]
                            continue
                        ps[0] = zstr(w[k:])
                        left = z3.IntVal(0)
                    break
                if z3.is_string_value(c):
                    break
                left, ps = d, ps[1:]
            if z3.is_int_value(left) and left.as_long() == 0:
                return mk(ps[0] if len(ps) == 1 else z3.Concat(*ps)) if ps else ""
        n = z3.Length(s)

        def norm(x, dflt):
            if x is None:
                return dflt
            x = zint(x)
            x = z3.If(x < 0, z3.If(n + x < 0, 0, n + x), x)
            return z3.If(x > n, n, x)

        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        return mk(z3.If(b > a, z3.SubString(s, a, b - a), z3.StringVal("")))

    def setitem(self, o, k, v):
        o = self.force(o)
        if isinstance(o, VDict):
            if getattr(o, "frozen", False):
                raise Unsupported("store into vars()")
            return self.dset(o, k, v)
        if isinstance(o, VList):
            k = self.scalar(k)
            if isinstance(k, int) and not o.has_star:
                if -len(o.items) <= k < len(o.items):
                    o.items[k] = v
                    o.dirty = True
                    return
                self.throw(IndexError, "assignment index out of range")
            raise Unsupported("list store")
        if isinstance(o, Model) and hasattr(o, "setitem"):
            return o.setitem(self, k, v)
        raise Unsupported(f"subscript store on {type(o).__name__}")

    # ---- functions ------------------------------------------------------
    def call(self, f, args, kw=None):
        kw = kw if kw is not None else VDict()
        f = self.force(f)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, VFunc):
            return self.call_vfunc(f, args, kw)
        if isinstance(f, ModelMethod):
            return f(self, list(args), kw)
        if isinstance(f, Model):
            return f.call(self, list(args), kw)
        if isinstance(f, VMethod):
            from .builtins_ import call_method

            return call_method(self, f.obj, f.name, list(args), kw)
        if isinstance(f, types.FunctionType):
            c = self.eng.contracts.get(f)
            if c is not None:
                r = c.apply(self, f, list(args), kw)
                if r is not NotImplemented:
                    return r
            h = self.eng.models.get(f)
            if h is not None:
                return h(self, list(args), kw)
            w = getattr(f, "__wrapped__", None)
            if verified_module(f.__module__) or (
                w is not None and verified_module(getattr(w, "__module__", None))
            ):
                if w is not None:
                    if f.__code__.co_filename.endswith("contextlib.py"):
                        return Gen(w, list(args), kw)
                    return self.call(w, args, kw)
                return self.call_pyfunc(f, args, kw)
            return self.native(f, args, kw)
        if isinstance(f, type):
            return self.construct(f, list(args), kw)
        if isinstance(f, VObj):
            cls = f.cls
            m = self.lookup_class(cls, "__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw)
            self.throw(TypeError, "object is not callable")
        if isinstance(f, (staticmethod,)):
            return self.call(f.__func__, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [self.lift(f.__self__)] + list(args), kw)
        if f is None or isinstance(f, SCALARS):
            self.throw(TypeError, "object is not callable")
        try:
            h = self.eng.models.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, list(args), kw)
        from .builtins_ import BUILTINS

        try:
            h = BUILTINS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, list(args), kw)
        return self.native(f, args, kw)

    def native(self, f, args, kw):
        from .builtins_ import BUILTINS

        try:
            h = self.eng.models.get(f) or BUILTINS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, list(args), kw)
        mod = getattr(f, "__module__", None) or getattr(
            getattr(f, "__objclass__", None), "__module__", None
        )
        slf = getattr(f, "__self__", None)
        if slf is not None and not isinstance(slf, types.ModuleType):
            mod = type(slf).__module__
        if mod not in NATIVE_OK_MODULES and not isinstance(f, functools_lru):
            raise Unsupported(f"call of {getattr(f, '__qualname__', f)} (module {mod})")
        a = [self.concrete(x) for x in args]
        k = {n: self.concrete(x) for n, x in kw.entries.items()}
        if kw.rest is not None or kw.dyn:
            raise Unsupported("open keyword arguments to native code")
        try:
            return self.lift(f(*a, **k))
        except (Unsupported, EngineError):
            raise
        except Exception as e:
            self.throw(type(e), *[x for x in e.args if isinstance(x, SCALARS)])

    def construct(self, cls, args, kw):
        h = self.eng.models.get(cls)
        if h is not None:
            return h(self, args, kw)
        from .builtins_ import BUILTINS

        if cls in BUILTINS:
            return BUILTINS[cls](self, args, kw)
        if issubclass(cls, BaseException):
            if isinstance(cls.__init__, types.FunctionType) and verified_module(cls.__module__):
                raise Unsupported("exception class with its own constructor")
            e = VExc(cls, args)
            for k, v in kw.entries.items():
                e.attrs[k] = v
            return e
        if is_vclass(cls):
            if getattr(cls, "__abstractmethods__", None):
                self.throw(TypeError, "abstract class")
            o = VObj(cls)
            init = self.lookup_class(cls, "__init__")
            if isinstance(init, types.FunctionType) and not init.__code__.co_filename.startswith("<"):
                self.call(init, [o] + args, kw)
                return o
            if dataclasses.is_dataclass(cls):
                return self.construct_dataclass(cls, o, args, kw)
            if init is object.__init__ or init is None or not isinstance(init, types.FunctionType):
                if args or kw.entries:
                    self.throw(TypeError, f"{cls.__name__}() takes no arguments")
                return o
            raise Unsupported(f"constructor of {cls}")
        if issubclass(cls, enum.Enum):
            v = self.scalar(args[0])
            if isinstance(v, Sym):
                for m in cls:
                    if self.path.decide(self.eq(v, m.value)):
                        return m
                self.throw(ValueError, "not a valid enum value")
        return self.native(cls, args, kw)

    def construct_dataclass(self, cls, o, args, kw):
        args = list(args)
        given = dict(kw.entries)
        if kw.rest is not None:
            raise Unsupported("open keyword arguments to a dataclass")
        for f in dataclasses.fields(cls):
            if not f.init:
                continue
            if args and not f.kw_only:
                if f.name in given:
                    self.throw(TypeError, f"multiple values for argument '{f.name}'")
                o.attrs[f.name] = args.pop(0)
            elif f.name in given:
                o.attrs[f.name] = given.pop(f.name)
            elif f.default is not dataclasses.MISSING:
                o.attrs[f.name] = self.lift(f.default)
            elif f.default_factory is not dataclasses.MISSING:
                o.attrs[f.name] = self.call(f.default_factory, [], VDict())
            else:
                self.throw(TypeError, f"missing argument '{f.name}'")
        if args or given:
            self.throw(TypeError, "unexpected arguments")
        post = self.lookup_class(cls, "__post_init__")
        if post is not None:
            self.call(post, [o], VDict())
        return o

    def bind_params(self, a: ast.arguments, frame, args, kw, defaults, kwdefaults, fname):
        params = [p.arg for p in a.posonlyargs + a.args]
        npos = len(params)
        args = list(args)
        kwc = self.dcopy(kw)
        loc = frame.locals
        if len(args) > npos:
            if a.vararg is None:
                self.throw(TypeError, f"{fname}() takes {npos} positional arguments")
            loc[a.vararg.arg] = tuple(args[npos:])
            args = args[:npos]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for p, v in zip(params, args):
            loc[p] = v
            if p in kwc.entries:
                self.throw(TypeError, f"{fname}() got multiple values for argument '{p}'")
            if kwc.rest is not None:
                ok, _ = self.dget(kwc, p)
                if ok:
                    self.throw(TypeError, f"{fname}() got multiple values for argument '{p}'")
        dstart = npos - len(defaults)
        for i in range(len(args), npos):
            p = params[i]
            ok, v = self.dget(kwc, p)
            if ok:
                loc[p] = v
                del kwc.entries[p]
            elif i >= dstart:
                loc[p] = defaults[i - dstart]
            else:
                self.throw(TypeError, f"{fname}() missing required argument: '{p}'")
        for p in a.kwonlyargs:
            ok, v = self.dget(kwc, p.arg)
            if ok:
                loc[p.arg] = v
                del kwc.entries[p.arg]
            elif p.arg in kwdefaults:
                loc[p.arg] = kwdefaults[p.arg]
            else:
                self.throw(TypeError, f"{fname}() missing keyword argument: '{p.arg}'")
        if a.kwarg is not None:
            if kwc.rest is not None:
                kwc.rest = Rest(kwc.rest.src, kwc.rest.valgen, kwc.rest.excluded)
            kwc.dirty = False
            loc[a.kwarg.arg] = kwc
        else:
            if kwc.entries or kwc.dyn:
                self.throw(TypeError, f"{fname}() got an unexpected keyword argument")
            if kwc.rest is not None:
                n = self.rest_count(kwc)
                if self.path.decide(n > 0):
                    self.throw(TypeError, f"{fname}() got an unexpected keyword argument")

    def call_pyfunc(self, f, args, kw):
        node = func_node(f)
        if not f.__module__.startswith("contracts") and not f.__module__ == "speclib":
            self.eng.functions.add(f"{f.__module__}.{f.__qualname__}")
        frame = Frame(f.__globals__, None, f)
        if f.__closure__:
            cells = Frame(f.__globals__)
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    if n == "__class__":
                        frame.defcls = c.cell_contents
                    cells.locals[n] = self.lift(c.cell_contents)
                except ValueError:
                    pass
            frame.parent = cells
        defaults = [self.lift(x) for x in (f.__defaults__ or ())]
        kwdefaults = {k: self.lift(x) for k, x in (f.__kwdefaults__ or {}).items()}
        self.bind_params(node.args, frame, args, kw, defaults, kwdefaults, f.__name__)
        return self.run_body(node, frame)

    def call_vfunc(self, f: VFunc, args, kw):
        frame = Frame(f.frame.globals, f.frame)
        self.bind_params(f.node.args, frame, args, kw, f.defaults, f.kwdefaults, f.__name__)
        return self.run_body(f.node, frame)

    def run_body(self, node, frame):
        self.depth += 1
        if self.depth > self.eng.max_depth:
            self.depth -= 1
            raise Unsupported("recursion too deep (no contract applies)")
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, frame)
            if frame.yields is None and frame.cont is None and is_generator(node):
                frame.yields = VList()
            self.exec_block(node.body, frame)
            if frame.yields is not None:
                return frame.yields
            return None
        except ReturnSig as r:
            if frame.yields is not None:
                return frame.yields
            return r.value
        finally:
            self.depth -= 1

    # ---- statements -----------------------------------------------------
    def exec_block(self, stmts, frame):
        for s in stmts:
            self.exec(s, frame)

    def exec(self, s, frame):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, frame)

    def s_Expr(self, s, f):
        self.eval(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Return(self, s, f):
        raise ReturnSig(self.eval(s.value, f) if s.value is not None else None)

    def s_Break(self, s, f):
        raise BreakSig()

    def s_Continue(self, s, f):
        raise ContinueSig()

    def s_Import(self, s, f):
        import importlib

        for a in s.names:
            mod = importlib.import_module(a.name)
            if a.asname:
                f.locals[a.asname] = mod
            else:
                f.locals[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, s, f):
        import importlib

        mod = importlib.import_module(s.module)
        for a in s.names:
            gm = self.eng.global_models.get((s.module, a.name))
            f.locals[a.asname or a.name] = gm if gm is not None else self.lift(getattr(mod, a.name))

    def s_Global(self, s, f):
        f.globalnames |= set(s.names)

    def s_Nonlocal(self, s, f):
        f.nonlocals |= set(s.names)

    def s_FunctionDef(self, s, f):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        fn = VFunc(
            s,
            f,
            [self.eval(d, f) for d in s.args.defaults],
            {
                k.arg: self.eval(d, f)
                for k, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
                if d is not None
            },
            s.name,
        )
        f.locals[s.name] = fn

    s_AsyncFunctionDef = s_FunctionDef

    def s_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            k = self.eval(t.slice, f)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.items_of(v)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, f)
                self.assign(t.elts[i].value, VList(items[i:len(items) - after]), f)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, f)
            else:
                for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                    self.assign(e, x, f)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def store_name(self, name, v, f):
        if name in f.globalnames:
            raise Unsupported("global assignment")
        if name in f.nonlocals:
            p = f.parent
            while p is not None:
                if name in p.locals:
                    p.locals[name] = v
                    return
                p = p.parent
        f.locals[name] = v

    def s_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, f)
            self.store_name(t.id, self.inplace(s.op, cur, self.eval(s.value, f)), f)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, f)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, cur, self.eval(s.value, f)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            k = self.eval(t.slice, f)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, cur, self.eval(s.value, f)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        a = self.force(a)
        if isinstance(op, ast.Add) and isinstance(a, VList):
            a.items = a.items + self.segments(b)
            a.dirty = True
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, VDict):
            if getattr(a, "frozen", False):
                raise Unsupported("store into vars()")
            b = self.force(b)
            if isinstance(b, (str, Sym)) or b is None:
                raise PyExc(VExc(ValueError if isinstance(b, (str, Sym)) else TypeError, ("update",)))
            self.dict_update(a, b)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, VSet):
            for x in self.items_of(b):
                if not self.contains(a, x):
                    a.items.append(x)
            return a
        return self.binop(op, a, b)

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in f.locals:
                    self.throw(NameError, t.id)
                del f.locals[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.force(self.eval(t.value, f))
                k = self.eval(t.slice, f)
                if isinstance(o, VDict):
                    ok, _ = self.dget(o, k)
                    if not ok:
                        self.throw(KeyError, k)
                    self.ddel(o, k)
                elif isinstance(o, VList) and not o.has_star:
                    k = self.scalar(k)
                    try:
                        del o.items[k]
                        o.dirty = True
                    except IndexError:
                        self.throw(IndexError, "index")
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                o = self.force(self.eval(t.value, f))
                if not isinstance(o, VObj) or t.attr not in o.attrs:
                    raise Unsupported("del attribute")
                del o.attrs[t.attr]
                o.dirty = True
            else:
                raise Unsupported("del")

    def s_Assert(self, s, f):
        if not self.truth(self.eval(s.test, f)):
            raise PyExc(VExc(AssertionError, ()))

    def s_Raise(self, s, f):
        if s.exc is None:
            cur = self.lookup_exc(f)
            if cur is None:
                self.throw(RuntimeError, "No active exception to reraise")
            raise PyExc(cur)
        e = self.force(self.eval(s.exc, f))
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.construct(e, [], VDict())
        if not isinstance(e, VExc):
            if isinstance(e, BaseException):
                e = VExc(type(e), e.args)
            else:
                self.throw(TypeError, "exceptions must derive from BaseException")
        raise PyExc(e)

    def lookup_exc(self, f):
        while f is not None:
            if "$exc" in f.locals:
                return f.locals["$exc"]
            f = f.parent
        return None

    def s_If(self, s, f):
        self.exec_block(s.body if self.truth(self.eval(s.test, f)) else s.orelse, f)

    def s_While(self, s, f):
        n = 0
        while True:
            if not self.truth(self.eval(s.test, f)):
                self.exec_block(s.orelse, f)
                return
            n += 1
            if n > 50:
                raise Unsupported("while loop without a bound")
            try:
                self.exec_block(s.body, f)
            except BreakSig:
                return
            except ContinueSig:
                continue

    def s_For(self, s, f):
        it = self.eval(s.iter, f)

        def run(interp, frame, elem):
            interp.assign(s.target, elem, frame)
            try:
                interp.exec_block(s.body, frame)
            except ContinueSig:
                pass

        try:
            self.loop(it, f, run)
        except BreakSig:
            return
        self.exec_block(s.orelse, f)

    s_AsyncFor = s_For

    def s_Try(self, s, f):
        try:
            try:
                self.exec_block(s.body, f)
            except PyExc as e:
                for h in s.handlers:
                    if self.exc_matches(e.exc, h.type, f):
                        saved = f.locals.get("$exc")
                        f.locals["$exc"] = e.exc
                        if h.name:
                            f.locals[h.name] = e.exc
                        try:
                            self.exec_block(h.body, f)
                        finally:
                            if saved is None:
                                f.locals.pop("$exc", None)
                            else:
                                f.locals["$exc"] = saved
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, f)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.exec_block(s.finalbody, f)
            raise
        else:
            self.exec_block(s.finalbody, f)

    def exc_matches(self, exc, tnode, f):
        if tnode is None:
            return True
        t = self.force(self.eval(tnode, f))
        ts = t if isinstance(t, tuple) else (t,)
        if exc.cls is OpaqueExc:
            if any(c in (Exception, BaseException) for c in ts):
                return True
            raise Unsupported("handler for an exception of unknown class")
        return any(issubclass(exc.cls, c) for c in ts)

    def s_With(self, s, f):
        self.with_items(list(s.items), s.body, f)

    s_AsyncWith = s_With

    def with_items(self, items, body, f):
        if not items:
            self.exec_block(body, f)
            return
        item, rest = items[0], items[1:]
        cm = self.force(self.eval(item.context_expr, f))
        if isinstance(cm, Gen):
            # inline the generator function around the body
            sig = []

            def cont(value):
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, value, f)
                try:
                    self.with_items(rest, body, f)
                except (ReturnSig, BreakSig, ContinueSig) as e:
                    sig.append(e)
                return None

            self.call_cm(cm, cont)
            if sig:
                raise sig[0]
            return
        if isinstance(cm, Model):
            v = cm.enter(self)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, f)
            try:
                self.with_items(rest, body, f)
            except PyExc as e:
                if cm.exit(self, e.exc):
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                cm.exit(self, None)
                raise
            else:
                cm.exit(self, None)
            return
        if isinstance(cm, VObj):
            enter = self.getattr(cm, "__enter__")
            v = self.call(enter, [])
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, f)
            ex = self.getattr(cm, "__exit__")
            try:
                self.with_items(rest, body, f)
            except PyExc as e:
                if self.truth(self.call(ex, [e.exc.cls, e.exc, None])):
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(ex, [None, None, None])
                raise
            else:
                self.call(ex, [None, None, None])
            return
        raise Unsupported(f"with {type(cm).__name__}")

    def call_cm(self, cm: Gen, cont):
        fn = cm.fn
        node = func_node(fn)
        self.eng.functions.add(f"{fn.__module__}.{fn.__qualname__}")
        frame = Frame(fn.__globals__, None, fn)
        frame.cont = cont
        defaults = [self.lift(x) for x in (fn.__defaults__ or ())]
        kwdefaults = {k: self.lift(x) for k, x in (fn.__kwdefaults__ or {}).items()}
        self.bind_params(node.args, frame, cm.args, cm.kw, defaults, kwdefaults, fn.__name__)
        self.depth += 1
        try:
            self.exec_block(node.body, frame)
        except ReturnSig:
            pass
        finally:
            self.depth -= 1

    def s_Match(self, s, f):
        subj = self.eval(s.subject, f)
        for case in s.cases:
            binds = {}
            if self.match(case.pattern, subj, f, binds):
                for k, v in binds.items():
                    self.store_name(k, v, f)
                if case.guard is None or self.truth(self.eval(case.guard, f)):
                    self.exec_block(case.body, f)
                    return

    def match(self, p, v, f, b):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, f, b):
                return False
            if p.name is not None:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchValue):
            return self.path.decide(self.eq(v, self.eval(p.value, f)))
        if isinstance(p, ast.MatchSingleton):
            return self.path.decide(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            if all(isinstance(q, ast.MatchValue) for q in p.patterns):
                fs = [self.eq(v, self.eval(q.value, f)) for q in p.patterns]
                fs = [x.t if isinstance(x, Sym) else x for x in fs]
                if any(x is True for x in fs):
                    return True
                fs = [x for x in fs if x is not False]
                return self.path.decide(z3.Or(fs) if len(fs) > 1 else fs[0]) if fs else False
            for q in p.patterns:
                b2 = {}
                if self.match(q, v, f, b2):
                    b.update(b2)
                    return True
            return False
        if isinstance(p, ast.MatchClass):
            cls = self.force(self.eval(p.cls, f))
            if not self.path.decide(self.isinstance_(v, cls)):
                return False
            if p.patterns:
                if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
                    if len(p.patterns) != 1:
                        self.throw(TypeError, "class pattern")
                    v2 = self.force(v)
                    if isinstance(v2, Sym) and v2.kind == "val" and cls in (int, str, bool):
                        v2 = self.scalar(v2)
                    if not self.match(p.patterns[0], v2, f, b):
                        return False
                else:
                    names = getattr(cls, "__match_args__", ())
                    if len(p.patterns) > len(names):
                        self.throw(TypeError, "class pattern")
                    for n, q in zip(names, p.patterns):
                        a = self.match_attr(v, n)
                        if a is NotImplemented or not self.match(q, a, f, b):
                            return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                a = self.match_attr(v, n)
                if a is NotImplemented or not self.match(q, a, f, b):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            v = self.force(v)
            if not isinstance(v, VDict):
                if isinstance(v, Sym) and v.kind == "val":
                    if self.path.decide(self.isinstance_(v, dict)):
                        raise Unsupported("mapping pattern on an opaque value")
                elif isinstance(v, (Model, Opaque)):
                    raise Unsupported("mapping pattern on a model")
                return False
            keys = []
            vals = []
            for kn in p.keys:
                k = self.eval(kn, f)
                ok, x = self.dget(v, k)
                if not ok:
                    return False
                keys.append(k)
                vals.append(x)
            for q, x in zip(p.patterns, vals):
                if not self.match(q, x, f, b):
                    return False
            if p.rest:
                r = self.dcopy(v)
                for k in keys:
                    self.ddel(r, k)
                b[p.rest] = r
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.force(v)
            if isinstance(v, Sym) and v.kind == "val":
                if self.path.decide(z3.Or(self.isinstance_(v, list), self.isinstance_(v, tuple))):
                    raise Unsupported("sequence pattern on an opaque value")
                return False
            if not isinstance(v, (VList, tuple)):
                if isinstance(v, (Model, Opaque)):
                    raise Unsupported("sequence pattern on a model")
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            items = list(v) if isinstance(v, tuple) else list(self.expand(v).items)
            if any(isinstance(x, Star) for x in items):
                work = VList(items)
                npre = star[0] if star else len(p.patterns)
                if star and star[0] != len(p.patterns) - 1:
                    raise Unsupported("sequence pattern with a suffix on an unbounded list")
                got = []
                for _ in range(npre):
                    ok, x = self.first(work)
                    if not ok:
                        return False
                    got.append(x)
                    work.items = work.items[1:]
                if not star:
                    ok, _ = self.first(work)
                    if ok:
                        return False
                for q, x in zip(p.patterns[:npre], got):
                    if not self.match(q, x, f, b):
                        return False
                if star and p.patterns[-1].name:
                    b[p.patterns[-1].name] = VList(work.items)
                return True
            if not star:
                if len(items) != len(p.patterns):
                    return False
                return all(self.match(q, x, f, b) for q, x in zip(p.patterns, items))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(items) < len(p.patterns) - 1:
                return False
            for q, x in zip(p.patterns[:i], items[:i]):
                if not self.match(q, x, f, b):
                    return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = VList(items[i:len(items) - after])
            for q, x in zip(p.patterns[i + 1:], items[len(items) - after:]):
                if not self.match(q, x, f, b):
                    return False
            return True
        raise Unsupported(f"pattern {type(p).__name__}")

    def match_attr(self, v, n):
        try:
            return self.getattr(v, n)
        except PyExc as e:
            if e.exc.cls is AttributeError:
                return NotImplemented
            raise

    # ---- loops ----------------------------------------------------------
    def loop(self, iterable, frame, run):
        """for each element of the iterable: run(interp, frame, element)."""
        it = self.force(iterable)
        work = self.segments(it)
        guard = 0
        while work:
            x = work.pop(0)
            if isinstance(x, Star):
                if x.src in self.path.pending and x.src not in self.path.open:
                    self.path.settle(x.src)
                if x.src in self.path.splits:
                    work = self.split_parts(x) + work
                    continue
                if x.src in self.path.empty_sources():
                    continue
                guard += 1
                if guard > 12:
                    raise Unsupported("loop summary does not converge")
                if self.summarise(x, frame, run) == "split":
                    work = [x] + work
                continue
            run(self, frame, x)

    def summarise(self, star, frame, run):
        from .loops import summarise

        return summarise(self, star, frame, run)

    # ---- expressions ----------------------------------------------------
    def eval(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, f)

    def e_Constant(self, e, f):
        return e.value

    def e_Name(self, e, f):
        return self.load_name(e.id, f)

    def load_name(self, name, f):
        fr = f
        while fr is not None:
            if name in fr.locals:
                v = fr.locals[name]
                if isinstance(v, Havoc):
                    raise Unsupported(f"read of {v.name}, which a summarised loop wrote")
                return v
            fr = fr.parent
        g = f.globals
        gm = self.eng.global_models.get((g.get("__name__"), name))
        if gm is not None:
            return gm
        if name in g:
            return self.lift(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError, name)

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        # a walrus in a comprehension binds in the enclosing function
        fr = f
        while getattr(fr, "is_comp", False):
            fr = fr.parent
        fr.locals[e.target.id] = v
        return v

    def e_Attribute(self, e, f):
        return self.getattr(self.eval(e.value, f), e.attr)

    def e_Subscript(self, e, f):
        o = self.eval(e.value, f)
        k = self.eval(e.slice, f)
        return self.getitem(o, k)

    def e_Slice(self, e, f):
        return slice(
            self.eval(e.lower, f) if e.lower else None,
            self.eval(e.upper, f) if e.upper else None,
            self.eval(e.step, f) if e.step else None,
        )

    def e_Tuple(self, e, f):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items_of(self.eval(x.value, f)))
            else:
                out.append(self.eval(x, f))
        return tuple(out)

    def e_List(self, e, f):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.segments(self.eval(x.value, f)))
            else:
                out.append(self.eval(x, f))
        return VList(out)

    def e_Set(self, e, f):
        s = VSet()
        for x in e.elts:
            v = self.eval(x, f)
            if not self.contains(s, v):
                s.items.append(v)
        return s

    def e_Dict(self, e, f):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, f))
            else:
                kk = self.eval(k, f)
                self.dset(d, kk, self.eval(v, f))
        d.dirty = False
        return d

    def e_IfExp(self, e, f):
        return self.eval(e.body if self.truth(self.eval(e.test, f)) else e.orelse, f)

    def e_BoolOp(self, e, f):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, f)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return self.falsy(v)
            if not is_and and t:
                return v
        return v

    def falsy(self, v):
        return v

    def e_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        if isinstance(e.op, ast.Not):
            t = self.truth_formula(v)
            return (not t) if isinstance(t, bool) else mk(z3.Not(t))
        v = self.scalar(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Sym):
                return mk(-self.as_int(v))
            if isinstance(v, VRatio):
                return VRatio(mk(-self.as_int(v.num)), v.den)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, int):
            return ~v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, f):
        return self.binop(e.op, self.eval(e.left, f), self.eval(e.right, f))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, (ast.BitAnd, ast.Sub)):
            sa, sb = self.set_part(a), self.set_part(b)
            if sa is not None and sb is not None:
                if isinstance(op, ast.BitAnd) and any(isinstance(x, Star) for x in sa[0]):
                    sa, sb = sb, sa
                if any(isinstance(x, Star) for x in sa[0]):
                    raise Unsupported("operation on unbounded sets")
                return VSet([x for x in sa[0] if self.contains(sb[1], x) == isinstance(op, ast.BitAnd)])
        if isinstance(op, ast.BitOr):
            if isinstance(a, VDict) and isinstance(b, VDict):
                c = self.dcopy(a)
                self.dict_update(c, b)
                c.dirty = False
                return c
            if isinstance(a, VSet) and isinstance(b, VSet):
                c = VSet(list(a.items))
                for x in b.items:
                    if not self.contains(c, x):
                        c.items.append(x)
                return c
            if isinstance(a, type) or isinstance(b, type):
                return a | b
            if isinstance(a, Model) and hasattr(a, "bitor"):
                return a.bitor(self, b)
        if isinstance(op, ast.MatMult):
            for x, y, nm in ((a, b, "matmul"), (b, a, "rmatmul")):
                if isinstance(x, Model) and hasattr(x, nm):
                    return getattr(x, nm)(self, y)
        if isinstance(op, ast.Add):
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(self.expand(a).items + self.expand(b).items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(op, ast.Mod) and isinstance(a, str) and not isinstance(b, Sym):
            try:
                return a % self.concrete(b)
            except Unsupported:
                return self.opaque_str("fmt", a, b)
        if isinstance(op, ast.Div) and isinstance(a, Model) and hasattr(a, "truediv"):
            return a.truediv(self, b)
        a, b = self.scalar(a), self.scalar(b)
        if isinstance(op, ast.Mult) and isinstance(a, VList) and isinstance(b, int):
            return VList(a.items * b)
        if isinstance(a, (VList, VDict, VObj, VSet, Opaque, Model)) or isinstance(
            b, (VList, VDict, VObj, VSet, Opaque, Model)
        ):
            if isinstance(a, (Opaque, Model, VObj)) or isinstance(b, (Opaque, Model, VObj)):
                raise Unsupported("operator on an object")
            self.throw(TypeError, "unsupported operand types")
        if not isinstance(a, (Sym, VRatio)) and not isinstance(b, (Sym, VRatio)):
            try:
                return self.lift(_native_bin(op, a, b))
            except Exception as ex:
                self.throw(type(ex), *[x for x in ex.args if isinstance(x, SCALARS)])
        ka, kb = self.kind_of(a), self.kind_of(b)
        if isinstance(op, ast.Add) and (ka == "str" or kb == "str"):
            if ka == kb:
                return mk(z3.Concat(zs(a), zs(b)))
            self.throw(TypeError, "can only concatenate str")
        num = ("int", "bool")
        if ka in num and kb in num:
            x, y = self.as_int(a), self.as_int(b)
            if isinstance(op, ast.Add):
                return mk(x + y)
            if isinstance(op, ast.Sub):
                return mk(x - y)
            if isinstance(op, ast.Mult):
                return mk(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if self.path.decide(y == 0):
                    self.throw(ZeroDivisionError, "division by zero")
                if isinstance(b, int) and b > 0:
                    return mk(x / y) if isinstance(op, ast.FloorDiv) else mk(x % y)
                raise Unsupported("division by a symbolic number")
            if isinstance(op, ast.Div):
                if self.path.decide(y == 0):
                    self.throw(ZeroDivisionError, "division by zero")
                return VRatio(a, b)
            if isinstance(op, ast.Pow):
                if a == 2:
                    return mk(uf("py.pow2", INT, INT)(y))
                if isinstance(b, int) and 0 <= b <= 4:
                    r = z3.IntVal(1)
                    for _ in range(b):
                        r = r * x
                    return mk(r)
            raise Unsupported(f"operator {type(op).__name__}")
        if ka == "none" or kb == "none" or (ka == "str") != (kb == "str"):
            self.throw(TypeError, "unsupported operand types")
        raise Unsupported(f"operator {type(op).__name__} on {ka},{kb}")

    def opaque_str(self, *parts):
        self.path.taints.add("opaque string")
        return Sym(z3.String("str<" + ",".join(describe(p) for p in parts) + ">"))

    def e_Compare(self, e, f):
        left = self.eval(e.left, f)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, f)
            v = self.cmp1(op, left, right)
            if i == len(e.ops) - 1:
                return v if res is True else v
            if not self.truth(v):
                return False
            left = right
        return res

    def cmp1(self, op, a, b):
        if isinstance(op, ast.Eq):
            r = self.eq(a, b)
            return r if isinstance(r, bool) else mk(r)
        if isinstance(op, ast.NotEq):
            a2 = self.force(a)
            if isinstance(a2, VObj) and a2.cls is not None:
                ne = self.lookup_class(a2.cls, "__ne__")
                if isinstance(ne, types.FunctionType):
                    return self.call(ne, [a2, b], VDict())
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else mk(z3.Not(r))
        if isinstance(op, ast.Is):
            r = self.is_(a, b)
            return r if isinstance(r, bool) else mk(r)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else mk(z3.Not(r))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        s = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        return self.compare(s, a, b)

    def e_Call(self, e, f):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = f
            while fr is not None and fr.fn is None:
                fr = fr.parent
            node = func_node(fr.fn)
            return VSuper(fr.defcls, fr.locals[node.args.args[0].arg])
        fn = self.eval(e.func, f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.segments(self.eval(a.value, f))
                if any(isinstance(s, Star) for s in segs):
                    raise Unsupported("unbounded * arguments")
                args.extend(segs)
            else:
                args.append(self.eval(a, f))
        kw = VDict()
        for k in e.keywords:
            v = self.eval(k.value, f)
            if k.arg is None:
                v = self.force(v)
                if isinstance(v, dict):
                    v = self.lift(v)
                if not isinstance(v, VDict):
                    if isinstance(v, Model) and hasattr(v, "as_kwargs"):
                        v = v.as_kwargs(self)
                    else:
                        raise Unsupported("** of a non-dict")
                for kk in v.entries:
                    if kk in kw.entries:
                        self.throw(TypeError, f"multiple values for keyword argument '{kk}'")
                if v.rest is not None:
                    for kk in list(kw.entries):
                        if kk not in v.entries:
                            ok, _ = self.dget(v, kk)
                            if ok:
                                self.throw(TypeError, f"multiple values for keyword '{kk}'")
                self.dict_update(kw, v)
            else:
                if k.arg in kw.entries:
                    self.throw(TypeError, f"multiple values for keyword argument '{k.arg}'")
                if kw.rest is not None and self.dget(kw, k.arg)[0]:
                    self.throw(TypeError, f"multiple values for keyword argument '{k.arg}'")
                kw.entries[k.arg] = v
        return self.call(fn, args, kw)

    def e_Lambda(self, e, f):
        return VFunc(e, f, [self.eval(d, f) for d in e.args.defaults], {}, "<lambda>")

    def e_JoinedStr(self, e, f):
        parts = []
        opaque = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, f)
                if v.conversion not in (-1,) or v.format_spec is not None:
                    try:
                        spec = ""
                        if v.format_spec is not None:
                            spec = self.e_JoinedStr(v.format_spec, f)
                        y = self.concrete(x)
                        y = {-1: lambda z: z, 115: str, 114: repr, 97: ascii}[v.conversion](y)
                        parts.append(format(y, spec))
                    except Unsupported:
                        parts.append(self.opaque_str("fmt", x))
                    continue
                parts.append(self.to_str(x))
        out = ""
        for p in parts:
            if isinstance(out, str) and isinstance(p, str):
                out = out + p
            else:
                out = mk(z3.Concat(zs(out), zs(p)))
        return out

    def to_str(self, x):
        """str(x)"""
        x = self.force(x)
        if isinstance(x, enum.Enum):
            return str(x)
        if isinstance(x, str):
            return x
        if isinstance(x, Sym):
            k = x.kind
            if k == "str":
                return x
            if k == "int":
                return Sym(STR_OF_INT(x.t))
            if k == "bool":
                return mk(z3.If(x.t, z3.StringVal("True"), z3.StringVal("False")))
            if self.path.check(z3.Not(Val.is_vstr(x.t))) == "unsat":
                return mk(Val.s(x.t))
            if self.path.check(z3.Not(Val.is_vnone(x.t))) == "unsat":
                return "None"
            return Sym(STR_OF_VAL(x.t))
        if isinstance(x, Model) and hasattr(x, "to_str"):
            return x.to_str(self)
        if isinstance(x, VExc):
            a = x.attrs.get("args", ())
            if len(a) == 1:
                return self.to_str(a[0])
        if isinstance(x, VObj):
            for nm in ("__str__",):
                cls = x.cls
                m = self.lookup_class(cls, nm) if cls else None
                if isinstance(m, types.FunctionType) and verified_module(m.__module__):
                    return self.call(m, [x], VDict())
            return self.opaque_str("str", x)
        try:
            return str(self.concrete(x))
        except Unsupported:
            return self.opaque_str("str", x)

    def e_FormattedValue(self, e, f):
        return self.to_str(self.eval(e.value, f))

    def e_Starred(self, e, f):
        raise Unsupported("starred expression")

    def e_Await(self, e, f):
        v = self.eval(e.value, f)
        v = self.force(v)
        if isinstance(v, Model) and hasattr(v, "await_"):
            return v.await_(self)
        return v

    def e_Yield(self, e, f):
        v = self.eval(e.value, f) if e.value is not None else None
        fr = f
        while fr is not None and fr.cont is None and fr.yields is None:
            fr = fr.parent
        if fr is not None and fr.cont is not None:
            return fr.cont(v)
        if fr is not None and fr.yields is not None:
            fr.yields.items.append(v)
            return None
        raise Unsupported("yield")

    def e_YieldFrom(self, e, f):
        v = self.eval(e.value, f)
        fr = f
        while fr is not None and fr.yields is None:
            fr = fr.parent
        if fr is None:
            raise Unsupported("yield from")
        fr.yields.items.extend(self.segments(v))

    # comprehensions
    def comp(self, gens, frame, leaf):
        cf = Frame(frame.globals, frame)
        cf.is_comp = True
        cf.fn = None

        def level(i):
            def run(interp, fr, elem):
                g = gens[i]
                interp.assign(g.target, elem, fr)
                for c in g.ifs:
                    if not interp.truth(interp.eval(c, fr)):
                        return
                if i + 1 < len(gens):
                    it = interp.eval(gens[i + 1].iter, fr)
                    interp.loop(it, fr, level(i + 1))
                else:
                    leaf(interp, fr)

            return run

        it = self.eval(gens[0].iter, frame)
        return cf, it, level(0)

    def e_ListComp(self, e, f):
        acc = VList()

        def leaf(interp, fr):
            fr.locals["$acc"].items.append(interp.eval(e.elt, fr))

        cf, it, run = self.comp(e.generators, f, leaf)
        cf.locals["$acc"] = acc
        self.loop(it, cf, run)
        return acc

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, f):
        lst = self.e_ListComp(e, f)
        s = VSet()
        if lst.has_star:
            raise Unsupported("unbounded set comprehension")
        for x in lst.items:
            if not self.contains(s, x):
                s.items.append(x)
        return s

    def e_DictComp(self, e, f):
        acc = VDict()

        def leaf(interp, fr):
            k = interp.eval(e.key, fr)
            v = interp.eval(e.value, fr)
            interp.dset(fr.locals["$acc"], k, v)

        cf, it, run = self.comp(e.generators, f, leaf)
        cf.locals["$acc"] = acc
        self.loop(it, cf, run)
        acc.dirty = False
        return acc


def is_generator(node):
    r = getattr(node, "_is_generator", None)
    if r is None:
        r = node._is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
    return r


def describe(v):
    if isinstance(v, Sym):
        return str(v.t)
    if isinstance(v, VObj):
        return v.name or (v.cls.__name__ if v.cls else "?")
    if isinstance(v, (VList, VDict)):
        return v.name or type(v).__name__
    if isinstance(v, Lazy):
        return v.name
    return repr(v)[:60]


def to_z3(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    return zstr(v)


def default_valgen(it, name, key):
    return Sym(z3.Const(name, Val))


def _native_cmp(op, a, b):
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def _native_bin(op, a, b):
    import operator as o

    return {
        ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv,
        ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_,
        ast.BitAnd: o.and_, ast.BitXor: o.xor, ast.LShift: o.lshift, ast.RShift: o.rshift,
        ast.MatMult: o.matmul,
    }[type(op)](a, b)


import functools  # noqa: E402

functools_lru = type(functools.lru_cache(lambda: 0))
