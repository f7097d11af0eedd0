"""Tasks, contracts and the decision procedure.

A task is a Hoare triple over real code: for all inputs in the described domain that
satisfy `requires`, running `code` (a harness that calls the functions in /repo) and
running `spec` (the contract, a total function written in contracts/) give the same
outcome (value or exception), and the inputs are left unmodified (frame).
"""
from __future__ import annotations

import copy
import dataclasses
import enum
import json
import os
import random
import time
import traceback

import z3

from . import fork, sorts as S
from .fork import ForkDone
from .interp import (
    Cloner, Engine, Interp, Model, OpaqueExc, Gen, VRatio, describe, mk, to_z3,
)
from .path import Budget, Path, STATS, conj, explore
from .values import *


class Refuted(Exception):
    def __init__(self, path, where, got, want, formula=None):
        self.path, self.where, self.got, self.want = path, where, got, want
        self.formula = formula


class Undecided(Exception):
    pass


APPROX_CONST = ("total(", "join(", "from_dict(", "str<", "split(", "opq_eq")


def approximate(path, formula=None):
    """Does the condition mention a function the verifier leaves uninterpreted?"""
    seen, stack = set(), list(path.pc) + ([formula] if formula is not None else [])
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if x.num_args() > 0 or n.startswith(APPROX_CONST) or "~sum" in n:
                return n
        stack.extend(x.children())
    return None


class Contract:
    """Contract of a (recursive) callee: code and spec both evaluate, on a pristine
    child `key`, to the same unconstrained value `result`, or both raise."""

    def __init__(self, name, code=(), spec=(), key=None, result=None, may_raise=True,
                 effect=None):
        self.name, self.code, self.spec = name, list(code), list(spec)
        self.key, self.result, self.may_raise = key, result, may_raise
        self.effect = effect
        self.uses = 0

    def apply(self, it, f, args, kw):
        k = self.key(it, f, args, kw)
        if k is None:
            return NotImplemented
        self.uses += 1
        nm = f"{self.name}({k})"
        if self.may_raise and not it.path.decide(z3.Bool(nm + ".ok")):
            raise PyExc(VExc(OpaqueExc, (nm,)))
        if self.effect is not None:
            self.effect(it, f, args, kw, nm)
        r = self.result
        return r.sym(it, nm) if hasattr(r, "sym") else r(it, nm)


class MethodContract:
    """Contract of a method called on an unmodified skeleton whose name starts with
    `prefix`: `apply(interp, obj, args, kw)` gives the result."""

    def __init__(self, name, prefix, apply):
        self.name, self.prefix, self.fn = name, prefix, apply
        self.uses = 0

    def accepts(self, it, o):
        return bool(o.name) and o.name.startswith(self.prefix) and pristine(o)

    def apply_method(self, it, o, args, kw):
        self.uses += 1
        return self.fn(it, o, args, kw)


def child_key(it, v):
    """Name of a skeleton that nothing has written to, else None."""
    if isinstance(v, Lazy):
        # reading a not yet materialised input part: its name identifies it
        return v.name
    if isinstance(v, VObj) and v.name and not v.dirty and not v.attrs.get("$mod"):
        return v.name if pristine(v) else None
    if isinstance(v, (VDict, VList)) and v.name and not v.dirty:
        return v.name if pristine(v) else None
    if isinstance(v, Opaque):
        return v.name
    return None


def pristine(v, seen=None):
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return True
    seen.add(id(v))
    if isinstance(v, VObj):
        return not v.dirty and all(pristine(x, seen) for x in v.attrs.values())
    if isinstance(v, VDict):
        return not v.dirty and all(pristine(x, seen) for x in v.entries.values())
    if isinstance(v, VList):
        return not v.dirty and all(pristine(x, seen) for x in v.items)
    return True


class Rejected(Exception):
    """A spec outcome: the code must raise some exception."""


# ---------------------------------------------------------------------------
# symbolic comparison


def recap_kind(cls):
    from recap import types as T

    if isinstance(cls, type) and issubclass(cls, T.RecapType):
        return KIND.get(cls.__name__)
    return None


KIND = {
    "NullType": "null", "BoolType": "bool", "IntType": "int", "FloatType": "float",
    "StringType": "string", "BytesType": "bytes", "ListType": "list", "MapType": "map",
    "StructType": "struct", "EnumType": "enum", "UnionType": "union", "ProxyType": "proxy",
}
OWN = {
    "null": (), "bool": (), "int": ("bits", "signed"), "float": ("bits",),
    "string": ("bytes_", "variable"), "bytes": ("bytes_", "variable"),
    "list": ("values", "length", "variable"), "map": ("keys", "values"),
    "struct": ("fields",), "enum": ("symbols",), "union": ("types",), "proxy": (),
}


class Same:
    """Obligation generator: a (code) and b (spec) denote the same value."""

    def __init__(self, task, rec):
        self.task, self.rec = task, rec

    def fail(self, it, where, a, b):
        if it.path.check(z3.BoolVal(True), full=True) == "unsat":
            raise Infeasible()
        self.rec.obligation(where, "refuted")
        raise Refuted(it.path, where, a, b)

    def scalar_ob(self, it, f, where, a, b):
        if isinstance(f, bool):
            if f:
                self.rec.obligation(where, "trivial")
                return
            self.fail(it, where, a, b)
        f = z3.simplify(f)
        if z3.is_true(f):
            self.rec.obligation(where, "trivial")
            return
        r = it.path.check(z3.Not(f))
        if r == "unsat":
            self.rec.obligation(where, "proved")
            return
        if r == "unknown":
            self.rec.obligation(where, "unknown")
            it.path.taints.add("solver unknown")
            raise Undecided(f"solver gave no answer for {where}")
        r = it.path.check(z3.Not(f), full=True)
        if r == "unsat":
            self.rec.obligation(where, "proved")
            return
        if r == "unknown":
            self.rec.obligation(where, "unknown")
            raise Undecided(f"solver gave no answer for {where}")
        self.rec.obligation(where, "refuted")
        raise Refuted(it.path, where, a, b, f)

    def __call__(self, it, a, b, where, depth=0):
        if depth > 40:
            raise Unsupported("comparison too deep")
        if isinstance(a, Lazy) and isinstance(b, Lazy) and a.name == b.name:
            self.rec.obligation(where, "trivial")
            return
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            raise Unsupported("comparison of an unknown value")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Lazy) and getattr(y, "name", None) == x.name and pristine(y):
                self.rec.obligation(where, "trivial")
                return
        a, b = it.force(a), it.force(b)
        if a is b:
            self.rec.obligation(where, "trivial")
            return
        h = self.task.compare
        if h is not None:
            r = h(self, it, a, b, where, depth)
            if r is not NotImplemented:
                return
        if isinstance(a, VObj) and isinstance(b, VObj):
            return self.objects(it, a, b, where, depth)
        if isinstance(a, VObj) or isinstance(b, VObj):
            self.fail(it, where, a, b)
        if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)):
            return self.lists(it, a, b, where, depth)
        if isinstance(a, VDict) and isinstance(b, VDict):
            return self.dicts(it, a, b, where, depth)
        if isinstance(a, VSet) and isinstance(b, VSet):
            f = it.path.decide(it.eq(a, b))
            return self.scalar_ob(it, f, where, a, b)
        ka, kb = it.kind_of(a), it.kind_of(b)
        if ka and kb:
            # Python equality would identify True and 1: compare kinds as well
            if {ka, kb} == {"int", "bool"}:
                self.fail(it, where, a, b)
            return self.scalar_ob(it, it.eq(a, b), where, a, b)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.name == b.name:
                self.rec.obligation(where, "trivial")
                return
            self.fail(it, where, a, b)
        if isinstance(a, Model) or isinstance(b, Model):
            m, o = (a, b) if isinstance(a, Model) else (b, a)
            if hasattr(m, "same"):
                return m.same(self, it, o, where, depth)
            raise Unsupported(f"comparison of {type(m).__name__}")
        if isinstance(a, VRatio) and isinstance(b, VRatio):
            f = it.as_int(a.num) * it.as_int(b.den) == it.as_int(b.num) * it.as_int(a.den)
            return self.scalar_ob(it, f, where, a, b)
        if (ka or kb) or isinstance(a, (VList, VDict, tuple)) or isinstance(b, (VList, VDict, tuple)):
            s, o = (a, b) if ka else (b, a)
            if isinstance(o, (Opaque, VRatio)):
                raise Unsupported("comparison with an opaque value")
            self.fail(it, where, a, b)
        try:
            r = bool(a == b)
        except Exception:
            raise Unsupported("comparison of native values")
        return self.scalar_ob(it, r, where, a, b)

    def objects(self, it, a, b, where, depth):
        if a.name and a.name == b.name and pristine(a) and pristine(b):
            self.rec.obligation(where, "trivial")
            return
        ca = it.refine(a) if a.cls is None else a.cls
        cb = it.refine(b) if b.cls is None else b.cls
        ka, kb = self.view_kind(it, a, ca), self.view_kind(it, b, cb)
        if ka is not None and kb is not None:
            if isinstance(ka, Sym) or isinstance(kb, Sym):
                self(it, ka, kb, where + ":kind", depth + 1)
                raise Unsupported("symbolic kind")
            if ka != kb:
                self.fail(it, where + ":kind", a, b)
            self.rec.obligation(where + ":kind", "trivial")
            for at in ("logical", "alias", "doc"):
                self(it, self.view_attr(it, a, ca, at), self.view_attr(it, b, cb, at),
                     f"{where}.{at}", depth + 1)
            for at in OWN[ka]:
                self(it, self.view_attr(it, a, ca, at), self.view_attr(it, b, cb, at),
                     f"{where}.{at}", depth + 1)
            self(it, self.view_attr(it, a, ca, "extra_attrs"),
                 self.view_attr(it, b, cb, "extra_attrs"), f"{where}.extra_attrs", depth + 1)
            return
        if ca is not cb:
            self.fail(it, where + ":class", a, b)
        names = list(dict.fromkeys([*it.vars_(a).entries, *it.vars_(b).entries]))
        for n in names:
            if n.startswith("_") or n == "registry":
                continue
            if n not in a.attrs or n not in b.attrs:
                self.fail(it, f"{where}.{n}", a, b)
            self(it, a.attrs[n], b.attrs[n], f"{where}.{n}", depth + 1)

    def view_kind(self, it, o, cls):
        k = recap_kind(cls)
        if k is not None:
            if o.name is None or "type_" in o.attrs:
                t = o.attrs.get("type_")
                if isinstance(t, str) and t != k:
                    return f"{k}/{t}"
            return k
        if cls.__name__ == "Node":
            return o.attrs["kind"]
        return None

    def view_attr(self, it, o, cls, at):
        if recap_kind(cls) is not None:
            return it.getattr(o, at)
        if at in ("logical", "alias", "doc"):
            return o.attrs[at]
        if at == "extra_attrs":
            return o.attrs["attrs"]
        ok, v = it.dget(o.attrs["own"], at)
        if not ok:
            raise EngineError(f"spec node lacks {at}: {o}")
        return v

    def lists(self, it, a, b, where, depth):
        if isinstance(a, tuple) != isinstance(b, tuple):
            # an unbounded tuple is represented as a list
            la = a if isinstance(a, VList) else VList(list(a))
            lb = b if isinstance(b, VList) else VList(list(b))
            if not (la.has_star or lb.has_star):
                self.fail(it, where + ":class", a, b)
        xa = VList(list(a) if isinstance(a, tuple) else list(a.items))
        xb = VList(list(b) if isinstance(b, tuple) else list(b.items))
        n = 0
        while True:
            n += 1
            if n > 60:
                raise Unsupported("list comparison does not terminate")
            it.expand(xa)
            it.expand(xb)
            self.drop_empty(it, xa)
            self.drop_empty(it, xb)
            if not xa.items and not xb.items:
                self.rec.obligation(where + ":length", "trivial")
                return
            ha = xa.items[0] if xa.items else None
            hb = xb.items[0] if xb.items else None
            if xa.items and xb.items and not isinstance(ha, Star) and not isinstance(hb, Star):
                self(it, ha, hb, f"{where}[]", depth + 1)
                xa.items, xb.items = xa.items[1:], xb.items[1:]
                continue
            if isinstance(ha, Star) and isinstance(hb, Star) and ha.src == hb.src:
                if not (ha.cases is None and hb.cases is None):
                    self.stars(it, ha, hb, where, depth)
                else:
                    self.rec.obligation(f"{where}[*]", "trivial")
                xa.items, xb.items = xa.items[1:], xb.items[1:]
                continue
            if isinstance(ha, Star) and ha.opaque or isinstance(hb, Star) and hb.opaque:
                raise Unsupported("comparison of an opaque sequence")
            if isinstance(ha, Star):
                if not it.exists(ha, lambda j, e: True, "cmp"):
                    xa.items = [x for x in xa.items[1:]]
                continue
            if isinstance(hb, Star):
                if not it.exists(hb, lambda j, e: True, "cmp"):
                    xb.items = [x for x in xb.items[1:]]
                continue
            self.fail(it, where + ":length", a, b)

    def drop_empty(self, it, l):
        e = it.path.empty_sources()
        while l.items and isinstance(l.items[0], Star) and l.items[0].src in e:
            l.items = l.items[1:]

    def stars(self, it, sa, sb, where, depth):
        src = sa.src

        def run(p):
            j = Interp(p, it.eng)
            j.depth = it.depth
            p.open = set(p.open)
            j.open_source(p, src)
            if not p.feasible():
                raise Infeasible()
            cl = Cloner()
            ea = [cl(x) for x in j.elements(sa)]
            eb = [cl(x) for x in j.elements(sb)]
            if len(ea) != len(eb):
                self.fail(j, f"{where}[*]:count", VList(ea), VList(eb))
            for x, y in zip(ea, eb):
                self(j, x, y, f"{where}[*]", depth + 1)
            if not ea:
                self.rec.obligation(f"{where}[*]", "trivial")
            return True

        for p, r in explore(run, it.path, share=True):
            it.path.taints |= p.taints

    def dicts(self, it, a, b, where, depth):
        done = set()
        da = [d for d in a.dyn if isinstance(d, DynEntry)]
        db = [d for d in b.dyn if isinstance(d, DynEntry)]
        sa = [d for d in a.dyn if isinstance(d, DynStar)]
        sb = [d for d in b.dyn if isinstance(d, DynStar)]
        if sa or sb or a.log or b.log:
            live = lambda d: not (isinstance(d, DynStar) and d.src in it.path.empty_sources())
            xs, ys = [d for d in a.dyn if live(d)], [d for d in b.dyn if live(d)]
            if [type(d) for d in xs] != [type(d) for d in ys]:
                raise Unsupported("comparison of summarised dicts")
            da, db = [], []
            for x, y in zip(xs, ys):
                if isinstance(x, DynEntry):
                    if not it.path.decide(it.eq(x.key, y.key)):
                        raise Unsupported("comparison of summarised dicts")
                    self(it, x.value, y.value, f"{where}{{sym}}", depth + 1)
                    continue
                if x.src != y.src:
                    raise Unsupported("comparison of summarised dicts")
                la = Star(x.src, x.gen, [(f, [tuple(kv) for kv in kvs]) for f, kvs in x.cases])
                lb = Star(y.src, y.gen, [(f, [tuple(kv) for kv in kvs]) for f, kvs in y.cases])
                self.stars(it, la, lb, where + "{*}", depth)
        for x, y in ((da, b), (db, a)):
            for d in x:
                ok, v = it.dget(y, d.key)
                if not ok:
                    self.fail(it, f"{where}{{sym}}", a, b)
                if x is da:
                    self(it, d.value, v, f"{where}{{sym}}", depth + 1)
        while True:
            keys = [k for k in dict.fromkeys([*a.entries, *b.entries, *sorted(a.seen, key=str), *sorted(b.seen, key=str)])
                    if k not in done]
            if not keys:
                break
            for k in keys:
                done.add(k)
                if sa or sb or a.log or b.log:
                    pa, va = k in a.entries, a.entries.get(k)
                    pb, vb = k in b.entries, b.entries.get(k)
                else:
                    pa, va = it.dget(a, k)
                    pb, vb = it.dget(b, k)
                if pa != pb:
                    self.fail(it, f"{where}[{k!r}]", a, b)
                if pa:
                    self(it, va, vb, f"{where}[{k!r}]", depth + 1)
        ra, rb = a.rest, b.rest
        if ra is None and rb is None:
            self.rec.obligation(where + ":keys", "trivial")
            return
        if ra is not None and rb is not None:
            if ra.src != rb.src or ra.excluded != rb.excluded:
                raise Unsupported("comparison of two open dicts")
            self.rec.obligation(where + ":keys", "trivial")
            return
        d = a if ra is not None else b
        n = it.rest_count(d)
        self.scalar_ob(it, n == 0, where + ":keys", a, b)


# ---------------------------------------------------------------------------
# native comparison


def canon(v, depth=0):
    """Comparable normal form of a native result."""
    from recap import types as T

    if depth > 60:
        return ("deep",)
    n = depth + 1
    if v is None or isinstance(v, (str, bytes)):
        return v if not isinstance(v, enum.Enum) else ("enum", str(v))
    if isinstance(v, enum.Enum):
        return ("enum", str(v))
    if isinstance(v, (bool, int, float)):
        return (type(v).__name__, v)
    if isinstance(v, T.RecapType):
        k = KIND.get(type(v).__name__, type(v).__name__)
        kk = k if v.type_ == k else f"{k}/{v.type_}"
        return (
            "T", kk, canon(v.logical, n), canon(v.alias, n), canon(v.doc, n),
            canon(v.extra_attrs, n),
            tuple((a, canon(getattr(v, a), n)) for a in OWN.get(k, ())),
        )
    if type(v).__name__ == "Node":
        return (
            "T", v.kind, canon(v.logical, n), canon(v.alias, n), canon(v.doc, n),
            canon(v.attrs, n),
            tuple((a, canon(v.own[a], n)) for a in OWN.get(v.kind, ())),
        )
    if isinstance(v, dict):
        return ("dict", tuple(sorted(((repr(canon(k, n)), canon(x, n)) for k, x in v.items()), key=lambda t: t[0])))
    if isinstance(v, list):
        return ("list", tuple(canon(x, n) for x in v))
    if isinstance(v, tuple):
        return ("tuple", tuple(canon(x, n) for x in v))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(repr(canon(x, n)) for x in v)))
    if dataclasses.is_dataclass(v) or hasattr(v, "__dict__"):
        return (
            "obj", type(v).__name__,
            tuple(sorted((k, canon(x, n)) for k, x in vars(v).items()
                         if not k.startswith("_") and k != "registry")),
        )
    return ("repr", repr(v))


def native_outcome(fn, args):
    from contracts.speclib import Rejected as R

    try:
        return ("ret", fn(*args))
    except R as e:
        return ("rejected", None)
    except RecursionError:
        return ("skip", None)
    except Exception as e:
        return ("exc", e)


def native_same(oc, os_, loose=False):
    if "skip" in (oc[0], os_[0]):
        return True
    if os_[0] in ("rejected", "exc"):
        return oc[0] in ("rejected", "exc")
    if oc[0] in ("rejected", "exc"):
        return False
    return canon(oc[1]) == canon(os_[1])


# ---------------------------------------------------------------------------


class Task:
    def __init__(self, name, code, spec, inputs, requires=None, contracts=(), compare=None,
                 frame=True, setup=None, functions=(), budget=None, max_paths=20000, note="",
                 bounded_n=2, assume=None, search=True, bounded_only=False, search_inputs=None, methods=()):
        self.methods = list(methods)
        self.name, self.code, self.spec = name, code, spec
        self.inputs = inputs
        self.requires, self.contracts, self.compare = requires, list(contracts), compare
        self.frame, self.setup = frame, setup
        self.functions = list(functions)
        self.budget, self.max_paths, self.note = budget, max_paths, note
        self.bounded_n = bounded_n
        self.search = search
        self.bounded_only = bounded_only
        self.search_inputs = search_inputs or inputs

    # -- symbolic ---------------------------------------------------------
    def engine(self):
        e = Engine()
        for c in self.contracts:
            for f in c.code + c.spec:
                e.contracts[f] = c
        for m in self.methods:
            e.method_contracts[m.name] = m
        if self.setup is not None:
            self.setup(e)
        return e

    def build(self, it):
        return [s.sym(it, n) for n, s in self.inputs.items()]

    def run_one(self, p, eng, rec):
        same = Same(self, rec)
        it = Interp(p, eng)
        if self.requires is not None:
            it.mode = "requires"
            if not it.truth(it.call(self.requires, self.build(it), VDict())):
                return "pre"
        args = self.build(it)
        it.mode = "code"
        try:
            rc = ("ret", it.call(self.code, args, VDict()))
        except PyExc as e:
            rc = ("exc", e.exc)
        p.lifted = {}
        it2 = Interp(p, eng)
        it2.mode = "spec"
        sargs = self.build(it2)
        try:
            rs = ("ret", it2.call(self.spec, sargs, VDict()))
        except PyExc as e:
            rs = ("exc", e.exc)
        it3 = Interp(p, eng)
        it3.mode = "spec"
        if rs[0] == "exc":
            if rc[0] != "exc":
                same.fail(it3, "outcome", rc[1], rs[1])
            # a rejection: the class of the exception is not part of the contract
            rec.obligation("outcome", "trivial")
        else:
            if rc[0] == "exc":
                same.fail(it3, "outcome", rc[1], rs[1])
            same(it3, rc[1], rs[1], "result")
        if self.frame:
            if not all(pristine(a) for a in args):
                it4 = Interp(p, eng)
                for n, x, y in zip(self.inputs, args, self.build(it4)):
                    if isinstance(self.frame, (list, tuple, set)) and n not in self.frame:
                        continue
                    same(it4, x, y, f"frame({n})")
            else:
                rec.obligation("frame", "trivial")
        return rc[0]

    def verify(self, deadline, bounded=None):
        rec = Record(self)
        S.BOUNDED["n"] = bounded
        eng = self.engine()
        rec.eng = eng
        refs = []
        t0 = time.time()
        try:
            def run(p):
                try:
                    return ("ok", self.run_one(p, eng, rec))
                except Refuted as r:
                    return ("refuted", r)
                except (Unsupported, Undecided) as e:
                    return ("undecided", str(e))
                except RecursionError:
                    return ("undecided", "recursion")
                except ForkDone:
                    return ("forked", None)

            if fork.FORK is not None:
                fork.FORK.on_child = lambda: (rec.reset(), refs.clear())
            for p, (k, v) in explore(run, None, self.max_paths, deadline, share=True):
                if k == "forked":
                    pass
                elif k == "ok":
                    rec.outcomes[v] = rec.outcomes.get(v, 0) + 1
                    if len(rec.models) < 400:
                        rec.models.append(p)
                elif k == "refuted":
                    refs.append(v)
                    if len(refs) >= 12:
                        rec.undecided.append("stopped after 12 refutations")
                        break
                else:
                    rec.undecided.append(v)
                    if len(rec.models) < 400:
                        rec.models.append(p)
                rec.taints |= p.taints
        except Budget:
            rec.undecided.append("budget exhausted")
        rec.refs = refs
        rec.wall = time.time() - t0
        rec.functions = sorted(eng.functions)
        rec.contract_uses = {c.name: c.uses for c in self.contracts + self.methods}
        return rec

    # -- native -----------------------------------------------------------
    def concretise(self, path, model):
        c = S.Conc(model, path)
        return [s.conc(c, n) for n, s in self.inputs.items()]

    def native(self, args):
        """(ok, detail). None when the inputs are outside the precondition."""
        a1, a2, a3 = copy.deepcopy(args), copy.deepcopy(args), copy.deepcopy(args)
        if self.requires is not None:
            try:
                if not self.requires(*a3):
                    return None, "outside the precondition"
            except Exception as e:
                return None, f"precondition raised {e!r}"
        before = canon(a1)
        oc = native_outcome(self.code, a1)
        os_ = native_outcome(self.spec, a2)
        if os_[0] == "exc" and type(os_[1]).__name__ in ("SpecError",):
            return None, "outside the specification"
        if not native_same(oc, os_):
            return False, f"inputs {show(args)}: code -> {show_outcome(oc)}; contract -> {show_outcome(os_)}"
        if self.frame:
            if isinstance(self.frame, (list, tuple, set)):
                keep = [i for i, n in enumerate(self.inputs) if n in self.frame]
            else:
                keep = list(range(len(args)))
            now = canon(a1)
            for i in keep:
                if before[1][i] != now[1][i]:
                    return False, f"inputs {show(args)}: input {list(self.inputs)[i]} was modified to {show(a1[i])}"
        return True, ""

    def random_search(self, seed, seconds, maxn=100000, lits=()):
        S.BOUNDED["n"] = None
        r = Rng(seed, lits)
        t0 = time.time()
        n = inside = 0
        while time.time() - t0 < seconds and n < maxn:
            n += 1
            try:
                args = [s.rand(r.sub()) for s in self.search_inputs.values()]
            except RecursionError:
                continue
            try:
                ok, msg = self.native(args)
            except RecursionError:
                continue
            if ok is None:
                continue
            inside += 1
            if ok is False:
                return n, inside, (args, msg)
        return n, inside, None


class Record:
    def __init__(self, task):
        self.task = task
        self.obs = {}
        self.outcomes = {}
        self.undecided = []
        self.models = []
        self.taints = set()
        self.refs = []
        self.eng = None
        self.wall = 0.0
        self.functions, self.contract_uses = [], {}

    def reset(self):
        """In a forked process: forget what the parent reports."""
        for x in (self.obs, self.outcomes, self.undecided, self.models, self.taints, self.refs):
            x.clear()
        for c in self.task.contracts + self.task.methods:
            c.uses = 0
        STATS.__init__()

    def obligation(self, where, status):
        d = self.obs.setdefault(where, {"proved": 0, "trivial": 0, "refuted": 0, "unknown": 0})
        d[status] += 1

    def total(self):
        return sum(sum(d.values()) for d in self.obs.values())

    def discharged(self):
        return sum(d["proved"] + d["trivial"] for d in self.obs.values())


class Rng:
    def __init__(self, seed, lits=(), depth=0, rnd=None):
        self.r = rnd or random.Random(seed)
        self.lit_pair = lits if isinstance(lits, tuple) and len(lits) == 2 else (list(lits), [])
        self.lits, self.ints = self.lit_pair
        self.depth = depth

    def random(self):
        return self.r.random()

    def choice(self, xs):
        return self.r.choice(list(xs))

    def randint(self, a, b):
        return self.r.randint(a, b)

    def sub(self):
        return Rng(0, self.lit_pair, self.depth + 1, self.r)

    def word(self):
        n = self.r.choice([0, 1, 1, 2, 3, 5, 8])
        alpha = "abcxyzABCXYZ019_.-/%:@ ?#é~+"
        return "".join(self.r.choice(alpha) for _ in range(n))

    def mutate(self, w):
        """A near miss of a known word: other case, parameter list, suffix, prefix."""
        k = self.r.randint(0, 6)
        if k == 0:
            return w.upper() if w != w.upper() else w.lower()
        if k <= 2 and w:
            base = w.split("(")[0]
            ps = [str(self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 38])) for _ in range(self.r.randint(1, 2))]
            return f"{base}({self.r.choice([',', ', ']).join(ps)})"
        if k == 3:
            return w + self.r.choice([" ", "s", "x", "0", "_", "."])
        if k == 4:
            return self.r.choice([" ", "_", "x", "un", "n"]) + w
        if k == 5 and w:
            i = self.r.randint(0, len(w) - 1)
            return w[:i] + w[i + 1:]
        return w.capitalize()

    def number(self):
        k = self.r.random()
        if k < 0.25 and self.ints:
            return self.r.choice(self.ints) + self.r.choice([-1, 0, 0, 1])
        if k < 0.5:
            return self.r.randint(-2, 70)
        if k < 0.8:
            e = self.r.choice([3, 4, 7, 8, 15, 16, 23, 24, 31, 32, 53, 63, 64, 128])
            return 2**e + self.r.choice([-1, 0, 1])
        return self.r.randint(-1000, 10**10)


def show(v, limit=1500):
    try:
        s = repr(v)
    except Exception as e:
        s = f"<{type(v).__name__}>"
    return s if len(s) <= limit else s[:limit] + "..."


def show_outcome(o):
    if o[0] == "ret":
        return "returns " + show(o[1])
    if o[0] == "rejected":
        return "must raise"
    return f"raises {type(o[1]).__name__}: {show(str(o[1]), 300)}"
