"""Summaries of loops over lists of arbitrary length.

The body is explored on a generic element.  Effects of the inferred shapes
(appends, insertions under the element's key, counters, dead temporaries) are the
loop invariant; every other effect and every early exit is an event: the path forks
into `no element triggers an event` and `the list is pre . w . post with w the first
element that does`.
"""
from __future__ import annotations

import hashlib

import z3

from .path import explore, Budget, consts_of, rename_term
from .values import *


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t.eq(b.t)
    if isinstance(a, (Sym, VObj, VList, VDict, VSet)) or isinstance(b, (Sym, VObj, VList, VDict, VSet)):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:
        return False


class Effects:
    def __init__(self):
        self.appends = {}  # id(orig list) -> (orig, [values])
        self.ext = {}  # id(orig dict) -> (orig, names)
        self.dyn = {}  # id(orig dict) -> (orig, [(k, v)])
        self.locals = {}  # (frame depth, name) -> new value
        self.other = []
        self.kind = "normal"


def frames_of(frame):
    out = []
    while frame is not None:
        out.append(frame)
        frame = frame.parent
    return out


def summarise(self, star, frame, run):
    from .interp import (
        BreakSig, Cloner, Frame, Interp, Model, ReturnSig, ContinueSig, mk,
    )

    src, path, eng = star.src, self.path, self.eng
    if src in path.open:
        raise Unsupported("nested loop over the same list")
    frames = frames_of(frame)
    treat = {}  # (depth, name) -> 'havoc' | 'counter' | 'flag'

    def entry_sym(i, name):
        return z3.Int(f"{src}[g]~{name}{i}")

    def body(p):
        p.open = set(p.open)
        it = Interp(p, eng)
        it.depth = self.depth
        cl = Cloner()
        fr = cl(frame)
        p.lifted = {k: (v, cl(x)) for k, (v, x) in path.lifted.items()}
        back = {}
        snap = {}
        for oid, (orig, clone) in list(cl.memo.items()):
            back[id(clone)] = orig
            if isinstance(clone, (VList, VDict, VObj)):
                clone.dirty = False
            if isinstance(clone, VList):
                snap[id(clone)] = list(clone.items)
            elif isinstance(clone, VDict):
                snap[id(clone)] = (dict(clone.entries), list(clone.dyn), clone.ext)
            elif isinstance(clone, VSet):
                snap[id(clone)] = list(clone.items)
            elif isinstance(clone, VObj):
                snap[id(clone)] = dict(clone.attrs)
            elif isinstance(clone, Frame):
                snap[id(clone)] = dict(clone.locals)
        cframes = frames_of(fr)
        for (i, name), how in treat.items():
            if how == "havoc":
                cframes[i].locals[name] = Havoc(name)
            elif how == "counter":
                cframes[i].locals[name] = Sym(entry_sym(i, name))
            elif how == "sum":
                # its value at this element: the amounts added at the elements before it
                k = sums[(i, name)]
                ix = z3.Int(f"{src}[g].idx")
                cframes[i].locals[name] = mk(int_term(cframes[i].locals[name]) + (k * ix if isinstance(k, int) else z3.Int(f"{src}[g]~{k}")))
        start = [dict(c.locals) for c in cframes]
        it.open_source(p, src)
        if any(isinstance(k, int) for k in sums.values()):
            ix = z3.Int(f"{src}[g].idx")
            p.assume(ix >= 0)
            p.assume(ix < z3.Int(f"len({src})"))
        if not p.feasible():
            raise Infeasible()
        eff = Effects()
        try:
            for e in it.elements(star):
                run(it, fr, e)
        except BreakSig:
            eff.kind = "break"
        except ReturnSig:
            eff.kind = "return"
        except PyExc as x:
            eff.kind = "raise"
        if eff.kind == "normal":
            for oid, (orig, clone) in list(cl.memo.items()):
                if id(clone) not in snap:
                    if isinstance(clone, Model) and clone is not orig and hasattr(clone, "changed"):
                        if clone.changed(orig):
                            eff.other.append("model")
                    continue
                if isinstance(clone, VList):
                    before = snap[id(clone)]
                    now = clone.items
                    if len(now) < len(before) or any(x is not y for x, y in zip(before, now)):
                        if len(now) == len(before) and not clone.dirty:
                            continue
                        if not clone.dirty and clone.name is not None:
                            continue  # only split parts were materialised
                        eff.other.append("list")
                    elif len(now) > len(before):
                        eff.appends[id(orig)] = (orig, now[len(before):])
                elif isinstance(clone, VDict):
                    if clone.ext != snap[id(clone)][2]:
                        eff.ext[id(orig)] = (orig, clone.ext - snap[id(clone)][2])
                    if not clone.dirty:
                        continue
                    ent, dyn, _ = snap[id(clone)]
                    if any(k not in clone.entries for k in ent) or any(
                        not same_value(ent[k], clone.entries[k]) for k in ent
                    ):
                        eff.other.append("dict")
                    elif any(k not in ent and k not in clone.seen for k in clone.entries):
                        eff.other.append("dict")
                    elif len(clone.dyn) < len(dyn) or any(x is not y for x, y in zip(dyn, clone.dyn)):
                        eff.other.append("dict")
                    elif len(clone.dyn) > len(dyn):
                        new = clone.dyn[len(dyn):]
                        if any(not isinstance(d, DynEntry) for d in new):
                            eff.other.append("dict")
                        else:
                            eff.dyn[id(orig)] = (orig, [(d.key, d.value) for d in new])
                elif isinstance(clone, VSet):
                    if len(clone.items) != len(snap[id(clone)]):
                        eff.other.append("set")
                elif isinstance(clone, VObj):
                    if clone.dirty:
                        b = snap[id(clone)]
                        if any(k not in clone.attrs for k in b) or any(
                            (k not in b or not same_value(b[k], v)) for k, v in clone.attrs.items()
                        ):
                            eff.other.append("object")
            for i, (c, st) in enumerate(zip(cframes, start)):
                for name in set(st) | set(c.locals):
                    if name == "$exc":
                        continue
                    if name not in c.locals:
                        eff.locals[(i, name)] = Havoc(name)
                    elif name not in st or not same_value(st[name], c.locals[name]):
                        eff.locals[(i, name)] = c.locals[name]
        # translate references to cloned state back to the original objects
        ub = Unclone(back)
        eff.appends = {k: (o, [ub(v) for v in vs]) for k, (o, vs) in eff.appends.items()}
        eff.dyn = {k: (o, [(ub(a), ub(b)) for a, b in kv]) for k, (o, kv) in eff.dyn.items()}
        return eff

    sums = {}
    outs = []
    for attempt in range(60):
        outs, stable = [], True
        for p, e in explore(body, path):
            outs.append((p, e))
            # a new assigned variable changes what the other paths see: start again
            for (i, name), v in e.locals.items():
                if (i, name) in treat:
                    continue
                pre = frames[i].locals.get(name, Havoc)
                if pre is Havoc or isinstance(pre, Havoc):
                    frames[i].locals.setdefault(name, Havoc(name))
                    treat[(i, name)] = "havoc"
                    stable = False
                elif isinstance(pre, int) and not isinstance(pre, bool) or (
                    isinstance(pre, Sym) and pre.kind == "int"
                ):
                    treat[(i, name)] = "counter"
                    stable = False
            if not stable:
                break
        if not stable:
            continue
        changed = {}
        for p, e in outs:
            for key, v in e.locals.items():
                changed.setdefault(key, []).append((p, e, v))
        for (i, name), lst in changed.items():
            pre = frames[i].locals.get(name, Havoc)
            how = treat.get((i, name))
            if how == "havoc":
                continue
            if pre is Havoc or isinstance(pre, Havoc):
                treat[(i, name)] = "havoc"
                if how != "havoc":
                    frames[i].locals.setdefault(name, Havoc(name))
                stable = False
                continue
            news = [v for _, _, v in lst]
            if how == "counter":
                D = amount(src, outs, (i, name), entry_sym(i, name))
                if D is not None and z3.is_int_value(D):
                    sums[(i, name)] = D.as_long()
                elif D is not None:
                    # the loop adds an amount that depends on the element
                    sums[(i, name)] = sum_id(self, star, D, [p.own_decisions() for p, e in outs if e.kind != "normal" or e.other])
                treat[(i, name)] = "havoc" if D is None else "sum"
                stable = False
                continue
            if how == "sum":
                continue
            if how == "flag":
                if not all(is_const(v) for v in news):
                    treat[(i, name)] = "havoc"
                    stable = False
                continue
            if all(is_const(v) for v in news) and not (
                isinstance(pre, int) and not isinstance(pre, bool)
            ):
                treat[(i, name)] = "flag"
                continue
            if isinstance(pre, int) and not isinstance(pre, bool) or (
                isinstance(pre, Sym) and pre.kind == "int"
            ):
                treat[(i, name)] = "counter"
            else:
                treat[(i, name)] = "havoc"
            stable = False
        if stable:
            break
    else:
        raise Unsupported("loop summary does not stabilise")

    benign, events = [], []
    for p, e in outs:
        ev = e.kind != "normal" or e.other
        for key, v in e.locals.items():
            if treat.get(key) == "flag":
                ev = True
        (events if ev else benign).append((p, e))
    if events:
        if not path.decide(path.none_literal(src, [p for p, _ in events])):
            return "split"
    # taints of the body carry over
    for p, _ in benign:
        path.taints |= p.taints
    # appends
    targets = {}
    for p, e in benign:
        for oid, (o, vs) in e.appends.items():
            targets[oid] = o
    for oid, o in targets.items():
        cases = []
        for p, e in benign:
            cases.append((p.own_condition(), e.appends[oid][1] if oid in e.appends else []))
        st = Star(src, star.gen, merge_cases(cases), False, star.tag)
        for k in ("rest", "rest_what", "rest_seen"):
            if hasattr(star, k):
                setattr(st, k, getattr(star, k))
        o.items.append(st)
        o.dirty = True
    for p, e in benign:
        for oid, (o, names) in e.ext.items():
            o.ext = o.ext | names
    dtargets = {}
    for p, e in benign:
        for oid, (o, kv) in e.dyn.items():
            dtargets[oid] = o
    for oid, o in dtargets.items():
        cases = [(p.own_condition(), e.dyn[oid][1] if oid in e.dyn else []) for p, e in benign]
        rest = getattr(star, "rest", None)
        if rest is not None:
            g = src + "[g]"
            ok = all(
                len(kv) == 1
                and isinstance(kv[0][0], Sym)
                and str(kv[0][0].t) == str(z3.String(g + ".key"))
                and is_rest_value(kv[0][1], g + ".val")
                for _, kv in cases
            )
            if ok and o.rest is None:
                o.rest = rest
                o.seen |= set(star.rest_seen) | {k for k in o.entries if isinstance(k, str)}
                o.dirty = True
                continue
            raise Unsupported("filtered or transformed open dict")
        o.dyn = list(o.dyn) + [DynStar(src, star.gen, cases, star.tag)]
        o.dirty = True
    # locals
    for (i, name), how in treat.items():
        if how == "havoc":
            frames[i].locals[name] = Havoc(name)
        elif how == "sum":
            k = sums[(i, name)]
            n = z3.Int(f"len({src})")
            path.assume(n >= 0)
            frames[i].locals[name] = mk(int_term(frames[i].locals[name]) + (k * n if isinstance(k, int) else z3.Int(f"total({src})~{k}")))
    return "done"


def int_term(v):
    return v.t if isinstance(v, Sym) else z3.IntVal(v)


def amount(src, outs, key, entry):
    """What one iteration adds to a counter, as a term over the element src[g]."""
    cases = []
    for p, e in outs:
        if e.kind != "normal" or e.other:
            continue  # an event: the sum is only used where no element causes one
        v = e.locals.get(key)
        if v is None:
            d = z3.IntVal(0)
        elif isinstance(v, Sym) and v.kind == "int":
            d = z3.simplify(v.t - entry.t if isinstance(entry, Sym) else v.t - entry)
        else:
            return None
        if entry.decl().name() in consts_of(d) or any("~" in c and not c.startswith("total(") for c in consts_of(d)):
            return None  # the amount depends on a counter
        cases.append((p.own_decisions(), d))
    if not cases:
        return None
    D = cases[-1][1]
    for f, d in reversed(cases[:-1]):
        D = z3.If(f, d, D)
    return z3.simplify(D)


def sum_id(self, star, D, events=()):
    """The name of the sum of D over the elements of a list: equal amounts, equal names."""
    from .interp import Interp

    src = star.src
    norm = rename_term(D, src, "$list")
    for n, other in SUMS:
        if other.eq(norm):
            return n
    for n, other in SUMS:
        if consts_of(other) != consts_of(norm):
            continue
        mine = rename_term(other, "$list", src)

        def run(p):
            it = Interp(p, self.eng)
            it.depth = self.depth
            p.open = set(p.open)
            it.open_source(p, src)
            for f in events:
                p.assume(z3.Not(f))
            it.elements(star)
            return p.check(mine != D) == "unsat"

        if all(r for _, r in explore(run, self.path)):
            return n
    n = "sum" + hashlib.md5(norm.sexpr().encode()).hexdigest()[:12]
    SUMS.append((n, norm))
    return n


SUMS: list = []


def is_rest_value(v, name):
    if isinstance(v, Sym):
        return str(v.t) == name or str(v.t) == f"|{name}|" or v.t.decl().name() == name
    return getattr(v, "name", None) == name


def is_const(v):
    return v is None or isinstance(v, (bool, int, str, float, type)) or (
        isinstance(v, tuple) and all(is_const(x) for x in v)
    )


def merge_cases(cases):
    return cases


class Unclone:
    """Replace references to cloned state by the originals inside new values."""

    def __init__(self, back):
        self.back = back
        self.seen = {}

    def __call__(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, type, Sym)):
            return v
        if id(v) in self.back:
            return self.back[id(v)]
        if isinstance(v, tuple):
            return tuple(self(x) for x in v)
        if id(v) in self.seen:
            return v
        self.seen[id(v)] = v
        if isinstance(v, VObj):
            for k in list(v.attrs):
                v.attrs[k] = self(v.attrs[k])
        elif isinstance(v, VList):
            v.items = [self(x) for x in v.items]
        elif isinstance(v, VDict):
            v.entries = {k: self(x) for k, x in v.entries.items()}
            for d in v.dyn:
                if isinstance(d, DynEntry):
                    d.value = self(d.value)
        elif isinstance(v, Star) and v.cases is not None:
            v.cases = [(f, [self(x) for x in vs]) for f, vs in v.cases]
        elif isinstance(v, VSet):
            v.items = [self(x) for x in v.items]
        elif type(v).__name__ == "VFunc":
            raise Unsupported("closure stored by a loop")
        return v
