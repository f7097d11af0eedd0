"""Models of Python builtins and of the methods of builtin types."""
from __future__ import annotations

import ast
import builtins
import copy
import enum
import inspect
import json
import math
import re
import types

import z3

from .interp import (
    Cloner, Frame, Gen, INT_OF_STR, IS_INT_STR, LOWER, Model, STR_OF_INT, STR_OF_VAL,
    UPPER, VMethod, VRatio, describe, is_vclass, mk, uf, z_not, zint, zs, to_z3,
)
from .values import *


def kwget(kw, name, default=None):
    return kw.entries.get(name, default)


# --- builtins --------------------------------------------------------------


def b_len(it, args, kw):
    v = it.force(args[0])
    if isinstance(v, Sym) and v.kind == "val":
        v = it.scalar(v)
    if isinstance(v, VList):
        return it.list_len(v)
    if isinstance(v, VDict):
        if v.log or any(isinstance(d, DynStar) for d in v.dyn):
            raise Unsupported("len of a summarised dict")
        n = len(v.entries) + len(v.dyn)
        if v.rest is not None:
            return mk(z3.IntVal(n) + it.rest_count(v))
        return n
    if isinstance(v, VSet):
        return len(v.items)
    if isinstance(v, Sym):
        if v.kind == "str":
            return mk(z3.Length(v.t))
        it.throw(TypeError, "object has no len()")
    if isinstance(v, VObj):
        m = it.lookup_class(v.cls, "__len__")
        if m is None:
            it.throw(TypeError, "object has no len()")
        return it.call(m, [v], VDict())
    try:
        return len(v)
    except TypeError:
        it.throw(TypeError, "object has no len()")


def b_isinstance(it, args, kw):
    cls = it.force(args[1])
    if isinstance(cls, VList):
        cls = tuple(cls.items)
    r = it.isinstance_(args[0], cls)
    return r if isinstance(r, bool) else mk(r)


def b_hasattr(it, args, kw):
    o = it.force(args[0])
    name = it.force(args[1])
    if isinstance(name, Sym):
        if isinstance(o, VObj):
            names = set(o.attrs)
            cls = it.refine(o) if o.cls is None else o.cls
            if o.univ is not None and o.name:
                names |= set(o.univ.common)
                for c, attrs in o.univ.classes:
                    if c is cls:
                        names |= set(attrs)
            names |= set(dir(cls))
            n = it.scalar(name)
            fs = [n.t == zstr(x) for x in sorted(names)]
            if it.path.decide(z3.Or(fs)):
                raise Unsupported("hasattr with a symbolic attribute name that exists")
            return False
        raise Unsupported("hasattr with a symbolic name")
    try:
        it.getattr(o, name)
        return True
    except PyExc as e:
        if issubclass(e.exc.cls, AttributeError):
            return False
        raise


def b_getattr(it, args, kw):
    name = it.concrete(args[1])
    if len(args) > 2:
        try:
            return it.getattr(args[0], name)
        except PyExc as e:
            if issubclass(e.exc.cls, AttributeError):
                return args[2]
            raise
    return it.getattr(args[0], name)


def b_setattr(it, args, kw):
    return it.setattr(args[0], it.concrete(args[1]), args[2])


def b_type(it, args, kw):
    if len(args) != 1:
        raise Unsupported("type() with three arguments")
    v = it.force(args[0])
    if isinstance(v, VObj):
        return it.refine(v) if v.cls is None else v.cls
    if isinstance(v, VList):
        return list
    if isinstance(v, VDict):
        return dict
    if isinstance(v, VSet):
        return set
    if isinstance(v, Sym):
        v = it.scalar(v)
        if isinstance(v, Sym):
            return {"int": int, "str": str, "bool": bool}[v.kind]
        if isinstance(v, Opaque):
            raise Unsupported("type of an opaque value")
    if isinstance(v, Model):
        raise Unsupported("type of a model")
    return type(v)


def b_vars(it, args, kw):
    return it.vars_(args[0])


def b_list(it, args, kw):
    if not args:
        return VList()
    return VList(it.segments(args[0]))


def b_tuple(it, args, kw):
    if not args:
        return ()
    segs = it.segments(args[0])
    if any(isinstance(s, Star) for s in segs):
        return VList(segs)  # an unbounded tuple is treated as a list
    return tuple(segs)


def b_dict(it, args, kw):
    d = VDict()
    if args:
        v = it.force(args[0])
        if isinstance(v, VDict):
            d = it.dcopy(v)
        else:
            segs = it.segments(v)
            for s in segs:
                if isinstance(s, Star):
                    z = getattr(s, "zipped", None)
                    if z is not None and len(segs) == 1:
                        return z(it)
                    raise Unsupported("dict of an unbounded iterable")
                k, x = it.unpack(s, 2)
                it.dset(d, k, x)
    it.dict_update(d, kw)
    d.dirty = False
    return d


def b_set(it, args, kw):
    s = VSet()
    if args:
        v = it.force(args[0])
        if isinstance(v, Model) and hasattr(v, "as_set"):
            return v.as_set(it)
        for x in it.items_of(args[0]):
            if not it.contains(s, x):
                s.items.append(x)
    return s


def b_sorted(it, args, kw):
    v = it.force(args[0])
    if isinstance(v, Model) and hasattr(v, "sorted"):
        return v.sorted(it)
    segs = it.segments(v)
    if any(isinstance(s, Star) for s in segs):
        h = it.eng.models.get("sorted")
        if h is not None:
            return h(it, [VList(segs)], kw)
        raise Unsupported("sorted of an unbounded list")
    if kw.entries.get("key") is not None:
        raise Unsupported("sorted with key")
    if len(segs) <= 1:
        return VList(segs)
    try:
        return VList(sorted([it.concrete(x) for x in segs], reverse=bool(kw.entries.get("reverse"))))
    except Unsupported:
        out = []
        for x in segs:  # insertion sort with symbolic comparisons
            i = 0
            while i < len(out) and not it.path.decide(_b(it.compare("<", x, out[i]))):
                i += 1
            out.insert(i, x)
        if kw.entries.get("reverse"):
            out.reverse()
        return VList(out)


def _b(v):
    return v.t if isinstance(v, Sym) else v


def b_str(it, args, kw):
    if not args:
        return ""
    return it.to_str(args[0])


def b_repr(it, args, kw):
    try:
        return repr(it.concrete(args[0]))
    except Unsupported:
        return it.opaque_str("repr", args[0])


def b_int(it, args, kw):
    if not args:
        return 0
    v = it.scalar(args[0])
    if isinstance(v, Sym):
        if v.kind == "int":
            return v
        if v.kind == "bool":
            return mk(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if len(args) > 1:
            raise Unsupported("int with base")
        if v.t.decl().name() == "py.str_int":  # int(str(n)) == n
            return mk(v.t.arg(0))
        if not it.path.decide(IS_INT_STR(v.t)):
            it.throw(ValueError, "invalid literal for int()")
        return Sym(INT_OF_STR(v.t))
    if isinstance(v, VRatio):
        raise Unsupported("int of a quotient")
    if isinstance(v, (VList, VDict, VObj, Opaque)) or v is None:
        if isinstance(v, Opaque):
            raise Unsupported("int of an opaque value")
        it.throw(TypeError, "int() argument")
    try:
        return int(v, *[it.concrete(a) for a in args[1:]])
    except (ValueError, TypeError, OverflowError) as e:
        it.throw(type(e), str(e))


def b_bool(it, args, kw):
    if not args:
        return False
    t = it.truth_formula(args[0])
    return t if isinstance(t, bool) else mk(t)


def b_max(it, args, kw, op=">"):
    if len(args) == 1:
        v = it.force(args[0])
        if isinstance(v, Model) and hasattr(v, "max"):
            return v.max(it, op)
        segs = it.segments(v)
    else:
        segs = list(args)
    if kw.entries.get("key") is not None:
        raise Unsupported("max with key")
    if any(isinstance(s, Star) for s in segs):
        h = it.eng.models.get("max" if op == ">" else "min")
        if h is not None:
            return h(it, [VList(segs)], kw)
        raise Unsupported("max of an unbounded list")
    if not segs:
        if "default" in kw.entries:
            return kw.entries["default"]
        it.throw(ValueError, "arg is an empty sequence")
    best = segs[0]
    for x in segs[1:]:
        if it.path.decide(_b(it.compare(op, x, best))):
            best = x
    return best


def b_min(it, args, kw):
    return b_max(it, args, kw, "<")


def b_sum(it, args, kw):
    acc = args[1] if len(args) > 1 else 0
    for x in it.items_of(args[0]):
        acc = it.binop(ast.Add(), acc, x)
    return acc


def b_any(it, args, kw):
    segs = it.segments(args[0])
    i = 0
    while i < len(segs):
        x = segs[i]
        if isinstance(x, Star):
            if x.src in it.path.splits:
                segs[i:i + 1] = it.split_parts(x)
                continue
            if it.exists(x, lambda j, e: j.truth(e), "any"):
                continue
            i += 1
            continue
        if it.truth(x):
            return True
        i += 1
    return False


def b_all(it, args, kw):
    segs = it.segments(args[0])
    i = 0
    while i < len(segs):
        x = segs[i]
        if isinstance(x, Star):
            if x.src in it.path.splits:
                segs[i:i + 1] = it.split_parts(x)
                continue
            if it.exists(x, lambda j, e: not j.truth(e), "all"):
                continue
            i += 1
            continue
        if not it.truth(x):
            return False
        i += 1
    return True


class UpTo(Model):
    """range(stop) of an unknown stop."""

    def __init__(self, stop):
        self.stop = stop

    def clone(self, memo, cloner):
        return UpTo(cloner.term(self.stop) if cloner.rename else self.stop)

    def segments(self, it):
        raise Unsupported("range with symbolic bounds")


def b_zip(it, args, kw):
    args = [it.force(a) for a in args]
    if len(args) == 2 and any(isinstance(a, UpTo) for a in args):
        i = 1 if isinstance(args[1], UpTo) else 0
        xs = VList(it.segments(args[1 - i]))
        if z3.simplify(to_term(it.list_len(xs))).eq(z3.simplify(args[i].stop)):
            # a number for every element
            l = b_enumerate(it, [xs], VDict())
            return l if i == 0 else swap(l)
        raise Unsupported("range with symbolic bounds")
    lists = [it.segments(a) for a in args]
    out = []
    while all(lists):
        heads = [l[0] for l in lists]
        if any(isinstance(h, Star) for h in heads):
            if all(isinstance(h, Star) for h in heads):
                s0 = heads[0]
                if all(h.src == s0.src and _one_to_one(h) for h in heads):
                    out.append(zip_stars(heads))
                    lists = [l[1:] for l in lists]
                    continue
            h = it.eng.models.get("zip")
            if h is not None:
                r = h(it, lists, out)
                if r is not None:
                    return r
            # symbolic range against a star: enumerate
            raise Unsupported("zip of unbounded lists")
        out.append(tuple(heads))
        lists = [l[1:] for l in lists]
    # a leftover star on one side may be empty or not: irrelevant, the other ended
    return VList(out)


def _one_to_one(s):
    return s.cases is None or all(len(vs) == 1 for _, vs in s.cases)


def to_term(n):
    return n.t if isinstance(n, Sym) else z3.IntVal(n)


def swap(l):
    out = []
    for x in l.items:
        if isinstance(x, Star):
            out.append(Star(x.src, lambda i2, name, x=x: tuple(reversed(x.gen(i2, name))), None, False, x.tag))
        else:
            out.append(tuple(reversed(x)))
    return VList(out)


def zip_stars(stars):
    s0 = stars[0]

    def gen(it, name):
        raise Unsupported("zip element")

    def gen(it, name, stars=stars):
        vals = []
        for s in stars:
            if s.cases is None:
                vals.append(s.gen(it, name))
            else:
                ren = Cloner((s.src + "[g]", name))
                vals.extend(it.pick_case([(ren.term(f), ren, vs) for f, vs in s.cases]))
        return tuple(vals)

    return Star(s0.src, gen, None, False, s0.tag)


def b_enumerate(it, args, kw):
    start = args[1] if len(args) > 1 else kw.entries.get("start", 0)
    segs = it.segments(args[0])
    out = []
    idx = start
    for x in segs:
        if isinstance(x, Star):
            if not _one_to_one(x):
                raise Unsupported("enumerate of a filtered list")
            base = idx

            def gen(i2, name, x=x, base=base):
                n = z3.Int(name + ".idx")
                i2.path.assume(n >= 0)
                i2.path.assume(n < z3.Int(f"len({x.src})"))
                if x.cases is None:
                    v = x.gen(i2, name)
                else:
                    ren = Cloner((x.src + "[g]", name))
                    v = i2.pick_case([(ren.term(f), ren, vs) for f, vs in x.cases])[0]
                return (mk(zint(base) + n), v)

            out.append(Star(x.src, gen, None, False, x.tag))
            n = z3.Int(f"len({x.src})")
            it.path.assume(n >= 0)
            idx = mk(zint(idx) + n)
        else:
            out.append((idx, x))
            idx = it.binop(ast.Add(), idx, 1)
    return VList(out)


def b_range(it, args, kw):
    a = [it.scalar(x) for x in args]
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1 and isinstance(a[0], Sym):
            return UpTo(a[0].t)
        raise Unsupported("range with symbolic bounds")
    return VList(list(range(*a)))


def b_filter(it, args, kw):
    fn = it.force(args[0])
    acc = VList()
    fr = Frame({})
    fr.locals["$acc"] = acc
    fr.locals["$fn"] = fn

    def run(i2, f, e):
        g = f.locals["$fn"]
        r = e if g is None else i2.call(g, [e], VDict())
        if i2.truth(r):
            f.locals["$acc"].items.append(e)

    it.loop(args[1], fr, run)
    return acc


def b_map(it, args, kw):
    fn = it.force(args[0])
    if len(args) != 2:
        raise Unsupported("map with several iterables")
    acc = VList()
    fr = Frame({})
    fr.locals["$acc"] = acc
    fr.locals["$fn"] = fn

    def run(i2, f, e):
        f.locals["$acc"].items.append(i2.call(f.locals["$fn"], [e], VDict()))

    it.loop(args[1], fr, run)
    return acc


def b_reversed(it, args, kw):
    segs = it.segments(args[0])
    if any(isinstance(s, Star) for s in segs):
        raise Unsupported("reversed unbounded list")
    return VList(segs[::-1])


def b_next(it, args, kw):
    v = it.force(args[0])
    if not isinstance(v, VList):
        raise Unsupported("next()")
    ok, x = it.first(v)
    if ok:
        v.items = v.items[1:]
        return x
    if len(args) > 1:
        return args[1]
    it.throw(StopIteration)


def b_iter(it, args, kw):
    return VList(it.segments(args[0]))


def b_callable(it, args, kw):
    v = it.force(args[0])
    return callable(v) or isinstance(v, (VFunc, BoundMethod, VMethod))


def b_id(it, args, kw):
    return id(it.force(args[0]))


def b_abs(it, args, kw):
    v = it.scalar(args[0])
    if isinstance(v, Sym):
        return mk(z3.If(v.t < 0, -v.t, v.t))
    return abs(v)


def b_print(it, args, kw):
    return None


def b_issubclass(it, args, kw):
    return issubclass(it.force(args[0]), it.force(args[1]))


def b_ceil(it, args, kw):
    v = it.force(args[0])
    if isinstance(v, VRatio):
        if isinstance(v.den, int) and v.den > 0:
            return mk(-((-zint(v.num)) / z3.IntVal(v.den)))
        raise Unsupported("ceil")
    v = it.scalar(v)
    if isinstance(v, Sym):
        return v
    return math.ceil(v)


def b_floor(it, args, kw):
    v = it.force(args[0])
    if isinstance(v, VRatio):
        if isinstance(v.den, int) and v.den > 0:
            return mk(zint(v.num) / z3.IntVal(v.den))
        raise Unsupported("floor")
    v = it.scalar(v)
    if isinstance(v, Sym):
        return v
    return math.floor(v)


def b_deepcopy(it, args, kw):
    v = args[0]
    if isinstance(v, Lazy):
        return v
    return DeepCopier(it)(it.force(v))


class DeepCopier(Cloner):
    """copy.deepcopy, including the __deepcopy__ methods of repository classes."""

    def __init__(self, it):
        super().__init__()
        self.it = it

    def __call__(self, v):
        if isinstance(v, VObj) and isinstance(v.cls, type) and id(v) not in self.memo:
            m = self.it.lookup_class(v.cls, "__deepcopy__")
            if isinstance(m, types.FunctionType):
                c = self.it.call(m, [v, VDict()])
                self.memo[id(v)] = (v, c)
                return c
        return super().__call__(v)


def b_copy(it, args, kw):
    v = it.force(args[0])
    if isinstance(v, VList):
        return VList(list(v.items))
    if isinstance(v, VDict):
        return it.dcopy(v)
    if isinstance(v, VObj):
        c = object.__new__(type(v))
        c.__dict__.update(v.__dict__)
        c.attrs = dict(v.attrs)
        return c
    if isinstance(v, VSet):
        return VSet(list(v.items))
    return v


def b_super(it, args, kw):
    return VSuper(args[0], args[1])


def b_object(it, args, kw):
    return VObj(object)


def _re_term(name, pat, s):
    return z3.String(f"{name}({pat!r},{s.t})")


class MatchModel(Model):
    """Result of re.search/fullmatch/match on a symbolic string."""

    def __init__(self, key, pattern, term):
        self.key, self.pattern, self.term = key, pattern, term

    def group(self, it, n):
        f = uf(f"re.group.{self.key}.{n}", STR, STR)
        names = re.compile(self.pattern).groups
        if isinstance(n, int) and n > names:
            it.throw(IndexError, "no such group")
        if n == 0:
            return Sym(f(self.term))
        opt = uf(f"re.has.{self.key}.{n}", STR, BOOL)
        if group_optional(self.pattern, n) and not it.path.decide(opt(self.term)):
            return None
        if digits_group(self.pattern, n):
            it.path.assume(IS_INT_STR(f(self.term)))
            it.path.assume(INT_OF_STR(f(self.term)) >= 0)
            it.path.assume(z3.Length(f(self.term)) > 0)
        return Sym(f(self.term))

    def m_group(self, it, args, kw):
        if not args:
            return self.group(it, 0)
        if len(args) == 1:
            return self.group(it, args[0])
        return tuple(self.group(it, a) for a in args)

    def m_groups(self, it, args, kw):
        n = re.compile(self.pattern).groups
        return tuple(self.group(it, i) for i in range(1, n + 1))

    def getitem(self, it, k):
        return self.group(it, k)


def group_optional(pattern, n):
    import re._parser as sp

    def walk(seq, opt):
        for op, av in seq:
            name = str(op)
            if name == "SUBPATTERN":
                if av[0] == n:
                    return opt
                r = walk(av[3], opt)
                if r is not None:
                    return r
            elif name in ("MAX_REPEAT", "MIN_REPEAT"):
                r = walk(av[2], opt or av[0] == 0)
                if r is not None:
                    return r
            elif name == "BRANCH":
                for b in av[1]:
                    r = walk(b, True)
                    if r is not None:
                        return r
        return None

    return bool(walk(sp.parse(pattern), False))


def digits_group(pattern, n):
    import re._parser as sp

    found = []

    def walk(seq):
        for op, av in seq:
            name = str(op)
            if name == "SUBPATTERN":
                if av[0] == n:
                    found.append(str(av[3]))
                walk(av[3])
            elif name in ("MAX_REPEAT", "MIN_REPEAT"):
                walk(av[2])
            elif name == "BRANCH":
                for b in av[1]:
                    walk(b)

    walk(sp.parse(pattern))
    want = []

    def grab(p):
        want.append(str(sp.parse(p)))

    grab(r"\d+")
    return bool(found) and found[0] in want


def re_call(kind):
    fn = {"search": re.search, "match": re.match, "fullmatch": re.fullmatch}[kind]

    def h(it, args, kw):
        pat = it.force(args[0])
        if isinstance(pat, re.Pattern):
            pat = pat.pattern
        s = it.scalar(args[1])
        if not isinstance(pat, str):
            raise Unsupported("symbolic regular expression")
        if isinstance(s, Sym) and s.kind == "str":
            key = f"{kind}:{pat}"
            from . import regex

            rx = regex.to_z3(pat, kind)
            if rx is not None:
                cond = z3.InRe(s.t, rx)
            else:
                cond = uf(f"re.{key}", STR, BOOL)(s.t)
            if it.path.decide(cond):
                return MatchModel(key, pat, s.t)
            return None
        if not isinstance(s, str):
            it.throw(TypeError, "expected string or bytes-like object")
        m = fn(pat, s)
        return ConcreteMatch(m) if m is not None else None

    return h


class ConcreteMatch(Model):
    def __init__(self, m):
        self.m = m

    def m_group(self, it, args, kw):
        return it.lift(self.m.group(*[it.concrete(a) for a in args]))

    def m_groups(self, it, args, kw):
        return it.lift(self.m.groups(*[it.concrete(a) for a in args]))

    def getitem(self, it, k):
        return self.m[it.concrete(k)]


class PatternModel(Model):
    def __init__(self, pat):
        self.pat = pat

    def m_search(self, it, args, kw):
        return re_call("search")(it, [self.pat] + args, kw)

    def m_match(self, it, args, kw):
        return re_call("match")(it, [self.pat] + args, kw)

    def m_fullmatch(self, it, args, kw):
        return re_call("fullmatch")(it, [self.pat] + args, kw)


def b_re_compile(it, args, kw):
    return PatternModel(it.concrete(args[0]))


def b_re_sub(it, args, kw):
    pat, rep, s = it.concrete(args[0]), it.concrete(args[1]), it.scalar(args[2])
    if isinstance(s, Sym):
        return Sym(uf(f"re.sub.{pat}.{rep}", STR, STR)(s.t))
    return re.sub(pat, rep, s)


def finite_values(it, o):
    """The constants a string is known to be one of (empty: not known)."""
    t = zs(o)

    def of(f):
        if z3.is_eq(f):
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if a.eq(t) and z3.is_string_value(b):
                    return [zstr_value(b)]
            return None
        if z3.is_or(f):
            out = []
            for c in f.children():
                w = of(c)
                if w is None:
                    return None
                out += w
            return out
        return None

    for f in it.path.pc:
        w = of(f)
        if w:
            return w
    return []


class JsonText(Model):
    """The text json.dumps gives for a value: only json.loads reads it."""

    def __init__(self, value):
        self.value = value

    def clone(self, memo, cloner):
        return JsonText(cloner(self.value))

    def same(self, sm, it, o, where, depth):
        if not isinstance(o, JsonText):
            sm.fail(it, where, self, o)
        sm(it, self.value, o.value, where, depth + 1)


def b_dumps(it, args, kw):
    if set(kw.entries) - {"indent", "separators", "sort_keys", "ensure_ascii"}:
        raise Unsupported("json.dumps options")
    v = it.force(args[0])
    try:
        import json

        return json.dumps(it.concrete(v), **{k: it.concrete(x) for k, x in kw.entries.items()})
    except Unsupported:
        return JsonText(b_deepcopy(it, [v], kw))


def b_loads(it, args, kw):
    v = it.force(args[0])
    if isinstance(v, JsonText):
        return b_deepcopy(it, [v.value], kw)
    import json

    try:
        return it.lift(json.loads(it.concrete(v)))
    except ValueError as e:
        it.throw(type(e) if type(e) is ValueError else ValueError, str(e))


BUILTINS = {
    len: b_len, isinstance: b_isinstance, hasattr: b_hasattr, getattr: b_getattr,
    setattr: b_setattr, type: b_type, vars: b_vars, list: b_list, tuple: b_tuple,
    dict: b_dict, set: b_set, frozenset: b_set, sorted: b_sorted, str: b_str, repr: b_repr,
    int: b_int, bool: b_bool, max: b_max, min: b_min, sum: b_sum, any: b_any, all: b_all,
    zip: b_zip, enumerate: b_enumerate, range: b_range, filter: b_filter, map: b_map,
    reversed: b_reversed, next: b_next, iter: b_iter, callable: b_callable, id: b_id,
    abs: b_abs, print: b_print, issubclass: b_issubclass, math.ceil: b_ceil,
    math.floor: b_floor, copy.deepcopy: b_deepcopy, copy.copy: b_copy, super: b_super,
    object: b_object, json.dumps: b_dumps, json.loads: b_loads,
    re.search: re_call("search"), re.match: re_call("match"),
    re.fullmatch: re_call("fullmatch"), re.compile: b_re_compile, re.sub: b_re_sub,
}


# --- methods -----------------------------------------------------------------


def call_method(it, o, name, args, kw):
    if isinstance(o, VSuper):
        if name == "__init__":
            return None
        if name == "__eq__":
            return NotImplemented
        raise Unsupported(f"super().{name}")
    if isinstance(o, VList):
        return list_method(it, o, name, args, kw)
    if isinstance(o, VDict):
        return dict_method(it, o, name, args, kw)
    if isinstance(o, VSet):
        return set_method(it, o, name, args, kw)
    if isinstance(o, str) or (isinstance(o, Sym) and o.kind == "str"):
        return str_method(it, o, name, args, kw)
    if isinstance(o, tuple):
        if name == "index" or name == "count":
            return getattr(o, name)(it.concrete(args[0]))
    if isinstance(o, bytes):
        return it.native(getattr(o, name), args, kw)
    raise Unsupported(f"method {name} of {type(o).__name__}")


def list_method(it, o, name, args, kw):
    if name == "append":
        o.items.append(args[0])
        o.dirty = True
        return None
    if name == "extend":
        o.items.extend(it.segments(args[0]))
        o.dirty = True
        return None
    if name == "insert":
        i = it.scalar(args[0])
        it.expand(o)
        if i == 0:
            o.items.insert(0, args[1])
        elif isinstance(i, int) and not o.has_star:
            o.items.insert(i, args[1])
        else:
            raise Unsupported("insert")
        o.dirty = True
        return None
    if name == "copy":
        return VList(list(o.items))
    if name == "pop":
        it.expand(o)
        i = it.scalar(args[0]) if args else -1
        if o.has_star:
            if i == 0:
                ok, x = it.first(o)
                if not ok:
                    it.throw(IndexError, "pop from empty list")
                o.items = o.items[1:]
                o.dirty = True
                return x
            if i == -1 and o.items and not isinstance(o.items[-1], Star):
                o.dirty = True
                return o.items.pop()
            raise Unsupported("pop from an unbounded list")
        if not o.items or not isinstance(i, int) or not (-len(o.items) <= i < len(o.items)):
            if isinstance(i, Sym):
                raise Unsupported("pop with a symbolic index")
            it.throw(IndexError, "pop from empty list")
        o.dirty = True
        return o.items.pop(i)
    if name == "remove":
        it.expand(o)
        i = 0
        while i < len(o.items):
            y = o.items[i]
            if isinstance(y, Star):
                if it.exists(y, lambda j, e: j.path.decide(j.eq(Cloner()(args[0]), e)), "remove"):
                    it.expand(o)
                    continue
                i += 1
                continue
            if it.path.decide(it.eq(args[0], y)):
                o.items.pop(i)
                o.dirty = True
                return None
            i += 1
        it.throw(ValueError, "list.remove(x): x not in list")
    if name == "reverse":
        if o.has_star:
            raise Unsupported("reverse")
        o.items.reverse()
        o.dirty = True
        return None
    if name == "index":
        if o.has_star:
            raise Unsupported("index")
        for i, y in enumerate(o.items):
            if it.path.decide(it.eq(args[0], y)):
                return i
        it.throw(ValueError, "not in list")
    if name == "count":
        n = 0
        for y in it.items_of(o):
            if it.path.decide(it.eq(args[0], y)):
                n += 1
        return n
    if name == "sort":
        r = b_sorted(it, [o], kw)
        o.items = r.items
        o.dirty = True
        return None
    if name == "clear":
        o.items = []
        o.dirty = True
        return None
    raise Unsupported(f"list.{name}")


def dict_method(it, o, name, args, kw):
    if name == "get":
        ok, v = it.dget(o, args[0])
        if ok:
            return v
        return args[1] if len(args) > 1 else kw.entries.get("default")
    if name == "pop":
        ok, v = it.dget(o, args[0])
        if ok:
            if getattr(o, "frozen", False):
                raise Unsupported("store into vars()")
            it.ddel(o, args[0])
            return v
        if len(args) > 1:
            return args[1]
        it.throw(KeyError, args[0])
    if name == "copy":
        return it.dcopy(o)
    if name == "items":
        return VList(it.dict_segments(o, "items"))
    if name == "keys":
        out = VList(it.dict_segments(o, "keys"))
        out.keys_of = o
        return out
    if name == "values":
        return VList(it.dict_segments(o, "values"))
    if name == "update":
        if getattr(o, "frozen", False):
            raise Unsupported("store into vars()")
        if args:
            v = it.force(args[0])
            if isinstance(v, dict):
                v = it.lift(v)
            it.dict_update(o, v)
        it.dict_update(o, kw)
        return None
    if name == "setdefault":
        ok, v = it.dget(o, args[0])
        if ok:
            return v
        d = args[1] if len(args) > 1 else None
        it.dset(o, args[0], d)
        return d
    if name == "clear":
        o.entries, o.dyn, o.rest, o.log = {}, [], None, False
        o.dirty = True
        return None
    if name == "__contains__":
        return it.contains(o, args[0])
    if name == "__getitem__":
        return it.getitem(o, args[0])
    if name == "popitem":
        raise Unsupported("popitem")
    raise Unsupported(f"dict.{name}")


def set_method(it, o, name, args, kw):
    if name == "add":
        if not it.contains(o, args[0]):
            o.items.append(args[0])
        return None
    if name in ("discard", "remove"):
        for i, y in enumerate(o.items):
            if it.path.decide(it.eq(args[0], y)):
                o.items.pop(i)
                return None
        if name == "remove":
            it.throw(KeyError, args[0])
        return None
    if name == "copy":
        return VSet(list(o.items))
    if name == "update":
        for a in args:
            for x in it.items_of(a):
                if not it.contains(o, x):
                    o.items.append(x)
        return None
    if name == "union":
        s = VSet(list(o.items))
        set_method(it, s, "update", args, kw)
        return s
    if name == "issubset":
        c = it.force(args[0])
        return all(it.contains(c, x) for x in o.items)
    raise Unsupported(f"set.{name}")


def case_conv(it, s, which):
    f = LOWER if which in ("lower", "casefold") else UPPER
    other = UPPER if f is LOWER else LOWER
    t = s.t
    d = t.decl().name() if t.num_args() else ""
    if d == f.name():
        return s
    if d == other.name():
        it.path.taints.add("lower/upper composition")
    return Sym(f(t))


def pieces(t):
    """The parts of a concatenation: Python strings and terms."""
    out = []

    def go(x):
        if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT):
            for c in x.children():
                go(c)
        elif z3.is_string_value(x):
            out.append(zstr_value(x))
        else:
            out.append(x)

    go(t)
    return out


def join_pieces(ps):
    out = ""
    for p in ps:
        out = _cat(out, p if isinstance(p, str) else Sym(p))
    return out


def cut(it, t, sep, side):
    """What is before and after the first (last) occurrence of a character, or None."""
    ps = pieces(t)
    order = range(len(ps)) if side == "l" else reversed(range(len(ps)))
    for i in order:
        p = ps[i]
        if isinstance(p, str):
            if sep in p:
                a, _, b = p.partition(sep) if side == "l" else p.rpartition(sep)
                return ps[:i] + [a], [b] + ps[i + 1:]
        elif it.path.decide(z3.Contains(p, zstr(sep))):
            a = z3.String(f"{side}split1({p},{sep}).0")
            b = z3.String(f"{side}split1({p},{sep}).1")
            it.path.assume(p == z3.Concat(a, zstr(sep), b))
            it.path.assume(z3.Not(z3.Contains(b if side == "r" else a, zstr(sep))))
            return ps[:i] + [a], [b] + ps[i + 1:]
    return None


def split_segments(it, o, sep, name):
    """s.split(sep): an unbounded list of strings, at least one element."""
    base = f"split({describe(o)},{sep!r})"

    def gen(i2, n):
        t = z3.String(n)
        if sep:
            i2.path.assume(z3.Not(z3.Contains(t, zstr(sep))))
        return Sym(t)

    first = z3.String(base + "/0")
    if sep:
        it.path.assume(z3.Not(z3.Contains(first, zstr(sep))))
        it.path.assume(z3.PrefixOf(first, zs(o)))
    return VList([Sym(first), Star(base + "/rest", gen)])


def str_method(it, o, name, args, kw):
    args = [it.scalar(a) if not isinstance(a, (tuple,)) else a for a in args]
    sym = isinstance(o, Sym) or any(
        isinstance(a, Sym) or (isinstance(a, tuple) and any(isinstance(x, Sym) for x in a))
        for a in args
    )
    if name == "join":
        segs = it.segments(args[0])
        if any(isinstance(s, Star) for s in segs):
            parts = []
            for s in segs:
                if isinstance(s, Star):
                    parts.append(f"*{s.src}:{[(str(f), [describe(x) for x in vs]) for f, vs in s.cases] if s.cases is not None else ''}")
                else:
                    parts.append(describe(s))
            if len(segs) == 1 and segs[0].cases is None and segs[0].src.startswith("split("):
                pass
            return Sym(z3.String(f"join({describe(o)},{'|'.join(parts)})"))
        out = ""
        for i, s in enumerate(segs):
            s = it.scalar(s)
            if it.kind_of(s) != "str":
                it.throw(TypeError, "sequence item: expected str instance")
            if i:
                out = _cat(out, o)
            out = _cat(out, s)
        return out
    if name == "format":
        try:
            return o.format(*[it.concrete(a) for a in args], **{k: it.concrete(v) for k, v in kw.entries.items()})
        except (Unsupported, AttributeError):
            return it.opaque_str("format", o, *args)
    if not sym:
        f = getattr(o, name)
        try:
            return it.lift(f(*[it.concrete(a) for a in args], **{k: it.concrete(v) for k, v in kw.entries.items()}))
        except Unsupported:
            raise
        except Exception as e:
            it.throw(type(e), *[x for x in e.args if isinstance(x, str)])
    if name in ("startswith", "endswith"):
        if len(args) > 1:
            raise Unsupported("startswith with offsets")
        pats = list(args[0]) if isinstance(args[0], tuple) else [args[0]]
        fs = []
        for p in pats:
            p = it.scalar(p)
            if it.kind_of(p) != "str":
                it.throw(TypeError, "startswith first arg must be str")
            fs.append(z3.PrefixOf(zs(p), zs(o)) if name == "startswith" else z3.SuffixOf(zs(p), zs(o)))
        return mk(z3.Or(fs)) if fs else False
    if name in ("lower", "upper", "casefold"):
        return case_conv(it, o, name)
    if name in ("strip", "lstrip", "rstrip", "title", "capitalize", "removeprefix", "removesuffix"):
        if name == "removeprefix":
            p = zs(args[0])
            n = z3.Length(p)
            return mk(z3.If(z3.PrefixOf(p, zs(o)), z3.SubString(zs(o), n, z3.Length(zs(o)) - n), zs(o)))
        if name == "removesuffix":
            p = zs(args[0])
            n = z3.Length(p)
            return mk(z3.If(z3.SuffixOf(p, zs(o)), z3.SubString(zs(o), 0, z3.Length(zs(o)) - n), zs(o)))
        if any(isinstance(a, Sym) for a in args):
            raise Unsupported(f"str.{name} with symbolic argument")
        f = uf(f"py.{name}({','.join(map(repr, args))})", STR, STR)
        r = f(zs(o))
        if name == "rstrip" and args and isinstance(args[0], str) and len(args[0]) == 1:
            c = zstr(args[0])
            it.path.assume(z3.PrefixOf(r, zs(o)))
            it.path.assume(z3.Not(z3.SuffixOf(c, r)))
            it.path.assume(z3.Implies(z3.Not(z3.SuffixOf(c, zs(o))), r == zs(o)))
        if name == "lstrip" and args and isinstance(args[0], str) and len(args[0]) == 1:
            c = zstr(args[0])
            it.path.assume(z3.SuffixOf(r, zs(o)))
            it.path.assume(z3.Not(z3.PrefixOf(c, r)))
            it.path.assume(z3.Implies(z3.Not(z3.PrefixOf(c, zs(o))), r == zs(o)))
        if name == "strip" and args and isinstance(args[0], str) and len(args[0]) == 1:
            c = zstr(args[0])
            it.path.assume(z3.Not(z3.PrefixOf(c, r)))
            it.path.assume(z3.Not(z3.SuffixOf(c, r)))
            it.path.assume(z3.Contains(zs(o), r))
            it.path.assume(z3.Implies(z3.Not(z3.Or(z3.PrefixOf(c, zs(o)), z3.SuffixOf(c, zs(o)))), r == zs(o)))
        return Sym(r)
    if name == "replace":
        a, b = args[0], args[1]
        cnt = args[2] if len(args) > 2 else kw.entries.get("count", -1)
        if cnt == 1 and isinstance(a, str) and len(a) == 1:
            c = cut(it, zs(o), a, "l")
            return o if c is None else join_pieces(c[0] + [b if isinstance(b, str) else zs(b)] + c[1])
        if cnt == 1:
            return mk(z3.Replace(zs(o), zs(a), zs(b)))
        if isinstance(a, str) and isinstance(b, str):
            for w in finite_values(it, o):
                if it.path.decide(zs(o) == zstr(w)):
                    return w.replace(a, b, cnt)
            r = uf(f"py.replace({a!r},{b!r},{cnt})", STR, STR)(zs(o))
            it.path.assume(z3.Implies(z3.Not(z3.Contains(zs(o), zstr(a))), r == zs(o)))
            if cnt == -1 and a and a not in b:
                it.path.assume(z3.Not(z3.Contains(r, zstr(a))))
            return Sym(r)
        f = uf("py.replace", STR, STR, STR, STR)
        return Sym(f(zs(o), zs(a), zs(b)))
    if name in ("rsplit", "rpartition", "split", "partition"):
        sep = args[0] if args else kw.entries.get("sep")
        maxs = args[1] if len(args) > 1 else kw.entries.get("maxsplit", -1)
        if name in ("rpartition", "partition"):
            maxs = 1
        if isinstance(sep, str) and len(sep) == 1 and maxs == 1:
            side = "r" if name.startswith("r") else "l"
            c = cut(it, zs(o), sep, side)
            if c is None:
                return ("", "", o) if name == "rpartition" else (o, "", "") if name == "partition" else VList([o])
            c = [join_pieces(x) for x in c]
            return (c[0], sep, c[1]) if name in ("rpartition", "partition") else VList(c)
        if name == "split" and isinstance(sep, str) and maxs == -1:
            return split_segments(it, o, sep, name)
        raise Unsupported(f"str.{name}")
    if name == "encode":
        return Opaque(f"encode({describe(o)})")
    if name in ("isdigit", "isnumeric", "isidentifier", "isalpha", "isalnum", "isupper", "islower", "isspace"):
        return mk(uf(f"py.{name}", STR, BOOL)(zs(o)))
    if name == "count":
        return Sym(uf("py.count", STR, STR, INT)(zs(o), zs(args[0])))
    if name in ("find", "index"):
        r = z3.IndexOf(zs(o), zs(args[0]), 0)
        if name == "index" and it.path.decide(r < 0):
            it.throw(ValueError, "substring not found")
        return mk(r)
    if name == "__contains__":
        return it.contains(o, args[0])
    raise Unsupported(f"str.{name} of a symbolic string")


def _cat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    return mk(z3.Concat(zs(a), zs(b)))


# inspect.signature of repository constructors is concrete; let it run natively
from .interp import NATIVE_OK_MODULES  # noqa: E402
