"""Input descriptions.  A sort describes the inputs a contract quantifies over and
knows how to make a symbolic skeleton (sym), a concrete instance from a solver model
(conc) and a random instance for the bounded stand-in (rand)."""
from __future__ import annotations

import z3

from .interp import LOWER, Model, UPPER, INT_OF_STR, IS_INT_STR, Universe, zs
from .values import *
from .values import _OTH_BACK

BOUNDED = {"n": None}  # None: unbounded lists; otherwise the maximal list length


class Conc:
    """Reads a solver model."""

    def __init__(self, model, path):
        self.model = model
        self.path = path
        self.mentioned = set()
        self.apps = {}  # const name -> list of (uf name, app)
        seen = set()
        stack = list(path.pc)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                self.mentioned.add(x.decl().name())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1:
                a = x.arg(0)
                if z3.is_app(a) and a.decl().name() == "s" and a.num_args() == 1:
                    a = a.arg(0)
                if z3.is_const(a):
                    self.apps.setdefault(a.decl().name(), []).append(x)
            stack.extend(x.children())

    def ev(self, t):
        return self.model.eval(t, model_completion=True)

    def touches(self, prefix):
        return any(n.startswith(prefix) or ("(" + prefix) in n for n in self.mentioned)

    def string(self, name, default="x"):
        if name not in self.mentioned:
            return default
        v = zstr_value(self.ev(z3.String(name)))
        return self.fix(name, v, default)

    def fix(self, name, v, default):
        for app in self.apps.get(name, ()):
            fn = app.decl().name()
            w = self.ev(app)
            if fn == "py.lower":
                w = zstr_value(w)
                if v.lower() != w:
                    return w if w.lower() == w else default
            elif fn == "py.upper":
                w = zstr_value(w)
                if v.upper() != w:
                    return w if w.upper() == w else default
            elif fn == "py.int":
                isint = self.ev(IS_INT_STR(app.arg(0)))
                if z3.is_true(isint):
                    return str(w.as_long())
            elif fn == "py.is_int":
                if z3.is_true(w):
                    n = self.ev(INT_OF_STR(app.arg(0)))
                    return str(n.as_long())
        return v

    def integer(self, name, default=1):
        if name not in self.mentioned:
            return default
        return self.ev(z3.Int(name)).as_long()

    def boolean(self, name, default=False):
        if name not in self.mentioned:
            return default
        return z3.is_true(self.ev(z3.Bool(name)))

    def val(self, name, default=None):
        if name not in self.mentioned:
            return default
        t = self.ev(z3.Const(name, Val))
        d = t.decl().name()
        if d == "vnone":
            return None
        if d == "vbool":
            return z3.is_true(t.arg(0))
        if d == "vint":
            return t.arg(0).as_long()
        if d == "vstr":
            return self.fix(name, zstr_value(t.arg(0)), "x")
        n = t.arg(0).as_long()
        return _OTH_BACK.get(n, 1.5 + n)


class Sort:
    def opt(self):
        return Opt(self)


class Str(Sort):
    def __init__(self, words=(), default="x", nonempty=False, regex=None):
        self.words, self.default, self.nonempty, self.regex = list(words), default, nonempty, regex

    def sym(self, it, name):
        t = z3.String(name)
        if self.nonempty:
            it.path.assume(t != z3.StringVal(""))
        if self.regex is not None:
            from . import regex

            it.path.assume(z3.InRe(t, regex.to_z3(self.regex, "fullmatch")))
        return Sym(t)

    def conc(self, c, name):
        return c.string(name, self.default)

    def rand(self, r):
        k = r.random()
        if self.words and k < 0.6:
            w = r.choice(self.words)
            if self.regex is None and r.random() < 0.15:
                w = r.mutate(w)
            return w
        if r.lits and k < 0.85 and self.regex is None:
            w = r.choice(r.lits)
            if self.nonempty and not w:
                return self.default
            return w
        if self.regex is not None:
            import re

            for _ in range(20):
                s = r.word() + "." + r.word()
                if re.fullmatch(self.regex, s):
                    return s
            return self.default
        s = r.word()
        return s or (self.default if self.nonempty else "")


class Int(Sort):
    def __init__(self, lo=None, hi=None, default=1, picks=(), randhi=None):
        self.lo, self.hi, self.default, self.picks = lo, hi, default, list(picks)
        self.randhi = randhi if randhi is not None else hi

    def sym(self, it, name):
        t = z3.Int(name)
        if self.lo is not None:
            it.path.assume(t >= self.lo)
        if self.hi is not None:
            it.path.assume(t <= self.hi)
        return Sym(t)

    def conc(self, c, name):
        d = self.default
        if self.lo is not None and d < self.lo:
            d = self.lo
        return c.integer(name, d)

    def rand(self, r):
        for _ in range(20):
            n = r.choice(self.picks) if self.picks and r.random() < 0.7 else r.number()
            if (self.lo is None or n >= self.lo) and (self.randhi is None or n <= self.randhi):
                return n
        return self.lo if self.lo is not None else self.default


class Bool(Sort):
    def sym(self, it, name):
        return Sym(z3.Bool(name))

    def conc(self, c, name):
        return c.boolean(name)

    def rand(self, r):
        return r.random() < 0.5


class Const(Sort):
    def __init__(self, v):
        self.v = v

    def sym(self, it, name):
        return it.lift(self.v)

    def conc(self, c, name):
        return self.v

    def rand(self, r):
        return self.v


class Choice(Sort):
    """One of a few concrete values."""

    def __init__(self, *values):
        self.values = values

    def sym(self, it, name):
        t = z3.Int(name + ".choice")
        it.path.assume(z3.And(t >= 0, t < len(self.values)))
        for i, v in enumerate(self.values[:-1]):
            if it.path.decide(t == i):
                return it.lift(v)
        return it.lift(self.values[-1])

    def conc(self, c, name):
        i = c.integer(name + ".choice", 0)
        return self.values[i] if 0 <= i < len(self.values) else self.values[0]

    def rand(self, r):
        return r.choice(self.values)


class Scalar(Sort):
    """None, bool, int, str or some other immutable value, restricted to kinds."""

    def __init__(self, kinds=("none", "bool", "int", "str", "oth"), lo=None, hi=None, words=(), picks=()):
        self.kinds, self.lo, self.hi, self.words, self.picks = kinds, lo, hi, list(words), list(picks)

    def sym(self, it, name):
        t = z3.Const(name, Val)
        rec = {
            "none": Val.is_vnone, "bool": Val.is_vbool, "int": Val.is_vint,
            "str": Val.is_vstr, "oth": Val.is_voth,
        }
        if len(self.kinds) < 5:
            it.path.assume(z3.Or([rec[k](t) for k in self.kinds]))
        if self.lo is not None:
            it.path.assume(z3.Implies(Val.is_vint(t), Val.i(t) >= self.lo))
        if self.hi is not None:
            it.path.assume(z3.Implies(Val.is_vint(t), Val.i(t) <= self.hi))
        return Sym(t)

    def conc(self, c, name):
        d = None
        if "none" not in self.kinds:
            d = {"str": "x", "int": max(1, self.lo or 1), "bool": False}.get(self.kinds[-1], "x")
        return c.val(name, d)

    def rand(self, r):
        k = r.choice(self.kinds)
        if k == "none":
            return None
        if k == "bool":
            return r.random() < 0.5
        if k == "int":
            return Int(self.lo, self.hi, picks=self.picks).rand(r)
        if k == "str":
            return Str(self.words).rand(r)
        return 1.5


def OptStr(words=()):
    return Scalar(("none", "str"), words=words)


def OptInt(lo=None, hi=None, picks=()):
    return Scalar(("none", "int"), lo=lo, hi=hi, picks=picks)


class ListOf(Sort):
    def __init__(self, elem, minlen=0, maxrand=3, as_tuple=False):
        self.elem, self.minlen, self.maxrand, self.as_tuple = elem, minlen, maxrand, as_tuple

    def gen(self, it, name):
        return self.elem.sym(it, name)

    def sym(self, it, name):
        if BOUNDED["n"] is not None:
            n = z3.Int(f"len({name})")
            it.path.assume(z3.And(n >= self.minlen, n <= max(self.minlen, BOUNDED["n"])))
            k = self.minlen
            while k < max(self.minlen, BOUNDED["n"]):
                if it.path.decide(n == k):
                    break
                k += 1
            items = [self.elem.sym(it, f"{name}[{i}]") for i in range(k)]
            lst = VList(items, name)
        else:
            items = [self.elem.sym(it, f"{name}[{i}]") for i in range(self.minlen)]
            lst = VList(items + [Star(name, self.gen)], name)
            n = z3.Int(f"len({name})")
            it.path.assume(n >= 0)
        return tuple(lst.items) if self.as_tuple and not lst.has_star else lst

    def conc(self, c, name):
        out = []
        if BOUNDED["n"] is not None:
            n = c.integer(f"len({name})", self.minlen)
            return [self.elem.conc(c, f"{name}[{i}]") for i in range(max(0, min(n, 5)))]
        out = [self.elem.conc(c, f"{name}[{i}]") for i in range(self.minlen)]
        out += self.conc_src(c, name)
        return out

    def conc_src(self, c, src):
        if src in c.path.splits:
            out = []
            for kind, n in c.path.splits[src]:
                if kind == "star":
                    out += self.conc_src(c, n)
                else:
                    out.append(self.elem.conc(c, n))
            return out
        if src in c.path.empty_sources():
            return []
        want = c.integer(f"len({src})", -1)
        g = src + "[g]"
        if c.touches(g):
            n = 1 if want < 1 else min(want, 3)
            return [self.elem.conc(c, g) for _ in range(n)]
        if want > 0:
            return [self.elem.conc(c, g) for _ in range(min(want, 3))]
        return []

    def rand(self, r):
        n = max(self.minlen, r.randint(0, self.maxrand if r.depth < 6 else 0))
        return [self.elem.rand(r.sub()) for _ in range(n)]


class DictOf(Sort):
    """Dict with these keys; Maybe(sort) marks optional ones."""

    def __init__(self, fields, rest=None, excluded=()):
        self.fields, self.rest, self.excluded = fields, rest, tuple(excluded)

    def sym(self, it, name):
        d = VDict(name=name)
        for k, s in self.fields.items():
            if isinstance(s, Maybe):
                continue
            d.entries[k] = s.sym(it, f"{name}.{k}")
        maybes = {k: s for k, s in self.fields.items() if isinstance(s, Maybe)}
        if maybes or self.rest is not None:
            known = set(self.fields)

            def valgen(i2, nm, key, self=self, maybes=maybes):
                if key in maybes:
                    return maybes[key].sort.sym(i2, nm)
                return (self.rest or Scalar()).sym(i2, nm)

            excl = (set(self.excluded) - set(maybes)) | {k for k, x in self.fields.items() if not isinstance(x, Maybe)}
            d.rest = Rest(name, valgen, excl)
            if self.rest is None:
                d.rest.closed = frozenset(maybes)
                # only the optional keys may be present
                for k in maybes:
                    it.dget(d, k)
                d.rest = None
                d.seen = set()
        d.dirty = False
        return d

    def conc(self, c, name):
        out = {}
        for k, s in self.fields.items():
            if isinstance(s, Maybe):
                if c.boolean(f"{name}.has.{k}"):
                    out[k] = s.sort.conc(c, f"{name}.val.{k}")
            else:
                out[k] = s.conc(c, f"{name}.{k}")
        if self.rest is not None:
            pre = f"{name}.has."
            for m in sorted(c.mentioned):
                if m.startswith(pre):
                    k = m[len(pre):]
                    if k not in self.fields and c.boolean(m):
                        out[k] = self.rest.conc(c, f"{name}.val.{k}")
            if c.integer(f"{name}.n", 0) > len(out):
                out["zz_other"] = self.rest.conc(c, f"{name}.val.zz_other")
        return out

    def rand(self, r):
        out = {}
        for k, s in self.fields.items():
            if isinstance(s, Maybe):
                if r.random() < 0.4:
                    out[k] = s.sort.rand(r.sub())
            else:
                out[k] = s.rand(r.sub())
        if self.rest is not None and r.random() < 0.3:
            for _ in range(r.randint(1, 2)):
                k = r.choice(["foo", "bar", "baz", "zz_other"] + [w for w in r.lits if w.isidentifier()])
                if k not in self.excluded and k not in self.fields:
                    out[k] = self.rest.rand(r.sub())
        return out


class Maybe:
    def __init__(self, sort):
        self.sort = sort


class Opt(Sort):
    """None or the sort."""

    def __init__(self, sort):
        self.sort = sort

    def sym(self, it, name):
        if isinstance(self.sort, (Str, Int, Bool)):
            raise EngineError("use Scalar")

        def gen(i2, n, self=self):
            if i2.path.decide(z3.Bool(n + ".none")):
                return None
            return self.sort.sym(i2, n)

        return Lazy(name, gen)

    def conc(self, c, name):
        if c.boolean(name + ".none", True):
            return None
        return self.sort.conc(c, name)

    def rand(self, r):
        return None if r.random() < 0.4 else self.sort.rand(r.sub())


class Union(Sort):
    """One of several sorts, decided lazily."""

    def __init__(self, *sorts):
        self.sorts = sorts

    def sym(self, it, name):
        def gen(i2, n, self=self):
            t = z3.Int(n + ".kind")
            i2.path.assume(z3.And(t >= 0, t < len(self.sorts)))
            for i, s in enumerate(self.sorts[:-1]):
                if i2.path.decide(t == i):
                    return i2.force(s.sym(i2, n))
            return i2.force(self.sorts[-1].sym(i2, n))

        return Lazy(name, gen)

    def conc(self, c, name):
        i = c.integer(name + ".kind", 0)
        if not 0 <= i < len(self.sorts):
            i = 0
        return self.sorts[i].conc(c, name)

    def rand(self, r):
        return r.choice(self.sorts).rand(r)


class Ref(Sort):
    """Reference to a sort defined later (recursion)."""

    def __init__(self, get):
        self.get = get

    def sym(self, it, name):
        return Lazy(name, lambda i2, n: i2.force(self.get().sym(i2, n)))

    def conc(self, c, name):
        if not c.touches(name):
            return self.get().default(c, name)
        return self.get().conc(c, name)

    def rand(self, r):
        return self.get().rand(r)


class Obj(Sort):
    """An object of one of several classes.

    classes: list of (cls, {attr: sort}); common: attrs shared by all;
    build(cls, attrs) -> native object; dflt: index of the class used when the
    object is not constrained and depth is exhausted."""

    def __init__(self, name, classes, common=None, build=None, dflt=0, leaves=None):
        self.name = name
        self.classes = classes
        self.common = common or {}
        self.build = build or (lambda cls, attrs: cls(**attrs))
        self.dflt = dflt
        self.leaves = leaves if leaves is not None else list(range(len(classes)))
        self._univ = None

    @property
    def univ(self):
        if self._univ is None:
            self._univ = Universe(
                self.name,
                [(c, {a: s.sym for a, s in attrs.items()}) for c, attrs in self.classes],
                {a: s.sym for a, s in self.common.items()},
            )
        return self._univ

    def sym(self, it, name):
        o = VObj(None, {}, name, self.univ)
        if len(self.classes) == 1:
            o.cls = self.classes[0][0]
        return o

    def default(self, c, name):
        return self.make(c, name, self.dflt)

    def make(self, c, name, i):
        cls, attrs = self.classes[i]
        vals = {}
        for a, s in {**self.common, **attrs}.items():
            vals[a] = s.conc(c, f"{name}.{a}")
        return self.build(cls, vals)

    def conc(self, c, name):
        i = c.integer(f"{name}.cls", self.dflt)
        if not 0 <= i < len(self.classes):
            i = self.dflt
        return self.make(c, name, i)

    def rand(self, r):
        idx = self.leaves if r.depth > 3 else list(range(len(self.classes)))
        cls, attrs = self.classes[r.choice(idx)]
        rr = r.sub()
        vals = {a: s.rand(rr) for a, s in {**self.common, **attrs}.items()}
        return self.build(cls, vals)


class Column(ListOf):
    """One of several parallel lists: attribute `part` of every element of the list
    `members` of the same object."""

    def __init__(self, part, elem, maxrand=3):
        super().__init__(elem, 0, maxrand)
        self.part = part

    def base(self, name):
        return name[:name.rindex(".")] + ".members"

    def gen(self, it, name):
        return self.elem.sym(it, f"{name}.{self.part}")

    def sym(self, it, name):
        b = self.base(name)
        n = z3.Int(f"len({b})")
        if BOUNDED["n"] is not None:
            it.path.assume(z3.And(n >= 0, n <= BOUNDED["n"]))
            k = 0
            while k < BOUNDED["n"]:
                if it.path.decide(n == k):
                    break
                k += 1
            return VList([self.gen(it, f"{b}[{i}]") for i in range(k)], name)
        it.path.assume(n >= 0)
        return VList([Star(b, self.gen)], name)

    def conc(self, c, name):
        b = self.base(name)
        if BOUNDED["n"] is not None:
            n = c.integer(f"len({b})", 0)
            return [self.elem.conc(c, f"{b}[{i}].{self.part}") for i in range(max(0, min(n, 5)))]
        return ListOf(_Part(self.part, self.elem)).conc_src(c, b)


class _Part(Sort):
    def __init__(self, part, elem):
        self.part, self.elem = part, elem

    def conc(self, c, name):
        return self.elem.conc(c, f"{name}.{self.part}")


# ---- dictionaries with any number of keys, lists used as sets --------------------
class Pair(Sort):
    def __init__(self, key, val):
        self.key, self.val = key, val

    def sym(self, it, name):
        return (self.key.sym(it, name + ".key"), self.val.sym(it, name + ".value"))

    def conc(self, c, name):
        return (self.key.conc(c, name + ".key"), self.val.conc(c, name + ".value"))

    def rand(self, r):
        return (self.key.rand(r), self.val.rand(r))


class PairsModel(Model):
    """A dict with any number of (distinct) keys, only read by iteration."""

    pycls = dict

    def __init__(self, pairs):
        self.pairs = pairs

    def clone(self, memo, cloner):
        return PairsModel(cloner(self.pairs))

    def m_items(self, it, args, kw):
        return VList(list(it.expand(self.pairs).items))

    def part(self, it, i):
        out = []
        for x in it.expand(self.pairs).items:
            if isinstance(x, Star):
                gen = x.gen
                s = Star(x.src, lambda i2, n, gen=gen, i=i: gen(i2, n)[i], None, x.opaque, x.tag)
                out.append(s)
            else:
                out.append(x[i])
        return out

    def m_keys(self, it, args, kw):
        return VList(self.part(it, 0))

    def m_values(self, it, args, kw):
        return VList(self.part(it, 1))

    def segments(self, it):
        return self.part(it, 0)

    def same(self, sm, it, o, where, depth):
        if not isinstance(o, PairsModel):
            sm.fail(it, where, self, o)
        sm(it, self.pairs, o.pairs, where, depth + 1)


class MapOf(Sort):
    """dict of any size with string keys."""

    def __init__(self, key, val, maxrand=3):
        self.list = ListOf(Pair(key, val), maxrand=maxrand)

    def sym(self, it, name):
        return PairsModel(self.list.sym(it, name))

    def conc(self, c, name):
        return dict(self.list.conc(c, name))

    def rand(self, r):
        return dict(self.list.rand(r))


class MembersModel(Model):
    """A list of strings of which only membership is asked."""

    pycls = list

    def __init__(self, name):
        self.name = name

    def contains(self, it, x):
        x = it.scalar(x)
        if it.kind_of(x) != "str":
            return False
        return it.path.decide(z3.Function(f"in:{self.name}", STR, z3.BoolSort())(zs(x)))

    def as_set(self, it):
        return self

    def same(self, sm, it, o, where, depth):
        if not isinstance(o, MembersModel) or o.name != self.name:
            sm.fail(it, where, self, o)


class Members(Sort):
    def __init__(self, words):
        self.words = list(words)

    def sym(self, it, name):
        return MembersModel(name)

    def conc(self, c, name):
        f = z3.Function(f"in:{name}", STR, z3.BoolSort())
        out = []
        for n in sorted(c.mentioned):
            try:
                s = z3.String(n)
                v = zstr_value(c.ev(s))
            except Exception:
                continue
            if z3.is_true(c.ev(f(zstr(v)))) and v not in out:
                out.append(v)
        return out

    def rand(self, r):
        return [w for w in self.words if r.random() < 0.5]
