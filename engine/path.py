"""Paths: decision traces, path conditions and the depth-first explorer."""
from __future__ import annotations

import re
import time

import z3

from . import fork, strfast
from .values import *

z3.set_param("smt.random_seed", 1)


class Budget(Exception):
    """The exploration ran out of its budget."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.reused = 0
        self.fast = 0
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0


STATS = Stats()
_KEEP = []  # keeps z3 terms used as cache keys alive
_CACHE: dict = {}
TIMEOUT_MS = 4000
import os
SLOW = bool(os.environ.get('VERIF_SLOW'))


_NONE: list = []
_REN: dict = {}
_LITS: dict = {}


def triples(xs):
    return [(x.get_id(), x.arg(0).get_id() if z3.is_not(x) else None, x) for x in xs]


def literals(f):
    """[(id, id of the negated formula or None, literal)] of a path condition, one per
    decision that led to it."""
    r = _LITS.get(f.get_id())
    if r is None:
        xs = list(f.children()) if z3.is_and(f) else [] if z3.is_true(f) else [f]
        r = (f, triples(xs))
        _LITS[f.get_id()] = r
    return r[1]


def rename_name(n, old, new):
    """Rename an element: its name starts at `old`, never in the middle of a longer name."""
    if old not in n:
        return n
    r = _RX.get(old)
    if r is None:
        r = _RX[old] = re.compile(r"(?<![\w.\]/])" + re.escape(old))
    return r.sub(lambda m: new, n)


_RX: dict = {}


def rename_term(t, old, new):
    key = (t.get_id(), old, new)
    hit = _REN.get(key)
    if hit is not None:
        return hit[1]
    consts, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            m = rename_name(n, old, new)
            if m != n:
                consts.append((x, z3.Const(m, x.sort())))
        stack.extend(x.children())
    out = z3.substitute(t, *consts) if consts else t
    _REN[key] = (t, out)
    if consts and t.get_id() in _LITS:
        _LITS[out.get_id()] = (out, triples([z3.substitute(x, *consts) for _, _, x in _LITS[t.get_id()][1]]))
    return out


def conj(fs):
    fs = [f for f in fs if not z3.is_true(f)]
    if not fs:
        return z3.BoolVal(True)
    return fs[0] if len(fs) == 1 else z3.And(fs)


def disj(fs):
    return fs[0] if len(fs) == 1 else z3.Or(fs)


_CONSTS: dict = {}
_MODELS: dict = {}


def consts_of(t):
    """Names of the constants of a term."""
    hit = _CONSTS.get(t.get_id())
    if hit is not None:
        return hit[1]
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    out = frozenset(out)
    _CONSTS[t.get_id()] = (t, out)
    return out


_NONES: dict = {}


def none_names(t):
    hit = _NONES.get(t.get_id())
    if hit is None:
        hit = _NONES[t.get_id()] = (t, [n for n in consts_of(t) if n.startswith("none(")])
    return hit[1]


_ATOMS: dict = {}
_ABS: dict = {}


def atoms_of(t):
    """Constants and maximal applications of uninterpreted functions of a term."""
    hit = _ATOMS.get(t.get_id())
    if hit is not None:
        return hit[1]
    out, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.get_id()] = x
            else:
                stack.extend(x.children())
    _ATOMS[t.get_id()] = (t, out)
    return out


def abstract(t):
    """t with every application of an uninterpreted function replaced by a constant."""
    hit = _ABS.get(t.get_id())
    if hit is not None:
        return hit[1]
    sub = [(x, z3.Const(f"abs!{i}", x.sort())) for i, x in atoms_of(t).items() if x.num_args()]
    for x, _ in sub:
        _KEEP.append(x)
    out = z3.simplify(z3.substitute(t, *sub)) if sub else t
    _ABS[t.get_id()] = (t, out)
    return out


def holds(m, f):
    try:
        return z3.is_true(m.eval(f, model_completion=True))
    except z3.Z3Exception:
        return False


class Joint:
    """Models of independent components, read as one."""

    def __init__(self, parts):
        self.parts = parts

    def eval(self, t, model_completion=True):
        cs = consts_of(t)
        for pcs, m in self.parts:
            if cs & pcs:
                return m.eval(t, model_completion=model_completion)
        for pcs, m in self.parts:
            if not pcs:
                return m.eval(t, model_completion=model_completion)
        s = z3.Solver()
        s.check()
        return s.model().eval(t, model_completion=True)


class Path:
    """One execution path: a conjunction of decisions over named constants."""

    def __init__(self, prefix=(), parent=None, deadline=None):
        self.prefix = list(prefix)
        self.decisions = []  # (bool, forced)
        self.alts = []  # prefixes still to explore
        self.parent = parent
        self.deadline = deadline if deadline else (parent.deadline if parent else None)
        self.pc = list(parent.pc) if parent else []
        self.base = len(self.pc)
        self.trail = []  # what was assumed, one formula per decision
        self.lits = []  # the decisions alone; the rest of the trail holds for every input
        self.model = parent.model if parent else None
        if parent:
            self.taints = set(parent.taints)
            self.facts = dict(parent.facts)
            self.splits = dict(parent.splits)
            self.open = set(parent.open)
            self.forced = dict(parent.forced)
            self.pending = dict(parent.pending)
            self.applied = set(parent.applied)
            self.inputs = parent.inputs
            self.notes = list(parent.notes)
            self.store = parent.store
        else:
            self.taints = set()
            self.facts = {}
            self.splits = {}
            self.open = set()
            self.forced = {}
            self.pending = {}  # list -> propositions about its elements met inside formulas
            self.applied = set()
            self.inputs = {}
            self.notes = []
            self.store = {}
        self.counter = 0
        self.lifted = {}
        self.log = []

    def check(self, f, full=False):
        """Is pc and f satisfiable?  Returns 'sat', 'unsat' or 'unknown'.

        Only the part of the path condition that shares constants with f is given to
        the solver (the rest is satisfiable on its own); full=True gives all of it and
        sets self.model."""
        f = z3.simplify(f)
        if z3.is_false(f):
            return "unsat"
        if full:
            return self.check_full(f)
        ids = {g.get_id() for g in self.pc}
        if f.get_id() in ids:
            return "sat"
        if (f.arg(0) if z3.is_not(f) else z3.Not(f)).get_id() in ids:
            return "unsat"
        if z3.is_true(f):
            return "sat"
        else:
            sl = self.slice(f)
        ids = {g.get_id() for g in sl}
        key = (tuple(sorted(ids)), f.get_id())
        hit = _CACHE.get(key)
        if hit is not None:
            return hit[0]
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        part = self.slice_atoms(f)
        if len(part) < len(sl) or any(x.num_args() for g in [*part, f] for x in atoms_of(g).values()):
            r = self.check_abstract([abstract(g) for g in part], abstract(f))
            if r != "unknown":
                _KEEP.append((sl, f))
                _CACHE[key] = (r, None)
                return r
        fast = strfast.decide([*sl, f])
        if fast is not None:
            STATS.fast += 1
            _KEEP.append((sl, f))
            _CACHE[key] = (fast, None)
            return fast
        vkey = frozenset().union(*[consts_of(g) for g in sl], consts_of(f))
        pool = _MODELS.setdefault(vkey, [])
        for m in pool[:6]:
            if holds(m, f) and all(holds(m, g) for g in reversed(sl)):
                _KEEP.append((sl, f))
                _CACHE[key] = ("sat", m)
                STATS.reused += 1
                return "sat"
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", TIMEOUT_MS)
        s.add(*sl)
        s.add(f)
        r = str(s.check())
        m = s.model() if r == "sat" else None
        if r == "unknown":
            s2 = z3.Solver()
            s2.set("timeout", TIMEOUT_MS * 2)
            s2.set("random_seed", 7)
            s2.add(*sl)
            s2.add(f)
            r = str(s2.check())
            if r == "sat":
                m = s2.model()
            if r == "unknown":
                STATS.unknown += 1
        STATS.queries += 1
        STATS.solver_s += time.time() - t0
        if SLOW and time.time() - t0 > 0.3:
            print("SLOW", round(time.time() - t0, 2), r, sl, f)
        if m is not None:
            pool.insert(0, m)
            del pool[12:]
        _KEEP.append((sl, f))
        _CACHE[key] = (r, m)
        return r

    def check_full(self, f):
        """Check pc and f component by component (components share no constants)."""
        parts = []  # (constants, conjuncts)
        for g in [*self.pc, f]:
            if z3.is_true(g):
                continue
            cs = set(consts_of(g))
            mine = [g]
            keep = []
            for pcs, gs in parts:
                if pcs & cs:
                    cs |= pcs
                    mine = gs + mine
                else:
                    keep.append((pcs, gs))
            keep.append((cs, mine))
            parts = keep
        out, models, unk = "sat", [], False
        for cs, gs in parts:
            r, m = self.solve_part(gs)
            if r == "unsat":
                return "unsat"
            if r == "unknown":
                unk = True
            models.append((cs, m))
        if unk:
            return "unknown"
        self.model = Joint(models)
        return "sat"

    def solve_part(self, gs):
        key = (tuple(sorted({g.get_id() for g in gs})), "part")
        hit = _CACHE.get(key)
        if hit is not None:
            return hit
        if self.deadline and time.time() > self.deadline + 60:
            raise Budget()
        vkey = ("part", frozenset().union(*[consts_of(g) for g in gs]))
        pool = _MODELS.setdefault(vkey, [])
        res = None
        for m in pool[:6]:
            if all(holds(m, g) for g in reversed(gs)):
                res = ("sat", m)
                break
        if res is None:
            t0 = time.time()
            w = strfast.solve(gs)
            for extra in ([w[0] == zstr(w[1])] if isinstance(w, tuple) else []), []:
                s = z3.Solver()
                s.set("timeout", TIMEOUT_MS)
                s.add(*extra)
                s.add(*gs)
                r = str(s.check())
                if r == "sat" or not extra:
                    break
            res = (r, s.model() if r == "sat" else None)
            STATS.queries += 1
            STATS.solver_s += time.time() - t0
            if SLOW and time.time() - t0 > 0.3:
                print("SLOWPART", round(time.time() - t0, 2), r, gs)
            if r == "unknown":
                STATS.unknown += 1
            if res[1] is not None:
                pool.insert(0, res[1])
                del pool[12:]
        _KEEP.append(gs)
        _CACHE[key] = res
        return res

    def check_abstract(self, sl, f):
        """The same question with uninterpreted applications as plain constants:
        'unsat' is exact, 'sat' is an over-approximation (congruence is dropped)."""
        key = (tuple(sorted({g.get_id() for g in sl})), f.get_id(), "abs")
        hit = _CACHE.get(key)
        if hit is not None:
            return hit[0]
        r = strfast.decide([*sl, f])
        if r is None:
            vkey = frozenset().union(*[consts_of(g) for g in sl], consts_of(f))
            pool = _MODELS.setdefault(("abs", vkey), [])
            for m in pool[:6]:
                if holds(m, f) and all(holds(m, g) for g in reversed(sl)):
                    r = "sat"
                    break
            else:
                t0 = time.time()
                s = z3.Solver()
                s.set("timeout", 2000)
                s.add(*sl)
                s.add(f)
                r = str(s.check())
                STATS.queries += 1
                STATS.solver_s += time.time() - t0
                if SLOW and time.time() - t0 > 0.3:
                    print("SLOWABS", round(time.time() - t0, 2), r, sl, f)
                if r == "sat":
                    pool.insert(0, s.model())
                    del pool[12:]
        else:
            STATS.fast += 1
        _KEEP.append((sl, f))
        _CACHE[key] = (r, None)
        return r

    def slice_atoms(self, f):
        want = set(atoms_of(f))
        rest = [(g, set(atoms_of(g))) for g in self.pc]
        out = []
        while True:
            nxt, hit = [], False
            for g, cs in rest:
                if cs & want:
                    out.append(g)
                    want |= cs
                    hit = True
                else:
                    nxt.append((g, cs))
            rest = nxt
            if not hit:
                return out

    def slice(self, f):
        want = set(consts_of(f))
        rest = [(g, consts_of(g)) for g in self.pc]
        out = []
        while True:
            nxt = []
            hit = False
            for g, cs in rest:
                if cs & want:
                    out.append(g)
                    want |= cs
                    hit = True
                else:
                    nxt.append((g, cs))
            rest = nxt
            if not hit:
                return out

    def assume(self, f, top=True):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        if top:
            self.trail.append(f)
        if z3.is_and(f):
            for g in f.children():
                self.assume(g, False)
            return
        self.pc.append(f)
        lit = f.arg(0) if z3.is_not(f) else f
        if z3.is_const(lit):
            if lit.decl().name().startswith("none("):
                self.apply_none(lit.decl().name(), not z3.is_not(f))
        else:
            for n in none_names(f):
                src = n[len("none("):].rsplit(")#", 1)[0]
                if n not in self.applied:
                    self.pending[src] = self.pending.get(src, ()) + (n,)
        self.model = None

    def settle(self, src):
        """Decide the propositions about the elements of src that formulas mention."""
        for n in self.pending.pop(src, ()):
            if n in self.applied or src in self.splits:
                continue
            val = self.decide(z3.Bool(n))
            if n not in self.applied:
                self.apply_none(n, val)

    def feasible(self):
        return self.check(z3.BoolVal(True), full=True) != "unsat"

    def decide(self, f) -> bool:
        """Fork on f (a z3 Bool or Python bool)."""
        if isinstance(f, bool):
            return f
        if isinstance(f, Sym):
            f = f.t
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        pos = len(self.decisions)
        if pos < len(self.prefix):
            val, forced = self.prefix[pos]
            self.decisions.append((val, forced))
            self.assume_lit(f if val else z3.Not(f), forced)
            return val
        t_ok = self.check(f) != "unsat"
        f_ok = self.check(z3.Not(f)) != "unsat" if t_ok else True
        if not t_ok and not f_ok:
            raise Infeasible()
        forced = not (t_ok and f_ok)
        val = bool(t_ok)
        if not forced:
            how = fork.FORK.spawn() if self.parent is None and fork.FORK is not None else "no"
            if how == "no":
                self.alts.append(list(self.decisions) + [(False, False)])
            elif how == "child":
                val = False
        self.decisions.append((val, forced))
        self.assume_lit(f if val else z3.Not(f), forced)
        return val

    def assume_lit(self, f, forced):
        if forced:
            lit = f.arg(0) if z3.is_not(f) else f
            if z3.is_const(lit) and lit.decl().name().startswith("none(") and lit.decl().name() not in self.applied:
                self.apply_none(lit.decl().name(), not z3.is_not(f))
        else:
            self.trail.append(f)
            self.lits.append(f)
            self.assume(f, False)

    def choose_free(self) -> bool:
        """A nondeterministic fork that adds no condition."""
        pos = len(self.decisions)
        if pos < len(self.prefix):
            val, forced = self.prefix[pos]
        else:
            val, forced = True, False
            self.alts.append(list(self.decisions) + [(False, False)])
        self.decisions.append((val, forced))
        return val

    # -- facts about the elements of unbounded lists ------------------------
    def none_literal(self, src, paths):
        """The proposition: no element of src goes one of these ways (explored on src[g])."""
        phi = z3.simplify(disj([p.own_condition() for p in paths]))
        dec = z3.simplify(disj([p.own_decisions() for p in paths]))
        for i, (s, f, d) in enumerate(_NONE):
            if s == src and f.eq(phi) and d.eq(dec):
                return z3.Bool(f"none({src})#{i}")
        _NONE.append((src, phi, dec))
        return z3.Bool(f"none({src})#{len(_NONE) - 1}")

    def apply_none(self, name, positive):
        self.applied.add(name)
        src, i = name[len("none("):].rsplit(")#", 1)
        tsrc, phi, dec = _NONE[int(i)]
        if tsrc != src:
            phi, dec = rename_term(phi, tsrc, src), rename_term(dec, tsrc, src)
        g = src + "[g]"
        if src in self.splits:
            return  # the literal was decided before the split
        if positive:
            nphi = z3.simplify(z3.Not(dec))
            self.facts[src] = tuple(self.facts.get(src, ())) + (nphi,)
            if z3.is_false(nphi):
                self.assume(z3.Int(f"len({src})") == 0)
                self.empty_sources().add(src)
            return
        pre, w, post = src + "/pre", src + "/w", src + "/post"
        facts = self.facts.get(src, ())
        self.facts[pre] = tuple(rename_term(f, g, pre + "[g]") for f in facts) + (
            z3.simplify(z3.Not(rename_term(dec, g, pre + "[g]"))),
        )
        if any(z3.is_false(f) for f in self.facts[pre]):
            self.assume(z3.Int(f"len({pre})") == 0)
            self.empty_sources().add(pre)
        self.facts[post] = tuple(rename_term(f, g, post + "[g]") for f in facts)
        self.splits[src] = [("star", pre), ("elem", w), ("star", post)]
        for f in facts:
            self.assume(rename_term(f, g, w))
        self.assume(rename_term(phi, g, w))
        lens = [z3.Int(f"len({x})") for x in (src, pre, post)]
        self.assume(lens[0] == lens[1] + 1 + lens[2])
        self.assume(lens[1] >= 0)
        self.assume(lens[2] >= 0)
        if not self.feasible():
            raise Infeasible()

    def store_get(self, key):
        return self.store.get(key, {})

    def store_set(self, key, v):
        self.store = dict(self.store)
        self.store[key] = v

    def empty_sources(self):
        s = set(self.store.get("empty", ()))
        self.store_set("empty", s)
        return s

    def own_condition(self):
        f = conj(self.pc[self.base:])
        _LITS[f.get_id()] = (f, triples(self.trail))
        return f

    def own_decisions(self):
        return conj(self.lits)

    def fresh(self, hint, sort):
        self.counter += 1
        return z3.Const(f"{hint}#{self.counter}", sort)


def explore(run, parent=None, max_paths=20000, deadline=None, share=False):
    """Run `run(path)` on every feasible path.  Yields (path, result).  share: no result
    is needed by the caller, so branches may be given to other processes."""
    work = [[]]
    n = 0
    fk = fork.FORK
    me = [work, None]
    if fk is not None:
        fk.active.append(me)
    try:
        while work:
            prefix = work.pop()
            if share and fk is not None and work:
                # give the shallowest branch away
                how = fk.spawn(me if parent is not None else None, lambda: work.pop(0))
                if how == "child":
                    prefix = fk.given
            p = Path(prefix, parent, deadline)
            me[1] = p
            if p.deadline and time.time() > p.deadline:
                raise Budget()
            n += 1
            if n > max_paths:
                raise Budget()
            STATS.paths += 1
            try:
                res = run(p)
            except Infeasible:
                work.extend(p.alts)
                continue
            work.extend(p.alts)
            yield p, res
    finally:
        if fk is not None and me in fk.active:
            fk.active.remove(me)
    if share and parent is not None and fk is not None and fk.owned is me:
        raise fork.ForkDone()
