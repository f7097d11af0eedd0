"""A fast exact-or-defer decision procedure for conjunctions of string atoms.

Handles slices in which every conjunct is a Boolean combination of the atoms
  t == "lit", prefixof("lit", t), suffixof("lit", t), contains(t, "lit"), t in RE
over one string term t.  'sat' is answered with a concrete witness (evaluated by
Python itself), 'unsat' from the implications between the literals; anything else is
left to z3 (None)."""
from __future__ import annotations

import re

import z3

from .values import zstr_value

PATTERNS = {}  # id of z3 regex -> (regex, pattern, kind)
_ATOM = {}
_KEEP = []


def note(rx, pat, kind):
    PATTERNS[rx.get_id()] = (rx, pat, kind)
    g = z3.simplify(z3.InRe(z3.String("strfast!x"), rx))
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_SEQ_IN_RE:
        PATTERNS[g.arg(1).get_id()] = (g.arg(1), pat, kind)


def lit(x):
    return zstr_value(x) if z3.is_string_value(x) else None


def compile_(f):
    """(subject, tree) or None; tree in nested tuples."""
    k = f.get_id()
    if k in _ATOM:
        return _ATOM[k]
    out = _compile(f)
    _ATOM[k] = out
    _KEEP.append(f)
    return out


def _compile(f):
    if z3.is_not(f):
        r = compile_(f.arg(0))
        return r and (r[0], ("not", r[1]))
    if z3.is_and(f) or z3.is_or(f):
        subs = [compile_(x) for x in f.children()]
        if not subs or any(s is None for s in subs) or len({s[0].get_id() for s in subs}) != 1:
            return None
        return subs[0][0], ("and" if z3.is_and(f) else "or", *[s[1] for s in subs])
    if z3.is_eq(f) and z3.is_string(f.arg(0)):
        a, b = f.arg(0), f.arg(1)
        if lit(a) is not None:
            a, b = b, a
        if lit(b) is None or lit(a) is not None:
            return None
        return a, ("eq", lit(b))
    if not z3.is_app(f):
        return None
    n = f.decl().kind()
    if n in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX):
        if lit(f.arg(0)) is None or lit(f.arg(1)) is not None:
            return None
        return f.arg(1), ("pre" if n == z3.Z3_OP_SEQ_PREFIX else "suf", lit(f.arg(0)))
    if n == z3.Z3_OP_SEQ_CONTAINS:
        if lit(f.arg(1)) is None or lit(f.arg(0)) is not None:
            return None
        return f.arg(0), ("has", lit(f.arg(1)))
    if n == z3.Z3_OP_SEQ_IN_RE:
        p = PATTERNS.get(f.arg(1).get_id())
        if p is None or lit(f.arg(0)) is not None:
            return None
        return f.arg(0), ("re", p[1], p[2])
    return None


def ev(t, w):
    k = t[0]
    if k == "not":
        return not ev(t[1], w)
    if k == "and":
        return all(ev(x, w) for x in t[1:])
    if k == "or":
        return any(ev(x, w) for x in t[1:])
    if k == "eq":
        return w == t[1]
    if k == "pre":
        return w.startswith(t[1])
    if k == "suf":
        return w.endswith(t[1])
    if k == "has":
        return t[1] in w
    return getattr(re, t[2])(t[1], w) is not None


def implied(t, facts):
    """True / False / None under the positive facts."""
    k = t[0]
    if k == "not":
        r = implied(t[1], facts)
        return None if r is None else not r
    if k in ("and", "or"):
        rs = [implied(x, facts) for x in t[1:]]
        if k == "and":
            return False if False in rs else (True if all(r is True for r in rs) else None)
        return True if True in rs else (False if all(r is False for r in rs) else None)
    for g in facts:
        if g[0] == "eq":
            return ev(t, g[1])
    for g in facts:
        if t == g:
            return True
        if g[0] == "pre":
            if k == "pre":
                if g[1].startswith(t[1]):
                    return True
                if not t[1].startswith(g[1]):
                    return False
            elif k == "eq" and not t[1].startswith(g[1]):
                return False
            elif k == "has" and t[1] in g[1]:
                return True
        elif g[0] == "suf":
            if k == "suf":
                if g[1].endswith(t[1]):
                    return True
                if not t[1].endswith(g[1]):
                    return False
            elif k == "eq" and not t[1].endswith(g[1]):
                return False
            elif k == "has" and t[1] in g[1]:
                return True
        elif g[0] == "has":
            if k == "has" and t[1] in g[1]:
                return True
            if k == "eq" and g[1] not in t[1]:
                return False
    return None


def lits(t, out):
    if t[0] in ("not", "and", "or"):
        for x in t[1:]:
            lits(x, out)
    elif t[0] != "re":
        out.append(t)
    return out


def decide(conjuncts):
    r = solve(conjuncts)
    return r if r is None or isinstance(r, str) else "sat"


def solve(conjuncts):
    """'unsat', None or (subject, witness)."""
    trees, subj = [], None
    for f in conjuncts:
        r = compile_(f)
        if r is None:
            return None
        if subj is None:
            subj = r[0]
        elif subj.get_id() != r[0].get_id():
            return None
        trees.append(r[1])
    if not trees:
        return None
    facts = [t for t in trees if t[0] in ("eq", "pre", "suf", "has")]
    for t in trees:
        if implied(t, [g for g in facts if g is not t]) is False:
            return "unsat"
    eqs = [t[1] for t in facts if t[0] == "eq"]
    if eqs:
        return (subj, eqs[0]) if all(ev(t, eqs[0]) for t in trees) else "unsat"
    pre = max([t[1] for t in facts if t[0] == "pre"], key=len, default="")
    suf = max([t[1] for t in facts if t[0] == "suf"], key=len, default="")
    has = "\x02".join(t[1] for t in facts if t[0] == "has")
    res = any(t[0] == "re" for t in trees)
    mids = ["", "\x01", "_", "q", "(3)", "(q)", " "] if res else ["", "\x01", "q", "_7"]
    cands = []
    for m in mids:
        for n in ("", "\x01"):
            cands.append(pre + m + has + n + suf)
    allits = []
    for t in trees:
        lits(t, allits)
    for a in allits:
        cands += [a[1], a[1] + "\x01", "\x01" + a[1], pre + a[1], a[1] + suf, pre + a[1] + suf]
    for w in cands:
        if all(ev(t, w) for t in trees):
            return subj, w
    return None
