"""Translate a subset of Python regular expressions to z3 (None when outside)."""
from __future__ import annotations

import re._parser as sp

import z3

from . import strfast
from .values import zstr

_cache: dict = {}


def to_z3(pat, kind):
    key = (pat, kind)
    if key not in _cache:
        try:
            _cache[key] = _top(pat, kind)
            strfast.note(_cache[key], pat, kind)
        except NotImplementedError:
            _cache[key] = None
    return _cache[key]


def _top(pat, kind):
    tree = list(sp.parse(pat))
    any_ = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
    anchored_start = anchored_end = False
    if tree and str(tree[0][0]) == "AT" and str(tree[0][1]) == "AT_BEGINNING":
        tree = tree[1:]
        anchored_start = True
    if tree and str(tree[-1][0]) == "AT" and str(tree[-1][1]) == "AT_END":
        tree = tree[:-1]
        anchored_end = True
    r = _seq(tree)
    if kind == "fullmatch":
        return r
    parts = []
    if kind == "search" and not anchored_start:
        parts.append(any_)
    parts.append(r)
    # $ also matches before a final newline
    parts.append(z3.Option(z3.Re(zstr("\n"))) if anchored_end else any_)
    return z3.Concat(*parts)


def _seq(seq):
    parts = [_one(op, av) for op, av in seq]
    if not parts:
        return z3.Re(z3.StringVal(""))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _char(c):
    return z3.Re(zstr(chr(c)))


def _one(op, av):
    name = str(op)
    if name == "LITERAL":
        return _char(av)
    if name == "ANY":
        nl = z3.Re(zstr("\n"))
        return z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), nl)
    if name == "IN":
        if av and str(av[0][0]) == "NEGATE":
            inner = z3.Union(*[_cls(x) for x in av[1:]]) if len(av) > 2 else _cls(av[1])
            return z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), inner)
        parts = [_cls(x) for x in av]
        return parts[0] if len(parts) == 1 else z3.Union(*parts)
    if name in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, sub = av
        r = _seq(sub)
        if str(hi) == "MAXREPEAT":
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        if lo == 0 and hi == 1:
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    if name == "SUBPATTERN":
        return _seq(av[3])
    if name == "BRANCH":
        return z3.Union(*[_seq(b) for b in av[1]])
    raise NotImplementedError


def _cls(x):
    op, av = x
    name = str(op)
    if name == "LITERAL":
        return _char(av)
    if name == "RANGE":
        return z3.Range(chr(av[0]), chr(av[1]))
    raise NotImplementedError  # \d, \w include non-ASCII characters
