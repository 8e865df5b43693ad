"""Shared vocabulary of the checks: Violation, Facet, numeric comparison helpers."""
import numpy as np


class Violation(Exception):
    """The property does not hold for this case."""


class Facet(object):
    """One executable statement: generated cases x oracle.

    strategy: callable returning a Hypothesis strategy of JSON-able cases
    check:    callable(case, rec); raises Violation, returns None otherwise
    quick / thorough: number of generated cases per tier
    """

    def __init__(self, name, strategy, check, quick, thorough=None, rule='',
                 shards=8):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 40
        self.rule = rule
        self.shards = shards


class Rec(object):
    """Per-case record filled in by the check."""

    def __init__(self):
        self.is_nontrivial = False
        self.tags = set()

    def nontrivial(self, flag=True):
        self.is_nontrivial = bool(self.is_nontrivial or flag)

    def tag(self, name, flag=True):
        if flag:
            self.tags.add(name)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def ensure(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def arr(x):
    return np.asarray(x, dtype=float)


def close(actual, expected, what, rtol=1e-9, atol=1e-9):
    """Array comparison; NaN matches only NaN."""
    a, e = arr(actual), arr(expected)
    if a.shape != e.shape:
        try:
            a, e = np.broadcast_arrays(a, e)
        except ValueError:
            fail('%s: shape %s, expected %s', what, a.shape, e.shape)
    with np.errstate(all='ignore'):
        bad = ~(np.abs(a - e) <= atol + rtol * np.abs(e))
    bad &= ~(np.isnan(a) & np.isnan(e))
    bad &= ~((a == e))
    if bad.any():
        k = tuple(int(i) for i in np.argwhere(bad)[0])
        fail('%s: got %r, expected %r at %s (tolerance atol=%g rtol=%g)',
             what, float(a[k]) if a.ndim else float(a),
             float(e[k]) if e.ndim else float(e), k, atol, rtol)


def finite(x, what):
    a = arr(x)
    if not np.all(np.isfinite(a)):
        fail('%s: not finite: %s', what, a)
