"""Workload steering: cases on both sides of every decision the reference model takes.

The branches taken inside the reference functions are recorded (sys.monitoring).  The set of branches, with the ranges reported,
is the signature of a case.  One case per signature is kept and varied again later, and between two cases with different
signatures that differ in one argument the place where the signature changes is found by bisection: cases just before and
just behind it are what decides whether the code takes the same decision as the published formula.
"""
import math
import sys
import types

import numpy as np

from . import engine as E
from . import model

TOOL = 3
_on = [False]
_seen = set()


def _cb(code, off, dest):
    _seen.add((id(code), off, dest))


def _codes(c):
    yield c
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            yield from _codes(k)


def start():
    if _on[0]:
        return
    _on[0] = True
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "verif-steer")
    mon.register_callback(TOOL, mon.events.BRANCH, _cb)
    done = set()
    for n, m in list(sys.modules.items()):
        if not n.startswith("monitor.refs."):
            continue
        for v in list(vars(m).values()):
            f = getattr(v, "__wrapped__", v)
            if isinstance(f, types.FunctionType) and f.__module__ == n:
                for c in _codes(f.__code__):
                    if c not in done:
                        done.add(c)
                        mon.set_local_events(TOOL, c, mon.events.BRANCH)
    for e in model.REG.values():
        for c in _codes(e.func.__code__):
            if c not in done:
                done.add(c)
                mon.set_local_events(TOOL, c, mon.events.BRANCH)


def sig(entry, args):
    _seen.clear()
    a = {k: float(v) if isinstance(v, int) and not isinstance(v, bool) else v for k, v in args.items()}
    model.MODE[0] = 0
    kind, v, w = E._eval(entry, a, ())
    b = frozenset(_seen)
    fl = tuple(x for x in v if isinstance(x, (bool, str))) if kind == "value" and isinstance(v, tuple) else ()
    return hash((kind, b, frozenset(x[:2] + (x[4] > x[3],) for x in w.out), fl))


class Explorer:
    cap = 120

    def __init__(self, rng):
        start()
        self.rng = rng
        self.corpus = {}
        self.edges = set()

    def offer(self, entry, a):
        s = sig(entry, a)
        c = self.corpus.setdefault(entry.key, {})
        if s in c or len(c) < self.cap:
            c[s] = a
        elif self.rng.random() < 0.1:
            del c[next(iter(c))]
            c[s] = a
        return s

    def pick(self, entry):
        c = self.corpus.get(entry.key)
        if not c:
            return None
        ks = list(c)
        return c[ks[int(self.rng.integers(len(ks)))]]

    def edge(self, entry, a=None):
        """arguments beside a place where the model decides differently; None if none was found"""
        rng = self.rng
        base = a or self.pick(entry)
        if base is None:
            return None
        num = [p for p in entry.params if isinstance(base.get(p), float) and math.isfinite(base[p]) and E.domain(entry, p)[0] != "c"]
        if not num:
            return None
        s0 = sig(entry, base)
        for _ in range(4):
            p = num[int(rng.integers(len(num)))]
            x0 = base[p]
            x1 = E.special(entry, rng, p) if rng.random() < 0.2 else E.draw(rng, E.domain(entry, p))
            s1 = sig(entry, {**base, p: x1})
            if s1 == s0 or x1 == x0:
                continue
            lo, hi = x0, x1
            geo = lo > 0 and hi > 0
            for _ in range(26 if entry.kind != "iterative" else 14):
                m = math.sqrt(lo * hi) if geo else 0.5 * (lo + hi)
                if sig(entry, {**base, p: m}) == s0:
                    lo = m
                else:
                    hi = m
            self.edges.add((entry.key, p, s0))
            d = float(rng.choice([1e-6, 1e-4, 1e-3, 0.01, 0.03, 0.06])) * (1 if rng.random() < 0.5 else -1)
            x = lo * (1 + d) if abs(lo) > 1e-6 else lo + d
            D = E.domain(entry, p)
            span = 1e-9 + 0.02 * (D[2] - D[1])
            if not D[1] - (span if D[0] == "u" else 0.2 * D[1]) <= x <= D[2] + span:
                x = lo
            if D[1] >= 0 and x < 0:
                x = lo
            return {**base, p: x}
        return None

    def straddle(self, entry, base):
        """an array case whose elements lie on different sides of decisions of the model; None if none was found"""
        rng = self.rng
        ok = E.arrayable(entry)
        rows = [base]
        for _ in range(int(rng.integers(1, 4))):
            r = self.edge(entry, base)
            if r is not None and all(p in ok for p in r if r[p] is not base.get(p)):
                rows.append(r)
        if len(rows) < 2:
            return None
        if rng.random() < 0.3:
            rows.append(base)
        rng.shuffle(rows)
        a = dict(base)
        for p in ok:
            if p in base and isinstance(base[p], float) and base[p] == base[p]:
                v = [r[p] for r in rows]
                if len(set(v)) > 1 or rng.random() < 0.15:
                    a[p] = np.array(v)
        return a
