"""Relations between executions of the real code (inverse functions, equivalent calls, scaling, ...).

A relation is written once, as a function of a *world*.  It is evaluated on the real code; the executions
are the evidence.  Only when it fails there is it evaluated in the world of the reference model as well: if
the published formulas do not satisfy the relation for that input either (a limit is reached, the input is
outside the domain of the formula, two branches tie), the observation is not judged.
"""
import math
import time

import numpy as np

from . import engine as E
from . import model
from .model import REG
from .runner import Check, show
from .steer import Explorer

O = "hydraulic.wave_overtopping."
U_ = "hydraulic.wave_runup."
T = "hydraulic.wave_transmission."
RA = "structural.stability_rock_armour."
CA = "structural.stability_concrete_armour."
TB = "structural.stability_toe_berm."
RR = "structural.stability_rock_rear."
FC = "structural.forces_caisson."
FW = "structural.forces_crestwall."
CP = "core_physics."


class Undecided(Exception):
    pass


class CodeFailed(Exception):
    pass


class Code:
    """the real code"""
    name = "code"

    def __init__(self):
        self.fns = {}
        self.n = 0
        self.log = []

    def __call__(self, key, args):
        f = self.fns.get(key)
        if f is None:
            f = self.fns[key] = E.resolve(REG[key])
            if f is None:
                raise Undecided()
        o = E.observe(f, args)
        self.n += 1
        self.log.append((key, args, o.value if o.exc is None else o.exc))
        if o.exc is not None:
            raise CodeFailed("%s raised %r for %s" % (key, o.exc, show(args)[:300]))
        self.last = o
        x = o.value[0] if isinstance(o.value, tuple) and o.value else o.value
        if isinstance(x, (float, np.ndarray)) and np.any((np.abs(x) < 1e-150) & (np.asarray(x) != 0)):
            raise Undecided()  # not enough digits left in so small a number
        return o.value


class Model:
    """the reference model"""
    name = "model"

    def __init__(self, mode=0):
        self.mode = mode

    def __call__(self, key, args):
        e = REG[key]
        c = E.Case(e, args)
        out = []
        for i in range(1 if c.n is None else c.n):
            a = c.args if c.n is None else c.element(i)
            r = E.reference(e, a)
            if r.kind != "value":
                raise Undecided()
            v = r.value2 if self.mode and r.value2 is not None else r.value
            if not E.finite(v):
                raise Undecided()
            out.append(v)
        return out[0] if c.n is None else stack(out)


def stack(vs):
    v = vs[0]
    if isinstance(v, tuple):
        return tuple(stack([x[i] for x in vs]) for i in range(len(v)))
    if isinstance(v, dict):
        return {k: stack([x[k] for x in vs]) for k in v}
    return np.array(vs)


def first(v):
    return v[0] if isinstance(v, tuple) else v


def num(x):
    x = np.asarray(x)
    if np.iscomplexobj(x):
        return np.full(x.shape, np.nan)
    return x.astype(float)


# ---------------------------------------------------------------- pairs
def eq(label, a, b, rtol=1e-8, atol=0.0):
    return ("eq", label, a, b, rtol, atol)


def le(label, a, b, rtol=1e-9, atol=0.0):
    return ("le", label, a, b, rtol, atol)


def sides(p):
    a, b = np.broadcast_arrays(num(p[2]), num(p[3]))
    return np.atleast_1d(a), np.atleast_1d(b)


def errors(p):
    """elementwise error and tolerance of a pair; the error is infinite where a side is not a number"""
    kind, label, a, b, rtol, atol = p
    a, b = sides(p)
    tol = rtol * np.maximum(np.abs(a), np.abs(b)) + atol
    d = np.abs(a - b) if kind == "eq" else a - b
    d = np.where(a == b, 0.0, d)  # also for infinities
    return np.where(np.isnan(d), np.inf, d), np.where(np.isfinite(tol), tol, 0.0)


class Rel:
    def __init__(self, name, key, run, prep=None, arr=True, weight=1.0, known=None):
        self.name, self.key, self.run, self.prep, self.arr, self.weight = name, key, run, prep, arr, weight
        self.known = known

    def sample(self, rng, prev):
        e = REG[self.key]
        a = E.sample(e, rng, prev)
        if self.prep:
            a = self.prep(rng, dict(a))
        return a


def perturb(a, eps, exact=()):
    out = {}
    for k, v in a.items():
        if isinstance(v, (bool, str)) or v is None or k in exact:
            out[k] = v
        else:
            out[k] = v * (1 + eps)
    return out


BROKEN = (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, OverflowError)


def judge(rel, code, a):
    """'ok', 'undecided' or a text"""
    code.log = []
    err, bad = None, []
    try:
        pairs = list(rel.run(code, a))
        if not pairs:
            return "undecided"
        for p in pairs:
            d, t = errors(p)
            if not np.all(d <= t):
                bad.append(p)
    except CodeFailed as e:
        err = str(e)
    except Undecided:
        return "undecided"
    except BROKEN as e:
        err = "result unusable: %r" % e
    if err is None and not bad:
        if any(not np.all(np.isfinite(x)) for p in pairs for x in sides(p)):
            return "undecided"
        return "ok"
    # does the model satisfy it?
    runs = []
    for eps in (0.0, 1e-11, -1e-11):
        for mode in (0, 1):
            try:
                runs.append({p[1]: p for p in rel.run(Model(mode), perturb(a, eps, REG[rel.key].exact) if eps else a)})
            except Undecided:
                return "undecided"
            except BROKEN:
                return "undecided"
    if err is not None:
        return err
    slack = True
    for p in bad:
        d, t = errors(p)
        if any(p[1] not in r for r in runs):
            slack = False
            continue
        ms = [sides(r[p[1]]) for r in runs]
        if d.size == 1:  # the array was not one the result depends on
            d, t = np.broadcast_to(d.reshape(-1), ms[0][0].shape), np.broadcast_to(t.reshape(-1), ms[0][0].shape)
        if any(m[0].shape != d.shape for m in ms):
            if ms[0][0].size == 1:
                ms = [(np.broadcast_to(x, d.shape), np.broadcast_to(y, d.shape)) for x, y in ms]
        if any(m[0].shape != d.shape for m in ms):
            return "%s: result has shape %s, expected %s" % (p[1], d.shape, ms[0][0].shape)
        # documented stopping tolerance: the two admissible results span a band
        band = 2.2 * (np.abs(ms[0][0] - ms[1][0]) + np.abs(ms[0][1] - ms[1][1]))
        fails, holds = np.zeros(d.shape, bool), np.ones(d.shape, bool)
        worst, least, size = np.zeros(d.shape), np.full(d.shape, np.inf), np.zeros(d.shape)
        for r in runs:
            md, mt = (np.broadcast_to(x, d.shape) for x in errors(r[p[1]]))
            scale = np.maximum(*[np.abs(x) for x in sides(r[p[1]])])
            holds &= md <= 2 * mt + (0.05 * scale if p[0] == "eq" else 0)
            worst, least, size = np.maximum(worst, md), np.minimum(least, md), np.maximum(size, scale)
        # no worse than the published formula itself (rounded coefficients, stopping tolerance)
        # rounded coefficients leave a steady difference; one that varies is noise of some size
        steady = (worst > 1e-4 * size) & (worst - least < 1e-3 * worst) if p[0] == "eq" else np.zeros(d.shape, bool)
        fails = ~(d <= t + np.where(steady, 1.01, 2.5) * np.maximum(worst, 0) + band)
        if steady.any():
            # between exactly inverse and what the published coefficients leave, on the same side
            x, y = (np.broadcast_to(v, d.shape) for v in sides(p))
            r, m = x - y, ms[0][0] - ms[0][1]
            lim = t + 0.01 * worst + band
            fails |= steady & ((r < np.minimum(m, 0) - lim) | (r > np.maximum(m, 0) + lim))
        if np.any(fails & holds):
            i = int(np.argmax(fails & holds))
            return "%s: %s %s %s%s" % (p[1], short(p[2]), "=" if p[0] == "eq" else "<=", short(p[3]), "" if d.size == 1 else " (element %d)" % i)
        if np.any(fails):
            slack = False
    return "ok" if slack else "undecided"


def short(x):
    if isinstance(x, np.ndarray):
        return np.array2string(x, precision=12, separator=",", max_line_width=10 ** 6)
    return repr(x)


class RelCheck(Check):
    p_array = 0.2
    p_prev = 0.4
    p_dress = True
    p_edge = 0.1
    rule = ("one evaluation = one relation between results of the current tree's functions, evaluated on freshly generated arguments and "
            "judged; distinct = different combinations of relation, supplied arguments, array layout and outcome flags")
    assumptions = ["inputs for which the published formulas (reference model) do not satisfy the relation themselves are not judged"]

    def relations(self):
        raise NotImplementedError

    def prepare(self, tier):
        super().prepare(tier)
        self.rels = [r for r in self.relations() if r.key in REG and E.resolve(REG[r.key]) is not None]

    def work(self, rec, wid, nw, ss, deadline):
        tr = E.Tracer(self.mods)
        rng = np.random.default_rng(ss)
        code = Code()
        ex = Explorer(rng)
        prev = {}
        order = list(self.rels)
        while time.monotonic() < deadline and len(rec.viol) < 10:
            rng.shuffle(order)
            for r in order:
                if time.monotonic() > deadline:
                    break
                if r.weight < 1 and rng.random() > r.weight:
                    continue
                a = r.sample(rng, prev.get(r.name) if rng.random() < self.p_prev else None)
                e = REG[r.key]
                if rng.random() < self.p_edge:
                    a = ex.edge(e, a) or a
                prev[r.name] = {k: v for k, v in a.items()}
                if r.arr and rng.random() < self.p_array:
                    b = ex.straddle(e, a) if rng.random() < 0.2 else None
                    a = b or E.to_array(e, rng, a)
                elif self.p_dress:
                    a = E.dress(REG[r.key], rng, a)
                self.one(rec, r, code, a)
        rec.calls = sum(tr.calls.values())
        rec.count["call_edges"] = set(tr.edges)
        rec.count["functions_called"] = {k for k, v in tr.calls.items() if v}

    def finish(self, tot, tier):
        tot.count["relations_not_reached"] = {r.name for r in self.rels} - set(tot.by)

    def one(self, rec, r, code, a):
        v = judge(r, code, a)
        if v == "undecided":
            rec.undecided += 1
            return
        rec.ok((r.name, tuple(sorted(a)), tuple(k for k, x in a.items() if isinstance(x, np.ndarray)), self.flags(code)), r.name)
        rec.count.setdefault("relations", set()).add(r.name)
        if v != "ok":
            rec.violation(v, r.name, a, calls=[(k, show(x)[:300], repr(o)[:200]) for k, x, o in code.log[:6]])
        elif rec.n % 997 == 5:
            rec.sample("%s: %s" % (r.name, "; ".join("%s(%s) -> %s" % (k.split(".")[-1], show(x)[:90], repr(o)[:60]) for k, x, o in code.log[:2])))

    def flags(self, code):
        out = []
        for k, x, o in code.log:
            if isinstance(o, tuple):
                out.append(tuple(bool(np.any(y)) for y in o if isinstance(y, (bool, np.bool_)) or (isinstance(y, np.ndarray) and y.dtype == bool)))
        return tuple(out)


def only(key, a, drop=()):
    """the arguments of a that the function accepts"""
    ps = REG[key].params
    return {k: v for k, v in a.items() if k in ps and k not in drop}
