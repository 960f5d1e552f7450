"""C11: an array call equals the single-value calls of its elements."""
import math
import time

import numpy as np

from . import engine as E
from .model import REG
from .relations import num
from .runner import Check, show
from .steer import Explorer


def flat(v):
    """the numeric parts of a result, labelled"""
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            yield from ((("%d" % i) + l, y) for l, y in flat(x))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from ((str(k) + l, y) for l, y in flat(x))
    else:
        yield "", v


def lengths(rng):
    r = rng.random()
    if r < 0.15:
        return 1
    if r < 0.8:
        return int(rng.integers(2, 8))
    if r < 0.95:
        return int(rng.integers(8, 20))
    if r < 0.997:
        return int(rng.integers(20, 130))
    return int(rng.integers(130, 1500))


def layout(e, rng, base):
    """an array call: arguments, number of elements"""
    n = lengths(rng)
    cand = [p for p in E.arrayable(e) if p in base and isinstance(base[p], (int, float)) and not isinstance(base[p], bool) and base[p] == base[p]]
    if not cand:
        return None
    r = rng.random()
    if r < 0.4:
        keys = [cand[int(rng.integers(len(cand)))]]
    elif r < 0.6:
        keys = cand
    else:
        keys = [p for p in cand if rng.random() < 0.5] or [cand[int(rng.integers(len(cand)))]]
    rows = []
    prev = base
    for _ in range(n):
        if rng.random() < 0.5:
            s = E.sample(e, rng, p_opt=1.0)
        else:
            s = E.sample(e, rng, prev)
        if all(isinstance(s.get(k), (int, float)) and s[k] == s[k] for k in keys):
            prev = s
        rows.append(prev if all(isinstance(prev.get(k), (int, float)) for k in keys) else base)
    a = dict(base)
    whole = rng.random() < 0.2
    for k in keys:
        a[k] = np.array([float(r[k]) for r in rows])
        if whole and rng.random() < 0.7:
            v = np.maximum(np.round(a[k]), 1)
            if np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e9):
                d = E.domain(e, k)
                if d[0] != "c" and np.all(v <= max(d[2], 1)) and np.all(v >= min(d[1], 1)):
                    a[k] = v.astype(int)
        elif rng.random() < 0.03:
            a[k] = np.full(n, a[k][0])
    return a, n, keys


def strad(a):
    keys = [k for k, v in a.items() if isinstance(v, np.ndarray)]
    return (a, len(a[keys[0]]), keys) if keys else None


class C11(Check):
    pid = "C11"
    secs = {"quick": 60, "thorough": 240}
    rule = ("one evaluation = one array call of a public function whose every element was compared with the single-value call of the same "
            "code; distinct = different combinations of function, supplied arguments, array-valued arguments, whole-number arrays, "
            "length class and mixture of outcomes (undefined, limited, warned) within the array")
    assumptions = ["iterations over arrays may go on until the last element has converged; the difference this makes is bounded by the documented tolerance",
                   "arguments documented as single values only, and functions documented without arrays, are not given arrays"]

    def prepare(self, tier):
        super().prepare(tier)
        self.es = [e for e in REG.values() if E.resolve(e) is not None and E.arrayable(e)]

    def work(self, rec, wid, nw, ss, deadline):
        tr = E.Tracer(self.mods)
        rng = np.random.default_rng(ss)
        order = list(self.es)
        ex = Explorer(rng)
        while time.monotonic() < deadline and len(rec.viol) < 10:
            rng.shuffle(order)
            for e in order:
                if time.monotonic() > deadline:
                    break
                a = E.sample(e, rng, ex.pick(e) if rng.random() < 0.4 else None, p_opt=0.45)
                ex.offer(e, a)
                b = ex.straddle(e, a) if rng.random() < 0.25 else None
                x = layout(e, rng, a) if b is None else strad(b)
                if x:
                    self.one(rec, e, *x)
        rec.calls = sum(tr.calls.values())
        rec.count["functions_called"] = {k for k, v in tr.calls.items() if v}

    def one(self, rec, e, a, n, keys):
        f = E.resolve(e)
        case = E.Case(e, a)
        arr = E.observe(f, a)
        els = [E.observe(f, case.element(i)) for i in range(n)]
        rec.add("elements_compared", n)
        if any(o.exc is not None for o in els):
            if all(o.exc is not None for o in els) and arr.exc is not None:
                rec.ok((e.key, tuple(sorted(a)), "rejected"), e.key)
            else:
                rec.undecided += 1
            return
        fin = [all(self.finite(y) for _, y in flat(o.value)) for o in els]
        mix = (all(fin), any(fin), len({tuple(bool(np.all(y)) for _, y in flat(o.value) if np.asarray(y).dtype == bool) for o in els}),
               len({tuple(sorted({w[:2] for w in o.warns})) for o in els}) > 1)
        sig = (e.key, tuple(sorted(a)), tuple(keys), tuple(k for k in keys if a[k].dtype.kind == "i"), min(n, 2) + (n > 7), mix)
        if arr.exc is not None:
            if not all(fin) and e.out != "none":
                rec.undecided += 1
                return
            # the single calls give values: the array call has to
            rec.ok(sig, e.key)
            rec.violation("array call raised %r, the calls of its elements give %r" % (arr.exc, [o.value for o in els][:4]), e.key, a)
            return
        text = None
        if e.out != "none":
            text = self.values(e, case, arr, els, n)
        if text == "undecided":
            rec.undecided += 1
            return
        if text is None and all(fin) and e.kind != "iterative" and e.warn != "none" and "iteration_procedure" not in e.name:
            text = self.warned(case, arr, els)
        rec.ok(sig, e.key)
        rec.add("elements_whole_number", sum(a[k].dtype.kind == "i" for k in keys))
        if not all(fin):
            rec.add("arrays_with_undefined_elements")
        if text is None and all(fin) and n > 1 and rec.n % 4 == 0:
            text = self.shaped(rec, e, f, a, arr, n)
        if text:
            rec.violation(text, e.key, a)
        elif rec.n % 997 == 5:
            rec.sample("%s(%s) -> %s" % (e.name, show(a)[:200], repr(arr.value)[:120]))

    def shaped(self, rec, e, f, a, arr, n):
        """the same elements in an array of two or three dimensions"""
        k = max(d for d in range(1, int(n ** 0.5) + 1) if n % d == 0)
        shape = [(k, n // k), (n // k, k), (1, k, n // k)][rec.n // 4 % 3]
        order = "F" if rec.n % 3 == 0 else "C"
        b = {x: np.array(v.reshape(shape), order=order) if isinstance(v, np.ndarray) else v for x, v in a.items()}
        o = E.observe(f, b)
        if o.exc is not None:
            return "%s array raised %r, the same elements in a row give %s" % (shape, o.exc, repr(arr.value)[:200])
        rec.add("arrays_of_more_dimensions")
        if e.out != "none":
            want = dict(flat(arr.value))
            for l, v in flat(o.value):
                w = want.get(l)
                if isinstance(v, str) or v is None or isinstance(w, str) or w is None:
                    if v != w:
                        return "%s array gives %r, the same elements in a row %r" % (shape, v, w)
                    continue
                s = np.shape(v)
                if s != (shape if np.shape(w) == (n,) else ()):
                    return "result %s has shape %s for elements of shape %s" % (l, s, shape)
                v, w = num(v).reshape(-1), num(w).reshape(-1)
                if not np.allclose(v, w, rtol=1e-10 if e.kind != "iterative" else max(1e-10, e.rtol), atol=e.atol, equal_nan=True):
                    return "%s array gives %s, the same elements in a row %s" % (shape, repr(v)[:200], repr(w)[:200])
        if e.kind != "iterative" and e.warn != "none":
            x, y = self.grouped(o.warns), self.grouped(arr.warns)
            if order == "F":  # evaluated in the order of the memory
                x, y = ({k: sorted(v) for k, v in z.items()} for z in (x, y))
            if set(x) != set(y) or set(o.other) != set(arr.other) or any(len(x[k]) != len(y[k]) or not np.allclose(x[k], y[k], rtol=1e-9, atol=0) for k in x):
                return "%s array reports %r, the same elements in a row %r" % (shape, o.warns[:3], arr.warns[:3])
        return None

    def grouped(self, ws):
        """the reported values of each quantity, in order, without those on a limit"""
        out = {}
        for w in ws:
            if not any(abs(w[4] - b) <= 1e-9 * max(abs(b), abs(w[4]), 1e-30) + 1e-13 for b in w[2:4]):
                out.setdefault(w[:4], []).append(w[4])
        return out

    def finite(self, y):
        if isinstance(y, str) or y is None:
            return True
        y = np.asarray(y)
        if y.dtype == object or np.iscomplexobj(y):
            return False
        return bool(np.all(np.isfinite(y.astype(float))))

    def values(self, e, case, arr, els, n):
        parts = dict(flat(arr.value))
        for l, v in parts.items():
            s = np.shape(v)
            if s not in ((), (n,)):
                return "result %s has shape %s for %d elements" % (l, s, n)
        bad = None
        for i, o in enumerate(els):
            want = dict(flat(o.value))
            if set(want) != set(parts):
                return "results %s for the array, %s for an element" % (sorted(parts), sorted(want))
            for l, w in want.items():
                v = parts[l]
                v = v[i] if np.ndim(v) == 1 else v
                if isinstance(w, str) or isinstance(v, str) or w is None or v is None:
                    if not (v == w or (v is None and w is None)):
                        return "element %d: %r, single call %r" % (i, v, w)
                    continue
                if not self.finite(w):
                    w_ = np.asarray(w)
                    if w_.dtype != object and not np.iscomplexobj(w_) and self.finite(v) and np.isnan(w_.astype(float)).all() and e.kind != "iterative":
                        bad = bad or (i, l, v, w)
                    continue
                w_, v_ = float(num(w).reshape(-1)[0]), float(num(v).reshape(-1)[0])
                if v_ == w_ or abs(v_ - w_) <= 1e-10 * max(abs(v_), abs(w_)) + e.atol:
                    continue
                bad = bad or (i, l, v_, w_)
                if self.excused(e, case, i, l, v_, w_):
                    if bad[0] == i:
                        bad = None
                    continue
                return "element %d%s: %r in the array, %r in a call of its own" % (i, l and " of result " + l, v_, w_)
        if bad:
            i, l, v, w = bad
            if self.excused(e, case, i, l, v, w):
                return "undecided"
            return "element %d%s: %r in the array, %r in a call of its own" % (i, l and " of result " + l, v, w)
        return None

    def excused(self, e, case, i, l, v, w):
        """stopping tolerance of an iteration, or rounding next to a jump of the formula"""
        a = case.element(i)
        r = E.reference(e, a)
        if r.kind != "value":
            return True
        rs = [r]
        for k in a:
            if k in e.exact or isinstance(a[k], (bool, str)) or a[k] is None:
                continue
            for s in (1, -1):
                b = dict(a)
                b[k] = a[k] * (1 + s * E.VAR) if a[k] else s * 1e-13
                rs.append(E.reference(e, b))
        if e.kind == "iterative" and isinstance(dict(flat(r.value)).get(l), (bool, np.bool_)):
            rs += [x for x in E.stopping_band(e, a) if x.kind == "value"]
        vals = []
        for x in rs:
            if x.kind != "value":
                return True
            for q in (x.value, x.value2):
                if q is None:
                    continue
                q = dict(flat(q)).get(l)
                if q is None:
                    return True
                q = float(num(q).reshape(-1)[0])
                if not math.isfinite(q):
                    return True
                vals.append(q)
        band = max(vals) - min(vals)
        if not (isinstance(v, float) and math.isfinite(v)):
            return False
        if not math.isfinite(float(num(w).reshape(-1)[0])):
            return False
        return abs(v - w) <= 2.5 * band + e.rtol * abs(w)

    def warned(self, case, arr, els):
        def key(w):
            return w[:4]

        def tie(w):
            return any(abs(w[4] - b) <= 1e-9 * max(abs(b), abs(w[4]), 1e-30) + 1e-13 for b in w[2:4])

        def eq(x, y):
            return x == y or abs(x - y) <= 1e-9 * abs(y)
        want, most = {}, {}
        for o in els:
            k1 = {}
            for w in o.warns:
                if not tie(w):
                    want.setdefault(key(w), []).append(w[4])
                    k1[key(w)] = k1.get(key(w), 0) + 1
            for k, c in k1.items():
                most[k] = max(most.get(k, 0), c)
        got = {}
        for x in arr.warns:
            if not tie(x):
                got.setdefault(key(x), []).append(x[4])
        for k, v in want.items():
            for x in v:
                if not any(eq(x, y) for y in got.get(k, ())):
                    return "warning for %s = %r (%s) of an element is not given for the array" % (k[0], x, k[1])
        for k, v in got.items():
            for x in v:
                if not any(eq(x, y) for y in want.get(k, ())):
                    return "warning for %s = %r (%s) is given for the array but for none of its elements" % (k[0], x, k[1])
            if most[k] == 1 and not all(eq(x, want[k][0]) for x in want[k]):
                # one report per element, in the order of the elements
                if len(v) != len(want[k]) or not all(eq(x, y) for x, y in zip(v, want[k])):
                    return "warnings for %s = %r (%s) for the array, %r for its elements" % (k[0], v[:9], k[1], want[k][:9])
        so = {s for o in els for s in o.other}
        if len(set(arr.other)) != len(so) and not (so and arr.other):
            return "reports %r for the array, %r for its elements" % (sorted(set(arr.other))[:2], sorted(so)[:2])
        return None


CHECKS = {"C11": C11}
