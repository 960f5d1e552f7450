"""C12: validity-range warnings."""
import math
import time

import numpy as np

from . import engine as E
from .fidelity import Fidelity, entries, signature
from .model import REG, Warn
from .runner import show

F_V21 = "structural.stability_rock_armour.vandermeer2021."


def checked_values(entry, args):
    a = {k: E.scalarise(v) for k, v in args.items()}
    a = {k: float(v) if isinstance(v, int) and not isinstance(v, bool) else v for k, v in a.items()}
    w = Warn()
    w.log = []
    try:
        entry.func(w, **a)
    except Exception:
        pass
    return w.log


def steer(entry, rng, args):
    """move one argument such that one checked quantity lands beside one of its limits"""
    log = checked_values(entry, args)
    log = [x for x in log if math.isfinite(x[4])]
    if not log:
        return args
    key = log[int(rng.integers(len(log)))]
    bounds = [b for b in key[2:4] if math.isfinite(b)]
    if not bounds:
        return args
    b = bounds[int(rng.integers(len(bounds)))]
    off = float(rng.choice([1e-7, 1e-5, 1e-3, 0.01, 0.05])) * float(rng.choice([-1, 1]))
    target = b * (1 + off) if b != 0 else off
    cand = [k for k, v in args.items() if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and k not in entry.bools]
    rng.shuffle(cand)

    def value(k, x):
        for y in checked_values(entry, {**args, k: x}):
            if y[:4] == key[:4]:
                return y[4]
        return math.nan
    for k in cand[:4]:
        x0, y0 = float(args[k]), key[4]
        x1 = x0 * 1.01 if x0 else 0.01
        y1 = value(k, x1)
        if not (math.isfinite(y1) and abs(y1 - y0) > 1e-12 * abs(y0)):
            continue
        for _ in range(12):
            if y1 == y0:
                break
            if x0 > 0 and x1 > 0 and y0 * y1 > 0 and y1 * target > 0:  # power laws converge at once on log scale
                s = (math.log(abs(y1)) - math.log(abs(y0))) / (math.log(x1) - math.log(x0)) if math.log(x1) != math.log(x0) else 0
                if abs(s) < 1e-6:
                    break
                st = (math.log(abs(target)) - math.log(abs(y1))) / s
                if abs(st) > 5:
                    break
                x2 = x1 * math.exp(st)
            else:
                s = (y1 - y0) / (x1 - x0) if x1 != x0 else 0
                if s == 0:
                    break
                x2 = x1 + (target - y1) / s
            x0, y0, x1 = x1, y1, x2
            y1 = value(k, x1)
            if not math.isfinite(y1):
                break
            if abs(y1 - target) <= 1e-10 * max(abs(target), 1e-9):
                d = E.domain(entry, k)
                if d[0] != "c":
                    span = d[2] - d[1]
                    lo = 0.5 * d[1] if d[0] == "l" else d[1] if d[1] == 0 else d[1] - 0.2 * abs(d[1])
                    hi = 2 * d[2] if d[0] == "l" else d[2] + min(0.3 * span, 0.2 * abs(d[2]))
                    if not lo <= x1 <= hi:
                        break
                elif not min(v for v in d[1] if isinstance(v, (int, float))) <= x1 <= max(v for v in d[1] if isinstance(v, (int, float))):
                    break
                return {**args, k: x1}
    return args


class C12(Fidelity):
    pid, groups = "C12", None
    what = ("warn",)
    p_array = 0.2
    rule = ("one evaluation = one call of a public function whose set of validity-range warnings was compared, key by key and value by "
            "value, with the ranges of the reference model; distinct = different combinations of function, supplied parameters, array "
            "layout and reported ranges")

    def pool(self):
        # keep the functions that can report a range at all
        es = entries(None)
        rng = np.random.default_rng(3)
        keep = []
        for e in es:
            hit = False
            for _ in range(30):
                a = E.sample(e, rng)
                w = Warn()
                w.log = []
                try:
                    e.func(w, **{k: float(v) if isinstance(v, int) and not isinstance(v, bool) else v for k, v in a.items()})
                except Exception:
                    pass
                if w.log or w.out or w.may or w.notes:
                    hit = True
                    break
            if hit:
                keep.append(e)
        self.silent = [e for e in es if e not in keep]
        return keep

    def extra(self, rec, wid):
        self.rng2 = np.random.default_rng(1000 + wid)
        self.helper(rec, wid)

    def work(self, rec, wid, nw, ss, deadline):
        tr = E.Tracer(self.mods)
        wl = E.Workload(self.es, ss, p_array=self.p_array)
        fns = {e.key: E.resolve(e) for e in self.es + self.silent}
        self.helper(rec, wl.rng)
        order = list(self.es)
        rng = wl.rng
        k = 0
        while time.monotonic() < deadline and len(rec.viol) < 10:
            k += 1
            rng.shuffle(order)
            for e in order + (self.silent if k % 8 == 0 else []):
                if time.monotonic() > deadline:
                    break
                for _ in range(3):
                    self.one(rec, wl.next(e), fns[e.key])
                if e in self.silent:
                    continue
                a = E.sample(e, rng)
                a = steer(e, rng, a)
                rec.add("steered_to_limits")
                self.one(rec, E.Case(e, a), fns[e.key])
                if rng.random() < 0.3:
                    rows = [steer(e, rng, {**a}) for _ in range(2)] + [a]
                    b = dict(a)
                    for p in E.arrayable(e):
                        if p in a and isinstance(a[p], float) and a[p] == a[p] and len({r[p] for r in rows}) > 1:
                            b[p] = np.array([r[p] for r in rows])
                    self.one(rec, E.Case(e, b), fns[e.key])
            if k % 4 == 0:
                self.helper(rec, rng)
        rec.calls = sum(tr.calls.values())
        rec.count["call_edges"] = set(tr.edges)
        rec.count["functions_called"] = {k for k, v in tr.calls.items() if v}

    def one(self, rec, case, fn):
        obs = E.observe(fn, case.args)
        j = E.judge(case, obs, self.what)
        if j is None:
            rec.undecided += 1
            return
        rec.ok(signature(case, case.last, obs), case.entry.key)
        rec.add("validity_warnings_seen", len(obs.warns))
        for r in case.last:
            rec.add("ranges_respected", r.W.inside)
        if case.entry.key.startswith(F_V21):
            for w in obs.warns:
                if w[0] == "Ratio H2%/Hs" and w[1].startswith("Modified Van der Meer"):
                    rec.add("known_v21")
        if rec.n % 499 == 5 and obs.warns:
            rec.sample("%s(%s): %s = %r outside %r - %r" % ((case.entry.name, show(case.args)[:120]) + obs.warns[0][:1] + (obs.warns[0][4],)
                                                           + obs.warns[0][2:4]))
        for aspect, text in j:
            if aspect in self.what:
                rec.violation(text, case.entry.key, case.args, aspect=aspect)

    def helper(self, rec, rng):
        """the shared range test itself: inclusive limits, one report per offending element, per-element verdicts"""
        import sys
        mod = sys.modules.get(E.BASE + "core_utility")
        fn = getattr(mod, "check_variable_validity_range", None)
        if fn is None:
            return
        for _ in range(40):
            lo = float(np.round(rng.uniform(-5, 5), 2))
            hi = float(lo + np.round(rng.uniform(0, 5), 2)) if rng.random() < 0.9 else math.inf
            vals = []
            for _ in range(int(rng.integers(1, 6)) if rng.random() < 0.97 else int(rng.integers(6, 2500))):
                r = rng.random()
                if r > 0.98:
                    vals.append(float(rng.choice([math.inf, -math.inf, 0.0, -0.0, 1e-300, 1e300])))
                    continue
                vals.append(lo if r < 0.2 else hi if r < 0.4 and math.isfinite(hi) else float(np.nextafter(lo, -99)) if r < 0.5
                            else float(np.nextafter(hi, 99)) if r < 0.6 and math.isfinite(hi) else float(rng.uniform(lo - 2, lo + 7)))
            form = int(rng.integers(7))
            if form == 0:
                v, vals = vals[0], vals[:1]
            elif form == 1:
                v = np.array(vals)
            elif form == 2:
                v = list(vals)
            elif form == 3 and math.isfinite(vals[0]):
                v, vals = int(round(vals[0])), [int(round(vals[0]))]
            elif form == 4:  # rows and columns, read row by row
                v = np.array([vals, vals[::-1]], order="F" if rng.random() < 0.5 else "C")
                vals = vals + vals[::-1]
            elif form == 5:
                v, vals = np.float64(vals[0]), vals[:1]
            elif all(math.isfinite(x) and abs(x) < 1e9 for x in vals):
                vals = [int(round(x)) for x in vals]
                v = np.array(vals)
            else:
                v = np.array(vals)
            args = dict(variable_name="quantity (x)/y", formula_name="Some (2001)", values=v, min_value=lo, max_value=hi)
            o = E.observe(fn, args)
            exp = [("quantity (x)/y", "Some (2001)", lo, hi, float(x)) for x in vals if x < lo or x > hi]
            rec.ok(("helper", form, len(vals), len(exp)), "core_utility.check_variable_validity_range")
            if o.exc is not None:
                rec.violation("raised %r" % o.exc, "core_utility.check_variable_validity_range", args)
            elif o.warns != exp:
                rec.violation("reported %r, expected %r" % (o.warns, exp), "core_utility.check_variable_validity_range", args)
            elif not (isinstance(o.value, list) and [bool(x) for x in o.value] == [lo <= x <= hi for x in vals]):
                rec.violation("verdict %r" % (o.value,), "core_utility.check_variable_validity_range", args)

    def known(self, tot):
        if tot.count.get("known_v21"):
            return ["vandermeer2021 damage number and rock diameter report a 'Ratio H2%/Hs' of 1.0 outside the range of the Modified Van "
                    "der Meer formula, a quantity the formula does not use (known_findings.txt)"]
        return []


CHECKS = {"C12": C12}
