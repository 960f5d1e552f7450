"""C10: iterative computations end, and what they return satisfies the equation they solve."""
import math
import time

import numpy as np

from . import engine as E
from .inverses import roundtrip, qprep
from .model import REG
from .relations import (CP, Code, CodeFailed, O, RA, RR, RelCheck, Rel, TB, U_, Undecided, eq, first, judge, num, only)
from .runner import show
from .searches import TK, Searches


def tol(rng, a, lo=-10.0, hi=-2.5, name="tolerance"):
    if rng.random() < 0.75:
        a[name] = float(10 ** rng.uniform(lo, hi))
    else:
        a.pop(name, None)
    for k in ("max_iter", "max_iterations"):
        a.pop(k, None)
    return a


def asD(rng, a):
    if "M50" in a and "Dn50" not in a:
        a["Dn50"] = a.pop("M50") ** (1 / 3) / 10
    a.pop("M50", None)
    return a


def dispersion(call, a):
    L = num(call(CP + "calculate_local_wavelength", a))
    k = 2 * math.pi / L
    yield eq("dispersion relation w^2 = g k tanh(k h)", (2 * math.pi / num(a["T"])) ** 2, a.get("g", 9.81) * k * np.tanh(k * num(a["h"])), 1e-5)


def runup(m):
    p = U_ + m + "."
    t = U_ + "taw2002."
    f = p + "iteration_procedure_z2p"

    def run(call, a):
        z = call(f, a)
        L = call(t + "calculate_berm_length", only(t + "calculate_berm_length", a))
        gb = call(t + "calculate_influence_berm_gamma_b", only(t + "calculate_influence_berm_gamma_b", {**a, "z2p": z, "L_berm": L}))
        cot = call(t + "determine_average_slope", only(t + "determine_average_slope", {**a, "z2p": z}))
        r = p + "calculate_wave_runup_height_z2p"
        b = only(r, {**a, "gamma_b": gb, "cot_alpha": cot}, drop=("cot_alpha_down", "cot_alpha_up", "B_berm", "db", "beta"))
        zz = first(call(r, b))
        yield eq("run-up of the profile seen by this run-up", num(zz), num(z), 1e-9, 2 * a.get("tolerance", 1e-4))
    return Rel(m + " run-up with berm", f, run, lambda r, a: tol(r, a))


COEF = ("c1", "c2", "c3", "c4", "use_best_fit")


def bermsteps(m):
    """the berm factor is that of the run-up of a slope with the berm factor of the run-up without berm"""
    p = U_ + m + "."
    t = U_ + "taw2002."
    f = p + "iteration_procedure_gamma_b"

    def run(call, a):
        got = call(f, a)
        gb = 1.0
        r, g = p + "calculate_wave_runup_height_z2p", t + "calculate_influence_berm_gamma_b"
        for _ in (0, 1):
            z = first(call(r, only(r, {**a, "gamma_b": gb, "cot_alpha": a["cot_alpha_average"]}, drop=("B_berm", "db"))))
            gb = call(g, only(g, {**a, "z2p": z}))
        yield eq("berm factor after its two steps", num(got), num(gb) if np.any(num(a["B_berm"]) != 0) and np.any(num(a["L_berm"]) != 0) else 1.0, 1e-9)
    return Rel(m + " berm factor", f, run)


def composite(m, key):
    """run-up (or overtopping) of a composite slope is that of its average slope, found by the iteration"""
    p = U_ + m + "."
    t = U_ + "taw2002."
    z = p + "iteration_procedure_z2p"

    def prep(rng, a):
        a.pop("cot_alpha", None)
        a.pop("gamma_b", None)
        a.pop("beta", None)
        if "use_best_fit" in a and rng.random() < 0.5:
            a.pop("use_best_fit")
        for k, lo, hi in (("cot_alpha_down", 1.0, 6.0), ("cot_alpha_up", 1.0, 6.0), ("gamma_beta", 0.7, 1.0)):
            if k not in a or not a[k] == a[k]:
                a[k] = float(rng.uniform(lo, hi))
        if rng.random() < 0.6:
            a["B_berm"] = float(rng.uniform(0.1, 6.0)) * a["Hm0"]
            a["db"] = float(rng.uniform(-1.5, 1.5)) * a["Hm0"]
        return a

    def run(call, a):
        e = {"B_berm": 0.0, "db": 0.0, "gamma_f": 1.0, **a}
        o = "overtopping" in key  # the coefficients of the discharge are not those of the run-up
        if o:
            e = {k: v for k, v in e.items() if k not in COEF or k == "use_best_fit"}
        zz = call(z, only(z, e))
        cot = call(t + "determine_average_slope", only(t + "determine_average_slope", {**e, "z2p": zz}))
        v = call(key, a)
        if np.any(num(e["B_berm"]) != 0):
            L = call(t + "calculate_berm_length", only(t + "calculate_berm_length", e))
            f = p + "iteration_procedure_gamma_b"
            gb = call(f, only(f, {**e, "cot_alpha_average": cot, "L_berm": L}))
        else:
            gb = 1.0
        w = call(key, {**{k: x for k, x in a.items() if k not in ("cot_alpha_down", "cot_alpha_up", "B_berm", "db")}, "cot_alpha": cot, "gamma_b": gb})
        yield eq("result for the average slope and berm factor of the iteration", num(first(v)), num(first(w)), 1e-8)
    return Rel("%s %s of a composite slope" % (m, key.rpartition(".")[2]), key, run, prep)


def windy(rng, a):
    a = qprep(rng, a)
    a.pop("g", None)
    a["gamma_v"] = float(rng.uniform(0.4, 1.0)) if "gamma_v" not in a or a["gamma_v"] != a["gamma_v"] else a["gamma_v"]
    a["include_influence_wind"] = True
    return tol(rng, a, -11)


def wind(call, a):
    p = O + "vangent2025."
    v = call(p + "calculate_crest_freeboard_Rc", a)
    u = call(p + "calculate_overtopping_discharge_q", only(p + "calculate_overtopping_discharge_q", {**a, "Rc": first(v)}))
    yield eq("discharge with wind over the freeboard found", num(first(u)), num(a["q"]), 1e-7)


def kramer(call, a):
    p = RA + "kramerburcharth2004_lowcrested."
    D = num(call(p + "calculate_nominal_rock_diameter_Dn50", a))
    r = num(a["Rc"]) / D
    Delta = (num(a["rho_armour"]) - 1025) / 1025
    yield eq("1.36 - 0.23 Rc/Dn50 + 0.06 (Rc/Dn50)^2 = Hs/(Delta Dn50)", num(a["Hs"]) / (Delta * D), 1.36 - 0.23 * r + 0.06 * r * r, 1e-8)


class C10(Searches, RelCheck):
    pid = "C10"
    secs = {"quick": 60, "thorough": 300}
    p_array = 0.3
    rule = ("one evaluation = the residual of the governing equation at one computed solution, or one hostile call whose ending was "
            "awaited, or one judgement of the non-convergence report; distinct = different combinations of function, supplied "
            "arguments, array layout, order of magnitude of the tolerance and outcome")
    assumptions = ["a single call that has not returned after 20 s counts as not ending (the slowest observed ones take well below that)",
                   "where the published fixed-point iteration (reference model) does not converge either, the residual is not judged"]

    def relations(self):
        d, n, h = "calculate_damage_number_S", "calculate_nominal_rock_diameter_Dn50", "calculate_significant_wave_height_Hs"
        H = "calculate_maximum_significant_wave_height_Hs"
        es, ju, kb = RA + "etemadshahidi2020.", RA + "jumelet2024.", RA + "kramerburcharth2004_lowcrested."
        tb, v7, vp = TB + "etemadshahidi2021.", RR + "vangent2007.", RR + "vangentpozueta2004."
        T = lambda r, a: tol(r, asD(r, a))  # noqa: E731
        X = lambda r, a: (asD(r, a), a.pop("max_iter", 0))[0]  # noqa: E731
        return [
            Rel("dispersion relation", CP + "calculate_local_wavelength", dispersion),
            Rel("dispersion relation, extreme depths", CP + "calculate_local_wavelength", dispersion, extreme),
            runup("taw2002"), runup("eurotop2018"), bermsteps("taw2002"), bermsteps("eurotop2018"),
            composite("taw2002", U_ + "taw2002.calculate_wave_runup_height_z2p"),
            composite("eurotop2018", U_ + "eurotop2018.calculate_wave_runup_height_z2p"),
            composite("taw2002", O + "taw2002.calculate_overtopping_discharge_q"),
            composite("taw2002", O + "taw2002.calculate_crest_freeboard_Rc"),
            Rel("vangent2025 freeboard with wind", O + "vangent2025.calculate_crest_freeboard_Rc", wind, windy),
            roundtrip("etemadshahidi2020 rock size", es + d, "S", es + n, "Dn50", T, 1e-7),
            roundtrip("jumelet2024 wave height", ju + d, "S", ju + h, "Hs", T, 1e-7),
            Rel("kramerburcharth2004 rock size", kb + n, kramer, T),
            roundtrip("kramerburcharth2004 freeboard", kb + h, "Hs", kb + "calculate_crest_freeboard_Rc", "Rc", T, 1e-7),
            roundtrip("etemadshahidi2021 wave height", tb + "calculate_damage_Nod", "Nod", tb + h, "Hs", X, 1e-7),
            roundtrip("etemadshahidi2021 wave height and size", tb + "calculate_nominal_diameter_Dn50", "Dn50", tb + h, "Hs", X, 1e-7),
            roundtrip("vangent2007 rear-side wave height", v7 + d, "S", v7 + H, "Hs", T, 1e-7),
            roundtrip("vangentpozueta2004 rear-side wave height", vp + d, "S", vp + H, "Hs", T, 1e-7),
        ]

    def one(self, rec, r, code, a):
        t = a.get("tolerance")
        v = judge(r, code, a)
        if v == "undecided":
            rec.undecided += 1
            return
        rec.ok((r.name, tuple(sorted(a)), tuple(k for k, x in a.items() if isinstance(x, np.ndarray)),
                None if t is None else round(math.log10(t))), r.name)
        rec.count.setdefault("relations", set()).add(r.name)
        rec.add("residuals_judged")
        if v != "ok":
            rec.violation(v, r.name, a, calls=[(k, show(x)[:300], repr(o)[:200]) for k, x, o in code.log[:6]])
        elif rec.n % 997 == 5:
            rec.sample("%s: %s" % (r.name, "; ".join("%s(%s) -> %s" % (k.split(".")[-1], show(x)[:90], repr(o)[:60]) for k, x, o in code.log[:2])))

    def work(self, rec, wid, nw, ss, deadline):
        ch = ss.spawn(2)
        rng = np.random.default_rng(ch[0])
        self.codes = {}
        t0 = time.monotonic()
        if wid == 0:
            self.slow(rec)
        while time.monotonic() < t0 + 0.45 * (deadline - t0) and len(rec.viol) < 10:
            self.hostile(rec, rng)
            self.stubborn(rec, rng)
            self.takahashi_H(rec, rng)
            self.takahashi_h(rec, rng)
            self.report(rec, rng)
        super().work(rec, wid, nw, ch[1], deadline)

    def hostile(self, rec, rng):
        """arguments of any size, undefined, zero or negative"""
        es = list(REG.values())
        for _ in range(25):
            e = es[int(rng.integers(len(es)))]
            a = E.sample(e, rng)
            for k in list(a):
                if isinstance(a[k], float) and rng.random() < 0.25:
                    r = rng.random()
                    a[k] = (float(10 ** rng.uniform(-5, 5)) if r < 0.6 else 0.0 if r < 0.7 else -a[k] if r < 0.8 else math.nan if r < 0.9
                            else math.inf if r < 0.93 else a[k] * 1e3)
            if "tolerance" in e.params and rng.random() < 0.7:
                a["tolerance"] = float(rng.choice([0.0, -1.0, 1e-300, math.nan, 1e-16]))
            if "max_iterations" in e.params and not isinstance(a.get("max_iterations"), int):
                a["max_iterations"] = int(rng.integers(1, 400))
            if rng.random() < 0.3:
                a = E.to_array(e, rng, a)
            self.awaited(rec, e.key, a, "hostile")
        for name in ("calculate_significant_depth_above_toe_hacc",):
            a = self.tk(rng)
            a.pop("hacc")
            for k in list(a):
                if rng.random() < 0.2:
                    r = rng.random()
                    a[k] = (float(a[k] * 10 ** rng.uniform(-2, 1)) if r < 0.6 else 0.0 if r < 0.75 else -a[k] if r < 0.85 else math.nan)
            a["Hs"] = min(a["Hs"], 50.0)
            self.awaited(rec, TK + name, a, "hostile")

    def stubborn(self, rec, rng):
        """no iterate is ever accepted: only the limit on the number of iterations ends the computation"""
        es = [e for e in REG.values() if "tolerance" in e.params]
        for e in es:
            a = E.sample(e, rng)
            a["tolerance"] = float(rng.choice([0.0, -1.0, -1.0]))
            for k in ("max_iter", "max_iterations"):
                if k in e.params:
                    a[k] = int(rng.choice([1, 2, 5, 20, 60]))
            if "include_influence_wind" in e.params:
                a["include_influence_wind"] = True
            if rng.random() < 0.3:
                a = E.to_array(e, rng, a)
            self.awaited(rec, e.key, a, "stubborn")

    # ------------------------------------------------------------ the non-convergence report
    def report(self, rec, rng):
        for key in (RR + "vangent2007.calculate_maximum_significant_wave_height_Hs",
                    RR + "vangentpozueta2004.calculate_maximum_significant_wave_height_Hs"):
            e = REG[key]
            f = E.resolve(e)
            a = E.sample(e, rng)
            a.pop("max_iterations", None)
            t = a["tolerance"] = float(10 ** rng.uniform(-8, -3))
            n = int(rng.choice([2, 3, 4, 6, 10, 30, 100, 400]))
            os_ = {m: E.observe(f, {**a, "max_iterations": m}) for m in (n // 2 or 1, n - 1, n, 4 * n + 50)}
            if any(o.exc is not None or not np.all(np.isfinite(num(o.value))) for o in os_.values()):
                rec.undecided += 1
                continue
            v = {m: float(num(o.value).reshape(-1)[0]) for m, o in os_.items()}
            said = any("iteration" in s.lower() for s in os_[n].other)
            if abs(v[n] - v[n - 1]) > 3 * t:
                rec.ok(("report", key, "needed", n), key)
                rec.add("reports_judged")
                if not said:
                    rec.violation("no report of non-convergence after %d iterations (last change %r, tolerance %r)" % (n, abs(v[n] - v[n - 1]), t),
                                  key, {**a, "max_iterations": n})
            elif v[n // 2 or 1] == v[n] == v[4 * n + 50] and n > 2:
                rec.ok(("report", key, "not needed", n), key)
                rec.add("reports_judged")
                if said:
                    rec.violation("non-convergence reported although converged within %d of %d iterations" % (n // 2, n), key, {**a, "max_iterations": n})

    # ------------------------------------------------------------ known finding
    SLOW = dict(Dn50=0.5, Tp=2.5, hacc=20.0, Bt=5.0, rho_rock=2650.0, rho_water=1025.0, beta=0.0)

    def slow(self, rec):
        f = getattr(self.mods.get(E.BASE + TK[:-1]), "calculate_significant_wave_height_Hs", None)
        if f is None:
            return
        lim, E.LIMIT[0] = E.LIMIT[0], 4.0
        try:
            o = E.observe(f, self.SLOW)
        finally:
            E.LIMIT[0] = lim
        if isinstance(o.exc, (E.NotTerminated, MemoryError)):
            rec.add("known_slow")

    def known(self, tot):
        if tot.count.get("known_slow"):
            return ["takahashi1990_caisson.calculate_significant_wave_height_Hs does not end in practice for deep water above the toe "
                    "(%s): its table of trial wave heights grows exponentially with the relative depth (known_findings.txt)" % show(self.SLOW)]
        return []


def extreme(rng, a):
    a["T"] = float(10 ** rng.uniform(-0.5, 2))
    a["h"] = float(10 ** rng.uniform(-3, 3.5))
    return a


CHECKS = {"C10": C10}
