"""C14, C15, C16, C19, C20: scaling, direction, equivalent input, documented defaults, dimensional variants."""
import math
import time

import numpy as np

from . import engine as E
from . import model
from .model import REG
from .relations import (CA, CP, Code, CodeFailed, FC, FW, O, RA, RR, RelCheck, Rel, T, TB, U_, Model, Undecided, eq, first, judge, le, num, only,
                        perturb)
from .runner import show

VOL = lambda a: np.sqrt(num(a.get("g", 9.81)) * num(a.get("Hm0", a.get("Hm0_HF"))) ** 3)  # noqa: E731


def flt(x):
    return float(x) if np.ndim(x) == 0 else np.asarray(x)


# ---------------------------------------------------------------- C20
def scaled(name, dim, dimless, factor, argmap=None, flags=False):
    def run(call, a):
        v = call(dim, a)
        b = only(dimless, argmap(dict(a), call) if argmap else a)
        w = call(dimless, b)
        yield eq("dimensional = scale * dimensionless", num(first(v)), num(first(w)) * factor(a), 1e-9, 1e-300)
        if flags:
            yield eq("limit flags", num(v[1]), num(w[1]), 0.0)
    return Rel(name, dim, run, gv if "vangent2025" in dim else None)


def gv(rng, a):
    if "gamma_v" not in a:
        a["gamma_v"] = float(rng.uniform(0.8, 1.2))
    return a


def hm0(a):
    return num(a["Hm0"])


def governs(name, fq, fmax, upper=True):
    """the result never exceeds the maximum, and the flag tells whether the maximum governs"""
    def prep(rng, a):
        for k in ("sigma", "beta", "c1", "c2", "c3", "c4", "include_influence_wind"):
            a.pop(k, None)
        a["gamma_beta"] = float(rng.uniform(0.5, 1.0)) if rng.random() < 0.7 else 1.0
        a.setdefault("gamma_f", float(rng.uniform(0.4, 1.0)))
        if "vangent2025" in fq:
            a["design_calculation"] = False
            a["gamma_b"] = a.get("gamma_b", float(rng.uniform(0.6, 1)))
            gv(rng, a)
        return a

    def run(call, a):
        q, flag = call(fq, a)
        b = dict(a)
        best = bool(a.get("use_best_fit", False))
        if "taw2002" in fq:
            b["c3"] = 2.6 if best else 2.3
        elif "eurotop2018" in fq:
            b["c2"], b["c3"] = (0.09, 1.5) if best else (0.1035, 1.35)
        else:
            b["ksi_mm10"] = call(CP + "calculate_Iribarren_number_ksi", {"H": a["Hm0"], "T": a["Tmm10"], "cot_alpha": a["cot_alpha"]})
        m = num(call(fmax, only(fmax, b)))
        q = num(q)
        yield le("result within its maximum", q, m, 1e-9)
        at = np.isclose(q, m, rtol=1e-9, atol=0)
        yield eq("flag set exactly when the maximum governs", num(flag), num(at), 0.0)
    return Rel(name, fq, run, prep, arr=True)


class C20(RelCheck):
    pid = "C20"

    def relations(self):
        rs = []
        for m in ("taw2002", "eurotop2018", "vangent2025"):
            p = O + m + "."
            rs.append(scaled(m + " discharge", p + "calculate_overtopping_discharge_q", p + "calculate_dimensionless_overtopping_discharge_q", VOL, flags=True))
            rs.append(scaled(m + " freeboard", p + "calculate_crest_freeboard_Rc", p + "calculate_dimensionless_crest_freeboard", hm0, flags=True))
            rs.append(governs(m + " maximum discharge", p + "calculate_dimensionless_overtopping_discharge_q", p + "q_diml_max_equation"))
            rs.append(governs(m + " maximum freeboard", p + "calculate_dimensionless_crest_freeboard", p + "Rc_diml_max_equation"))
        for m in ("eurotop2018", "eurotop2007"):
            p = O + m + "."
            rs.append(scaled(m + " rubble discharge", p + "calculate_overtopping_discharge_q_rubble_mound",
                             p + "calculate_dimensionless_overtopping_discharge_q_rubble_mound", VOL))
            rs.append(scaled(m + " rubble freeboard", p + "calculate_crest_freeboard_Rc_rubble_mound",
                             p + "calculate_dimensionless_crest_freeboard_rubble_mound", hm0))
        p = O + "vangent2021_caisson."
        rs.append(scaled("vangent2021 discharge", p + "calculate_overtopping_discharge_q", p + "calculate_dimensionless_overtopping_discharge_q", VOL))
        rs.append(scaled("vangent2021 freeboard", p + "calculate_crest_freeboard_Rc", p + "calculate_dimensionless_crest_freeboard", hm0))
        p = O + "deridder2024."
        for q in ("24", "26"):
            rs.append(scaled("deridder2024 q eq" + q, p + "calculate_overtopping_discharge_q_eq" + q,
                             p + "calculate_dimensionless_overtopping_discharge_eq" + q, VOL))
        rs.append(scaled("deridder2024 Rc eq24", p + "calculate_crest_freeboard_discharge_q_eq24",
                         p + "calculate_dimensionless_crest_freeboard_discharge_q_eq24", hm0))
        p26 = O + "deridder2026."
        for q in ("28", "32"):
            rs.append(scaled("deridder2026 q eq" + q, p26 + "calculate_overtopping_discharge_q_eq" + q,
                             p26 + "calculate_dimensionless_overtopping_discharge_eq" + q, VOL))

        def th(b, call):
            if "theta" in b:  # perpendicular waves are the default of both
                b["gamma_beta"] = call(p26 + "calculate_gamma_beta", {"theta": b.pop("theta")})
            return b
        rs.append(scaled("deridder2026 Rc eq28", p26 + "calculate_crest_freeboard_discharge_q_eq28",
                         p26 + "calculate_dimensionless_crest_freeboard_discharge_q_eq28", hm0, th))
        for m in ("taw2002", "eurotop2018"):
            p = U_ + m + "."
            rs.append(scaled(m + " run-up", p + "calculate_wave_runup_height_z2p", p + "calculate_dimensionless_wave_runup_height_z2p", hm0, flags=True))
        p = T + "vangent2024_setup."
        for k in ("impermeable", "permeable"):
            rs.append(scaled("set-up " + k, p + "calculate_structure_induced_setup_delta_" + k,
                             p + "calculate_dimensionless_structure_induced_setup_" + k, hm0))
        for u in ("xbloc", "xblocplus"):
            p = CA + u + "."
            rs.append(scaled(u + " mass and volume", p + "calculate_unit_mass_M", p + "calculate_unit_volume_V", lambda a: num(a["rho_armour"])))
        p = TB + "takahashi1990_caisson."
        rs.append(scaled("takahashi1990 size", p + "calculate_nominal_diameter_Dn50", p + "calculate_stability_number_Ns",
                         lambda a: 1.0) if False else ns_rel(p))
        rs += [goda_forms(), reaction_forms()]
        rs += [flag_truth(k) for k in flagged()]
        return rs


def ns_rel(p):
    def run(call, a):
        D = call(p + "calculate_nominal_diameter_Dn50", a)
        N = call(p + "calculate_stability_number_Ns", only(p + "calculate_stability_number_Ns", a))
        d = call(CP + "calculate_buoyant_density_Delta", {"rho_rock": a["rho_rock"], "rho_water": a["rho_water"]})
        yield eq("Dn50 Ns Delta = Hs", num(D) * num(N) * num(d), num(a["Hs"]), 1e-9)
    return Rel("takahashi1990 size and stability number", p + "calculate_nominal_diameter_Dn50", run)


GODA = ("FH", "FU", "MH", "MU", "p1", "p2", "p3", "p4", "hstar_c", "pu", "h_5Hs", "etastar", "L", "alpha1", "alpha2", "alpha3")


def goda_forms():
    f = FC + "goda1985.calculate_pressures_and_forces"

    def run(call, a):
        t = call(f, {**a, "return_dict": False})
        d = call(f, {**a, "return_dict": True})
        for k, v in zip(GODA, t):
            yield eq("tuple and dictionary agree on " + k, v, d[k], 1e-12)
    return Rel("goda1985 tuple and dictionary", f, run)


REACT = ("FH", "FU", "MH", "MU", "p1", "pe", "pu", "impulsive_breaking", "SF_sliding", "SF_overturning")


def reaction_forms():
    f = FC + "goda1985.calculate_forces_and_reactions"
    f0 = FC + "goda1985.calculate_pressures_and_forces"

    def run(call, a):
        t = call(f, {**a, "return_dict": False})
        d = call(f, {**a, "return_dict": True})
        for k, v in zip(REACT, t):
            yield eq("tuple and dictionary agree on " + k, v, d[k], 1e-12)
        d0 = call(f0, only(f0, {**a, "return_dict": True}))
        for k in GODA:
            yield eq("pressures alone and with reactions agree on " + k, d0[k], d[k], 1e-12)
    return Rel("goda1985 reactions, tuple and dictionary", f, run)


def flag_truth(key):
    """every flag of the result is the one the published formula decides"""
    def flags(v):
        return [(i, x) for i, x in enumerate(v) if isinstance(x, (bool, np.bool_)) or (isinstance(x, np.ndarray) and x.dtype == bool)]

    def run(call, a):
        v = call(key, a)
        ws = []
        for eps in (0.0, 1e-9, -1e-9):
            for mode in (0, 1):
                w = flags(Model(mode)(key, perturb(a, eps, REG[key].exact) if eps else a))
                if not w:
                    raise Undecided()
                ws.append(w)
        for w in ws[1:]:
            if any(not np.array_equal(x[1], y[1]) for x, y in zip(w, ws[0])):
                raise Undecided()  # on the limit itself
        for i, x in ws[0]:
            yield eq("flag %d as the published limit decides" % i, num(v[i]), num(x), 0.0)
    return Rel("flags of " + key, key, run, gv if "vangent2025" in key else None)


def flagged():
    """functions whose published result contains a flag"""
    rng = np.random.default_rng(5)
    out = []
    for k, e in REG.items():
        for _ in range(40):
            r = E.reference(e, E.sample(e, rng))
            if r.kind == "value":
                if isinstance(r.value, tuple) and any(isinstance(x, (bool, np.bool_)) for x in r.value):
                    out.append(k)
                break
    return out


# ---------------------------------------------------------------- C16
def has(e, *ps):
    return all(p in e.params for p in ps)


def dn_mass(e, dn="Dn50", m="M50", rho="rho_armour"):
    def prep(rng, a):
        a.pop(m, None)
        if dn not in a or not a[dn] == a[dn]:
            a[dn] = E.draw(rng, E.domain(e, dn))
        if rho not in a or not a[rho] == a[rho]:
            a[rho] = E.draw(rng, E.domain(e, rho))
        return a

    def run(call, a):
        v = call(e.key, a) if m not in e.required else None
        b = dict(a)
        x = b.pop(dn)
        b[m] = flt(num(b[rho]) * num(x) ** 3)
        if dn in e.required:
            b[dn] = np.nan
            a = {**a, m: np.nan}
            v = call(e.key, a)
        w = call(e.key, b)
        yield eq("given as %s and as %s" % (dn, m), first(v), first(w), 1e-8)
        c = dict(b)
        c[dn] = x
        c[m] = flt(num(b[m]))
        yield eq("given as both", first(call(e.key, c)), first(v), 1e-8)
    return Rel("%s: %s or %s" % (e.key, dn, m), e.key, run, prep)


def beta_gamma(e, fac, **extra):
    def prep(rng, a):
        a.pop("gamma_beta", None)
        a["beta"] = E.draw(rng, E.domain(e, "beta")) if "beta" not in a or not a["beta"] == a["beta"] else a["beta"]
        if "vangent2025" in e.key:
            gv(rng, a)
        return a

    def run(call, a):
        v = call(e.key, a)
        b = dict(a)
        args = only(fac, a)
        if callable(extra.get("args")):
            args = extra["args"](a)
        b["gamma_beta"] = call(fac, args)
        if not extra.get("keep"):
            b.pop("beta")
        w = call(e.key, b)
        yield eq("angle or influence factor", first(v), first(w), 1e-8)
        if not extra.get("keep"):
            b["beta"] = a["beta"]
            yield eq("a given influence factor takes precedence", first(call(e.key, b)), first(w), 1e-8)
    return Rel("%s: beta or gamma_beta" % e.key, e.key, run, prep)


def slopes(e):
    def prep(rng, a):
        for k in ("cot_alpha_down", "cot_alpha_up"):
            a.pop(k, None)
        if "cot_alpha" not in a or not a["cot_alpha"] == a["cot_alpha"]:
            a["cot_alpha"] = float(rng.uniform(1, 8))
        a.pop("B_berm", None)
        a.pop("db", None)
        return a

    def run(call, a):
        v = call(e.key, a)
        b = dict(a)
        c = b.pop("cot_alpha")
        b["cot_alpha_down"] = b["cot_alpha_up"] = c
        yield eq("one slope or two equal slopes", first(v), first(call(e.key, b)), 1e-6)
        b = {**a, "B_berm": 0.0, "db": 0.0}
        yield eq("no berm or a berm of zero width", first(v), first(call(e.key, b)), 1e-6)
    return Rel("%s: single or composite slope" % e.key, e.key, run, prep)


COEFS = ("c1", "c2", "c3", "c4")
SHAPE = ("cot_alpha_down", "cot_alpha_up", "B_berm", "db")


def derived(e):
    """average slope and berm factor left to the function, or computed first and given to it"""
    t = U_ + "taw2002."
    o = "overtopping" in e.module
    p = U_ + ("taw2002." if "taw2002" in e.module else "eurotop2018.")

    def prep(rng, a):
        for k in ("gamma_b", "beta", "cot_alpha") + SHAPE:
            a.pop(k, None)
        a["gamma_beta"] = float(rng.uniform(0.7, 1.0))
        H = a["Hm0"]
        if rng.random() < 0.7:
            a["B_berm"], a["db"] = float(rng.uniform(0.1, 6.0)) * H, float(rng.uniform(-1.5, 1.5)) * H
        if rng.random() < 0.4:
            a["cot_alpha"] = float(rng.uniform(1.0, 7.0))
        else:
            a["cot_alpha_down"], a["cot_alpha_up"] = (float(x) for x in rng.uniform(1.0, 6.0, 2))
        if "gamma_b" in e.params and rng.random() < 0.3:
            a["gamma_b"] = float(rng.uniform(0.6, 1.0))
        if rng.random() < 0.5:
            a.pop("use_best_fit", None)
        return a

    def run(call, a):
        b = {"B_berm": 0.0, "db": 0.0, "gamma_f": 1.0, **a}
        if o:
            b = {k: v for k, v in b.items() if k not in COEFS}
        cot = a.get("cot_alpha")
        if cot is None:
            z = p + "iteration_procedure_z2p"
            cot = call(t + "determine_average_slope", only(t + "determine_average_slope", {**b, "z2p": call(z, only(z, b))}))
        c = {k: x for k, x in a.items() if k not in SHAPE}
        c["cot_alpha"] = cot
        if "gamma_b" in e.params and "gamma_b" not in a and "B_berm" in a:
            L = call(t + "calculate_berm_length", only(t + "calculate_berm_length", b))
            g = p + "iteration_procedure_gamma_b"
            d = {**b, "cot_alpha_average": cot, "L_berm": L}
            if o and "eurotop" in e.module:
                d.pop("use_best_fit", None)
            c["gamma_b"] = call(g, only(g, d))
        yield eq("average slope and berm factor derived or given", num(first(call(e.key, a))), num(first(call(e.key, c))), 1e-8)
    return Rel("%s: derived or given" % e.key, e.key, run, prep)


def derived2025(e):
    """Van Gent (2025): roughness, berm and oblique-wave factors left to the function, or computed first and given to it"""
    p = O + "vangent2025.calculate_influence_"

    def prep(rng, a):
        gv(rng, a)
        for k in ("gamma_f", "gamma_b", "gamma_beta"):
            a.pop(k, None)
        if not a.get("Dn50", 0) > 0:
            a["Dn50"] = float(rng.uniform(0.1, 0.8)) * a["Hm0"]
        if not abs(a.get("beta", 999)) < 90:
            a["beta"] = float(rng.uniform(0, 80))
        if rng.random() < 0.7:
            a["B_berm"], a["db"] = float(rng.uniform(0.1, 6.0)) * a["Hm0"], float(rng.uniform(-1.0, 1.0)) * a["Hm0"]
        return a

    def run(call, a):
        s = call(CP + "calculate_wave_steepness_s", {"H": a["Hm0"], "T": a["Tmm10"]})
        f = {"gamma_f": call(p + "friction_gamma_f", {"Dn50": a["Dn50"], "Hm0": a["Hm0"], "smm10": s}),
             "gamma_b": call(p + "berm_gamma_b", {"Hm0": a["Hm0"], "smm10": s, "Ac": a["Ac"], "B_berm": a.get("B_berm", 0.0),
                                                  "BL": flt(num(a["Ac"]) - num(a.get("db", 0.0)))}),
             "gamma_beta": call(p + "oblique_waves_gamma_beta", {"beta": a["beta"]})}
        v = call(e.key, a)
        for k, x in f.items():
            yield eq("%s derived or given" % k, num(first(v)), num(first(call(e.key, {**a, k: x}))), 1e-8)
        w = {k: x for k, x in a.items() if k not in ("Dn50", "beta", "B_berm", "db")}
        yield eq("all factors derived or given", num(first(v)), num(first(call(e.key, {**w, **f}))), 1e-8)
        yield eq("given factors take precedence", num(first(call(e.key, {**a, **f}))), num(first(v)), 1e-8)
    return Rel("%s: derived or given" % e.key, e.key, run, prep)


def oblique2021(e):
    """Van Gent (2021): wave angle or its influence factor; swell of no height or none at all"""
    def prep(rng, a):
        a.pop("gamma_beta", None)
        if not abs(a.get("beta", 999)) < 90:
            a["beta"] = float(rng.uniform(0, 75))
        return a

    def run(call, a):
        short = a.get("short_crested_waves", True) or a.get("crossing_seas", False)
        lin = a.get("c", 1.0) == 1.0
        cb = (0.75 if short else 0.8) if lin else 0.7
        if not short and not lin:
            raise Undecided()
        gp = (0.89 if lin else 0.85) if a.get("parapet", False) else 1.0
        g = flt((1 - cb / gp) * np.cos(np.radians(num(a["beta"]))) ** 2 + cb / gp)
        v = call(e.key, a)
        w = call(e.key, {**{k: x for k, x in a.items() if k != "beta"}, "gamma_beta": g})
        yield eq("angle or influence factor", num(first(v)), num(first(w)), 1e-8)
        if not a.get("crossing_seas", False):
            yield eq("swell plays no part without crossing seas", num(first(call(e.key, {**a, "Hm0_swell": 0.7, "c_swell": 0.3}))), num(first(v)), 1e-9)
    return Rel("%s: beta or gamma_beta" % e.key, e.key, run, prep)


def best(e):
    """the best-fit coefficients, asked for or given"""
    ps = [p for p in ("c1", "c2", "c3", "c4") if p in e.params]

    def prep(rng, a):
        for p in ps:
            a.pop(p, None)
        a["use_best_fit"] = True
        if "vangent2025" in e.key:
            gv(rng, a)
        return a

    def run(call, a):
        m = e.module.split(".")[-1]
        run_ = "runup" in e.module
        v = call(e.key, a)
        b = dict(a)
        b["use_best_fit"] = False
        c = {("taw2002", True): (1.65, 4.0, 1.5, 1.0), ("eurotop2018", True): (1.65, 4.0, 1.5, 1.0), ("eurotop2018", False): (2.7, 0.09, 1.5, 0.023),
             ("eurotop2007", False): (None, 0.2, 2.6, None)}.get((m, run_))
        if c is None:
            raise Undecided()
        for p in ps:
            if c[int(p[1]) - 1] is not None:
                b[p] = c[int(p[1]) - 1]
        yield eq("best fit requested or given", first(v), first(call(e.key, b)), 1e-8)
    return Rel("%s: best fit" % e.key, e.key, run, prep)


def drop_equal(e, p, value, label):
    """leaving an argument out is the same as giving the neutral value"""
    def prep(rng, a):
        a.pop(p, None)
        if "vangent2025" in e.key:
            gv(rng, a)
        return a

    def run(call, a):
        yield eq(label, first(call(e.key, a)), first(call(e.key, {**a, p: value})), 1e-9)
    return Rel("%s: %s" % (e.key, label), e.key, run, prep)


class C16(RelCheck):
    pid = "C16"
    rule = ("one evaluation = one call with incomplete or contradictory input whose rejection was judged, or one pair of calls that describe "
            "the same case in two equivalent ways and whose results were compared; distinct = different combinations of function, "
            "supplied arguments, array layout and outcome")

    def relations(self):
        rs = []
        for e in REG.values():
            if e.out == "none":
                continue
            for dn, m in (("Dn50", "M50"), ("Dn50_core", "M50_core")):
                if has(e, dn, m):
                    rho = "rho_core" if "core" in dn else "rho_armour" if "rho_armour" in e.params else "rho_rock"
                    rs.append(dn_mass(e, dn, m, rho))
            if has(e, "cot_alpha", "cot_alpha_down", "cot_alpha_up", "Hm0") and e.name.startswith("calculate_") and "Tmm10" in e.params:
                rs.append(slopes(e))
                if "B_berm" in e.params and "gamma_beta" in e.params and e.module.split(".")[-1] in ("taw2002", "eurotop2018", "eurotop2007"):
                    rs.append(derived(e))
            if has(e, "use_best_fit") and "c2" in e.params and not e.name.startswith("check"):
                rs.append(best(e))
            m = e.module
            if "vangent2025" in m and has(e, "Dn50", "gamma_f", "gamma_b"):
                rs.append(derived2025(e))
            if "vangent2021_caisson" in m and has(e, "beta", "gamma_beta"):
                rs.append(oblique2021(e))
            if has(e, "beta", "gamma_beta"):
                if "taw2002" in m and e.name.startswith("calculate"):
                    rs.append(beta_gamma(e, m + ".calculate_influence_oblique_waves_gamma_beta"))
                elif "eurotop2018" in m and e.name.startswith("calculate"):
                    rs.append(beta_gamma(e, m + ".calculate_influence_oblique_waves_gamma_beta",
                                         args=lambda a: {"beta": a["beta"], "gamma_f": a.get("gamma_f", 1.0)}))
                elif "vangent2025" in m and e.name.startswith("calculate"):
                    rs.append(beta_gamma(e, m + ".calculate_influence_oblique_waves_gamma_beta"))
                elif "eurotop2007" in m and e.name.startswith("calculate"):
                    rs.append(beta_gamma(e, U_ + "taw2002.calculate_influence_oblique_waves_gamma_beta"))
        for u in ("xbloc", "xblocplus"):
            q = CA + u + "."

            def perc(call, a, q=q):
                yield eq("seabed slope as percentage or cotangent",
                         call(q + "calculate_correctionfactor_unit_mass_M_by_percslope_seabed", {"perc_slope": 100.0 / a["cot_alpha"]}),
                         call(q + "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", a), 1e-12)
            rs.append(Rel(u + ": seabed slope", q + "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", perc, arr=False))

            def mv(call, a, q=q):
                b = dict(a)
                b["M"] = flt(num(b["rho_armour"]) * num(b.pop("V")))
                yield eq("unit given by volume or mass", call(q + "calculate_wave_height_Hs_from_V", a), call(q + "calculate_wave_height_Hs_from_M", b), 1e-9)
            rs.append(Rel(u + ": volume or mass", q + "calculate_wave_height_Hs_from_V", mv))
        f = CP + "check_usage_stabilitynumber"

        def sn(call, a):
            H, D, dl = (a.get(k, 1.3) for k in ("Hs", "Dn", "Delta"))
            N = flt(num(H) / (num(dl) * num(D)))
            for miss, val in (("Hs", H), ("Dn", D), ("Delta", dl), ("Ns", N)):
                b = {"Hs": H, "Dn": D, "Delta": dl, "Ns": N}
                b.pop(miss)
                yield eq("any three of the four determine the fourth (%s)" % miss, call(f, b)[0], val, 1e-9)
        rs.append(Rel("stability number forms", f, sn))
        return rs

    def prepare(self, tier):
        super().prepare(tier)
        # functions that can reject input: found by sampling the model
        rng = np.random.default_rng(11)
        self.rej = []
        for e in REG.values():
            if E.resolve(e) is None:
                continue
            n = 0
            for _ in range(120):
                if E.reference(e, sparse(e, rng)).kind == "reject":
                    n += 1
            if n:
                self.rej.append((e, n))

    def work(self, rec, wid, nw, ss, deadline):
        rng = np.random.default_rng(ss.spawn(1)[0])
        t0 = time.monotonic()
        share = 0.35 * (deadline - t0)
        while time.monotonic() < t0 + share and len(rec.viol) < 10:
            for e, n in self.rej:
                for _ in range(4):
                    a = sparse(e, rng)
                    r = rng.random()
                    if r < 0.2:
                        a = E.to_array(e, rng, a)
                    elif r < 0.45:
                        a = missing_arrays(e, rng, a)
                    case = E.Case(e, a)
                    obs = E.observe(E.resolve(e), a)
                    j = E.judge(case, obs, ("reject",))
                    if j is None:
                        rec.undecided += 1
                        continue
                    kind = case.last[0].kind
                    rec.ok((e.key, tuple(sorted(a)), kind, case.n), e.key)
                    rec.add("rejections_judged" if kind == "reject" else "accepted_judged")
                    for aspect, text in j:
                        rec.violation(text, e.key, a, aspect=aspect)
        super().work(rec, wid, nw, ss, deadline)


def sparse(e, rng):
    """arguments with optional ones left out, or explicitly missing"""
    r = rng.random()
    a = E.sample(e, rng, p_opt=float(rng.choice([0.0, 0.3, 0.7])), fix=bool(rng.random() < 0.5))
    opts = [p for p in a if p not in e.required]
    for p in opts:
        if rng.random() < 0.35:
            if rng.random() < 0.5 and isinstance(e.defaults.get(p), float) and math.isnan(e.defaults[p]):
                a[p] = math.nan
            else:
                del a[p]
    return a


def missing_arrays(e, rng, a):
    """alternatives given as arrays without a single value in them"""
    ar = E.arrayable(e)
    a = E.to_array(e, rng, a)
    n = next((len(v) for v in a.values() if isinstance(v, np.ndarray)), 3)
    a = dict(a)
    for p in e.params:
        d = e.defaults.get(p)
        if p in ar and p not in e.required and isinstance(d, float) and math.isnan(d) and rng.random() < 0.6:
            if p not in a or (isinstance(a[p], float) and math.isnan(a[p])):
                a[p] = np.full(n, np.nan)
    return a


# ---------------------------------------------------------------- C19
class C19(RelCheck):
    pid = "C19"
    p_array = 0.25
    rule = ("one evaluation = one call that was repeated with every omitted optional argument set to its documented default, or with the "
            "arguments passed by position in the documented order, and compared; distinct = different combinations of function, omitted "
            "arguments, array layout and outcome")

    def relations(self):
        rs = []
        for e in REG.values():
            if not e.params:
                continue
            rs.append(Rel(e.key, e.key, None))
        return rs

    def one(self, rec, r, code, a):
        e = REG[r.key]
        f = E.resolve(e)
        rng = self.rng
        o = E.observe(f, a)
        om = [p for p in e.params if p not in a]
        forms = []
        if om:
            full = {**a, **{p: e.defaults[p] for p in om}}
            forms.append(("with the documented defaults passed explicitly", full, None))
            if len(om) > 1:
                p = om[int(rng.integers(len(om)))]
                forms.append(("with the documented default of %s passed explicitly" % p, {**a, p: e.defaults[p]}, None))
        else:
            full = a
        k = max([i for i, p in enumerate(e.params) if p in a] + [-1]) + 1
        pos = [full[p] for p in e.params[:k]]
        rest = {p: a[p] for p in a if p not in e.params[:k]}
        forms.append(("with positional arguments", rest, pos))
        if k > 1:
            c = int(rng.integers(1, k))
            forms.append(("with %d positional arguments" % c, {p: a[p] for p in a if p not in e.params[:c]}, [full[p] for p in e.params[:c]]))
        for label, kw, ps in forms:
            g = f if ps is None else (lambda ps: (lambda **kw: f(*ps, **kw)))(ps)
            o2 = E.observe(g, kw)
            t = alike(o, o2)
            rec.ok((e.key, tuple(om), label, tuple(x for x, v in a.items() if isinstance(v, np.ndarray)), type(o.exc).__name__, len(o.warns) > 0), e.key)
            if t:
                rec.violation("%s: %s" % (label, t), e.key, a)
        if rec.n % 1999 < len(forms) and o.exc is None:
            rec.sample("%s(%s) = %s, also %s" % (e.name, show(a)[:100], repr(o.value)[:60], forms[0][0]))

    def work(self, rec, wid, nw, ss, deadline):
        self.rng = np.random.default_rng(ss.spawn(1)[0])
        super().work(rec, wid, nw, ss, deadline)


def alike(o, o2, rtol=1e-12):
    if (o.exc is None) != (o2.exc is None):
        return "%r instead of %r" % (o2.exc if o2.exc is not None else o2.value, o.exc if o.exc is not None else o.value)
    if o.exc is not None:
        return None if type(o.exc) is type(o2.exc) else "%r instead of %r" % (o2.exc, o.exc)
    if not eqv(o.value, o2.value, rtol):
        return "%r instead of %r" % (o2.value, o.value)
    a, b = sorted(w[:4] for w in o.warns), sorted(w[:4] for w in o2.warns)
    if a != b:
        return "warnings %r instead of %r" % (b, a)
    return None


def eqv(a, b, rtol):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(eqv(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(eqv(a[k], b[k], rtol) for k in a)
    if a is None or isinstance(a, str):
        return a == b
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return True
    return x.shape == y.shape and np.allclose(x, y, rtol=rtol, atol=0, equal_nan=True)


# ---------------------------------------------------------------- C14
LEN = set("H Hm0 Hs H2p Hm0_swell Hm0_LF Hm0_HF Hm0_deep Hsi HD Rc Ac Gc B B_berm db h ht hc Dn50 Dn50_core Dn D z2p z1p zXp L_berm BL Bc Bt tt "
          "hacc d h_s B1 Bup tup L Rc2_front Rc2_rear Rc_rear Hwall Bwall Fb B_element".split())
TIME = set("T Tmm10 Tm Tp Tpi Tmax Tm02 Tmm10_HF".split())
DIMS = {**{k: 1.0 for k in LEN}, **{k: 0.5 for k in TIME}, "q": 1.5, "M": 3.0, "M50": 3.0, "M50_core": 3.0, "V": 3.0, "FH": 2.0, "FU": 2.0,
        "Wup": 2.0, "FH2p": 2.0, "FV2p": 2.0, "MH": 3.0, "MU": 3.0}
GDIM = {"FH": 2, "FU": 2, "MH": 3, "MU": 3, "p1": 1, "p2": 1, "p3": 1, "p4": 1, "hstar_c": 1, "pu": 1, "h_5Hs": 1, "etastar": 1, "L": 1,
        "Wup": 2, "We": 2, "Me": 3, "te": 1, "pe": 1, "tup": 1, "HD": 1, "Hsi": 1, "Tmax": 0.5, "h_s": 1, "d": 1, "hacc": 1, "Rc": 1, "Bup": 1,
        "B_up": 1}
RHO = ("rho_water", "rho_armour", "rho_rock", "rho_core", "rho_fill_above_SWL", "rho_fill_below_SWL", "rho_concrete", "rho_c")
MASSY = {"M", "M50", "M50_core", "FH", "FU", "Wup", "FH2p", "FV2p", "MH", "MU"}


def outdim(e):
    n = e.name
    if e.out in ("none",):
        return None
    if n.startswith("check_"):
        return {"check_usage_Dn50_or_M50": 1.0}.get(n)
    if "dimensionless" in n or "correctionfactor" in n or "correction_factor" in n or "gamma" in n or "diml" in n:
        return 0.0
    if "goda1985" in e.module:
        return {"calculate_Wup": 2.0, "calculate_pressures_and_forces": "dict", "calculate_forces_and_reactions": "dict",
                "calculate_safety_factors": 0.0, "calculate_bearing_pressures": (1.0, 3.0, 2.0, 1.0)}.get(n)
    if "crest_freeboard" in n or "runup_height" in n or "wave_height" in n or "diameter" in n or "depth_above" in n or "setup_delta" in n \
            or "wavelength" in n or "berm_length" in n or n.startswith("calculate_Dn50") or n.endswith("iteration_procedure_z2p"):
        return 1.0
    if "discharge_q" in n:
        return 1.5
    if "mass_M" in n or n.startswith("calculate_M50") or "volume_V" in n:
        return 3.0
    if "velocity" in n:
        return 0.5
    if n.startswith(("calculate_FH", "calculate_FV")):
        return 2.0
    return 0.0


def compare(label, v, w, d, lam, base=0.0):
    """v at scale 1, w at scale lam"""
    if d == "dict":
        for k in v:
            if k in w and not isinstance(v[k], (bool, str)) and not isinstance(w[k], (bool, str)) and not np.any(np.isnan(num(v[k]))):
                yield eq(label + " " + k, num(v[k]) * lam ** GDIM.get(k, 0), w[k], 1e-7, 1e-9)
        return
    if isinstance(d, tuple):
        for i, (x, y, z) in enumerate(zip(v, w, d)):
            yield eq("%s %d" % (label, i), num(x) * lam ** z, y, 1e-7, 1e-9)
        return
    if isinstance(v, tuple):
        for i, (x, y) in enumerate(zip(v, w)):
            if isinstance(x, (bool, np.bool_)) or (isinstance(x, np.ndarray) and x.dtype == bool):
                yield eq(label + " flag", num(x), num(y), 0.0)
            else:
                yield eq("%s %d" % (label, i), num(x) * lam ** d, y, 1e-7, 1e-12)
        return
    yield eq(label, num(v) * lam ** d, w, 1e-7, 1e-300)


def froude(e, kind):
    d = outdim(e)
    p_d = [p for p in e.params if p in DIMS]

    def prep(rng, a):
        a["_lam"] = float(2.0 ** rng.integers(-3, 4)) if rng.random() < 0.4 else float(math.exp(rng.uniform(math.log(0.15), math.log(8))))
        if "goda1985" in e.module and "return_dict" in e.params:
            a["return_dict"] = True
        if "vangent2025" in e.module and "gamma_v" in e.params:
            gv(rng, a)
        if kind.startswith("g"):
            a["g"] = float(rng.uniform(3, 15))
        return a

    def run(call, a):
        a = dict(a)
        lam = float(np.asarray(a.pop("_lam")).flat[0])
        v = call(e.key, a)
        b = dict(a)
        if kind == "length":
            for p in p_d:
                if p in b:
                    b[p] = flt(num(b[p]) * lam ** DIMS[p])
            # optional lengths keep a neutral default (0 or missing)
            yield from compare("Froude scale %.4g" % lam, v, call(e.key, b), d, lam)
        elif kind == "density":
            for p in e.params:
                if p in RHO:
                    if p not in b:
                        if isinstance(e.defaults.get(p), (int, float)) and e.defaults[p] == e.defaults[p]:
                            b[p] = e.defaults[p]
                        else:
                            continue
                    b[p] = flt(num(b[p]) * lam)
                elif p in MASSY and p in b:
                    b[p] = flt(num(b[p]) * lam)
            w = call(e.key, b)
            if d == "dict":
                for k in v:
                    if k in w and not isinstance(v[k], (bool, str)) and not np.any(np.isnan(num(v[k]))):
                        x = 1 if k in ("FH", "FU", "MH", "MU", "p1", "p2", "p3", "p4", "pu", "Wup", "We", "Me", "pe", "rho_water") else 0
                        yield eq("densities times %.4g: %s" % (lam, k), num(v[k]) * lam ** x, w[k], 1e-7, 1e-9)
                return
            massy = "mass_M" in e.name and d == 3.0 or e.name.startswith(("calculate_M50", "calculate_FH", "calculate_FV", "calculate_Wup"))
            yield from compare("densities times %.4g" % lam, v, w, 1.0 if massy else 0.0, lam)
        else:
            b["g"] = a["g"] * lam
            for p in e.params:
                if p in b:
                    if p in TIME:
                        if kind == "g":
                            b[p] = flt(num(b[p]) / math.sqrt(lam))
                    elif p == "q":
                        b[p] = flt(num(b[p]) * math.sqrt(lam))
            w = call(e.key, b)
            if d == "dict":
                for k in v:
                    if k in w and not isinstance(v[k], (bool, str)) and not np.any(np.isnan(num(v[k]))):
                        x = 1 if k in ("FH", "FU", "MH", "MU", "p1", "p2", "p3", "p4", "pu", "Wup", "We", "Me", "pe", "g") else -0.5 if k == "Tmax" else 0
                        yield eq("gravity times %.4g: %s" % (lam, k), num(v[k]) * lam ** x, w[k], 1e-7, 1e-9)
                return
            x = 0.5 if d in (1.5, 0.5) else 1.0 if d == 2.0 else 0.0
            yield from compare("gravity times %.4g" % lam, v, w, x, lam)
    return Rel("%s (%s)" % (e.key, kind), e.key, run, prep)


# the density of the water is a constant of the method here
FIXED_WATER = ("vandermeer2021", "etemadshahidi2020", "jumelet2024", "kramerburcharth2004_lowcrested")


class C14(RelCheck):
    pid = "C14"
    p_prev = 0.3

    def relations(self):
        rs = []
        for e in REG.values():
            d = outdim(e)
            if d is None or not e.params:
                continue
            if any(p in DIMS for p in e.params):
                rs.append(froude(e, "length"))
            if any(p in RHO for p in e.params) and not e.module.endswith(FIXED_WATER):
                rs.append(froude(e, "density"))
            if "g" in e.params:
                rs.append(froude(e, "g"))
                if "overtopping" in e.module and ("q" in e.params or "discharge_q" in e.name):
                    rs.append(froude(e, "g of the discharge"))
        return rs


# ---------------------------------------------------------------- C15
SIGN = {
    "q": {"beta": -1, "theta": -1, "Tmm10": 1, "cot_alpha": -1, "B_berm": -1, "Gc": -1, "Bc": -1, "B": -1, "Rc": -1, "gamma_f": 1, "gamma_beta": 1, "gamma_v": 1, "gamma_b": 1, "gamma_star": 1, "Hm0": 1, "Hm0_HF": 1, "Hm0_swell": 1,
          "Hm0_LF": 1, "g": 1, "smm10_HF": -1},
    "qd": {"beta": -1, "theta": -1, "Tmm10": 1, "cot_alpha": -1, "B_berm": -1, "Gc": -1, "Bc": -1, "B": -1, "Rc": -1, "gamma_f": 1, "gamma_beta": 1, "gamma_v": 1, "gamma_b": 1, "gamma_star": 1, "Hm0_swell": 1, "Hm0_LF": 1, "smm10_HF": -1},
    "Rc": {"beta": -1, "theta": -1, "Tmm10": 1, "cot_alpha": -1, "B_berm": -1, "Gc": -1, "Bc": -1, "B": -1, "q": -1, "gamma_f": 1, "gamma_beta": 1, "gamma_v": 1, "gamma_b": 1, "gamma_star": 1, "Hm0": 1, "Hm0_HF": 1, "Hm0_swell": 1,
           "Hm0_LF": 1, "smm10_HF": -1},
    "S": {"Hs": 1, "Hm0": 1, "Dn50": -1, "M50": -1, "N_waves": 1, "rho_armour": -1, "rho_rock": -1, "rho_water": 1, "P": -1, "H2p": 1, "Rc": -1, "Rc_rear": -1,
          "cot_phi": -1, "Tmm10": 1, "cot_alpha": -1, "Dn50_core": -1, "M50_core": -1, "Bc": -1, "gamma": 1, "gamma_f": 1},
    "Dn50": {"Tmm10": 1, "Tm": 1, "cot_alpha": -1, "Bt": -1, "hacc": -1, "beta": -1, "Tp": 1, "KD": -1, "tt": -1, "Dn50_core": -1, "Rc": -1, "Rc_rear": -1, "cot_phi": -1, "Bc": -1, "Hs": 1, "Hm0": 1, "S": -1, "N_waves": 1, "rho_armour": -1, "rho_rock": -1, "P": -1, "Nod": -1, "H2p": 1, "ht": -1, "rho_water": 1},
    "Hs": {"Dn50": 1, "M50": 1, "M": 1, "V": 1, "Dn": 1, "S": 1, "Nod": 1, "N_waves": -1, "rho_armour": 1, "rho_rock": 1, "P": 1, "KD": 1, "Ns": 1,
           "cot_alpha": 1, "Tmm10": -1, "Tm": -1, "Tp": -1, "Bt": 1, "hacc": 1, "tt": 1, "Rc": 1, "Rc_rear": 1, "cot_phi": 1, "rho_water": -1, "total_correction_factor": -1, "alpha_Hs": -1, "damage_percentage": 1, "ht": 1},
    "M": {"Hs": 1, "KD": -1, "cot_alpha": -1, "rho_water": 1, "Ns": -1, "total_correction_factor": 1, "alpha_Hs": 1, "rho_armour": -1,
          "damage_percentage": -1},
    "Nod": {"Hs": 1, "Hm0": 1, "Dn50": -1, "Dn": -1, "rho_rock": -1, "rho_armour": -1, "N_waves": 1, "ht": -1, "rho_water": 1},
    "ht": {"Hs": 1, "Dn50": -1, "Nod": -1, "rho_rock": -1},
    "z": {"Hm0": 1, "Hs": 1, "H": 1, "Tmm10": 1, "gamma": 1, "gamma_f": 1, "gamma_beta": 1, "gamma_b": 1, "cot_alpha": -1, "c0": 1, "beta": -1, "B_berm": -1},
    "Kt": {"Rc": -1, "B": -1, "Hsi": 1, "Hm0": 1, "cot_alpha": -1, "Tpi": 1, "Tmm10": 1, "Dn50": 1, "h": -1, "d": -1, "H": 1},
    "set": {"Rc": 1, "Hm0": 1, "hc": -1, "Tmm10": 1, "B": 1, "cot_alpha": -1},
    "u": {"zXp": 1, "Rc": -1, "Bc": -1, "g": 1, "Hm0": 1, "Hs": 1, "gamma_f_Crest": 1, "gamma_f": -1, "Tmm10": 1},
    "F": {"z2p": 1, "Ac": -1, "Hwall": 1, "Bwall": 1, "rho_water": 1, "g": 1, "Hm0": 1, "Tmm10": 1, "gamma_f": 1, "gamma_beta": 1, "cFH": 1, "cFV": 1,
          "Fb": -1, "FH2p": 1, "FV2p": 1, "Rc": 1, "beta": -1, "cot_alpha": -1, "Bc": -1},
    "L": {"T": 1, "h": 1, "g": 1},
    "gb": {"beta": -1, "theta": -1},
    "delta": {"rho_rock": 1, "rho_water": -1}, "m50": {"Dn50": 1, "rho_rock": 1}, "dn": {"M50": 1, "rho_rock": -1},
    "sn": {"Nod": 1, "G": -1, "nv": 1}, "nods": {"S": 1, "G": 1, "nv": -1},
    "low": {"Hs": -1, "Dn50": 1, "M50": 1, "rho_armour": 1},
    "cf": {"cot_alpha": -1, "perc_slope": 1, "rel_freeboard": -1, "rel_depth": 1}, "cfs": {}, "KD": {"seabed_slope_perc": -1},
    "gv": {"alpha_wall_deg": -1, "Rc": 1, "Ac": -1}, "gf": {"gamma_f": 1, "ksi_mm10": 1, "Dn50": -1, "Hm0": 1, "smm10": -1},
    "gbm": {"B_berm": -1, "L_berm": 1, "db": 0, "Hm0": 1}, "gN": {"N_waves": 1}, "dam": {"damage_percentage": 1}, "gw": {"q_diml": -1},
    "gF": {"beta": -1, "gamma_A": 1}, "sf": {"FH": -1, "FU": -1, "Wup": 1, "muf": 1}, "W": {"hacc": 1, "Rc": 1, "Bup": 1, "g": 1,
    "rho_fill_below_SWL": 1, "rho_fill_above_SWL": 1, "rho_water": -1}, "tns": {"hacc": 1, "Bt": 1, "Tp": -1},
    "ns": {"H": 1, "D": -1, "rho_rock": -1, "rho_water": 1},
    "s": {"H": 1, "T": -1, "g": -1},
    "ksi": {"H": -1, "T": 1, "cot_alpha": -1},
}


FACTORS = [("correctionfactor_unit_mass_M_by_structure_slope", "cfs"), ("correctionfactor_unit_mass_M", "cf"), ("KD_breaking", "KD"),
           ("crest_wall_gamma_v", "gv"), ("gamma_F_beta", "gF"), ("gamma_FH_beta", "gF"), ("gamma_FV_beta", "gF"), ("roughness_gamma_f", "gf"),
           ("friction_gamma_f", "gf"), ("berm_gamma_b", "gbm"), ("gamma_N", "gN"), ("damage_factors", "dam"), ("wind_gamma_w", "gw"),
           ("safety_factors", "sf"), ("calculate_Wup", "W"), ("calculate_stability_number_Ns", "tns")]


def kindof(e):
    n, m = e.name, e.module
    if e.out == "none" or n.startswith("check_"):
        return None
    if m == "core_physics":
        return {"calculate_buoyant_density_Delta": "delta", "calculate_M50_from_Dn50": "m50", "calculate_Dn50_from_M50": "dn", "calculate_S_from_Nod": "sn",
                "calculate_Nod_from_S": "nods", "calculate_local_wavelength": "L", "calculate_stability_number_Ns": "ns", "calculate_wave_steepness_s": "s",
                "calculate_Iribarren_number_ksi": "ksi"}.get(n)
    if n == "calculate_gamma_beta" or "oblique_waves_gamma_beta" in n:
        return "gb"
    if "transmission_Kt" in n:
        return "Kt"
    for t, k in FACTORS:
        if t in n:
            return k
    if n == "calculate_crest_freeboard_Rc" and "kramer" in m:
        return "low"
    if "setup" in n:
        return "set"
    if "crest_freeboard" in n or n == "Rc_diml_max_equation":
        return "Rc" if "kramer" not in m else None
    if "dimensionless_overtopping" in n or n == "q_diml_max_equation":
        return "qd"
    if "overtopping_discharge" in n:
        return "q"
    if "damage_number_S" in n:
        return "S"
    if "damage_Nod" in n:
        return "Nod"
    if "diameter" in n:
        return "Dn50"
    if "mass_M" in n and "correction" not in n:
        return "M"
    if "volume_V" in n:
        return "M"
    if "wave_height" in n and "runup" not in n:
        return "Hs"
    if "depth_above_toe" in n:
        return "ht"
    if "runup_height" in n:
        return "z"
    if "velocity" in n:
        return "u"
    if n.startswith(("calculate_FH", "calculate_FV")):
        return "F"
    return None


LOWER0 = {"q", "qd", "S", "Dn50", "Hs", "M", "Nod", "z", "Kt", "F", "L", "u", "set"}
UPPER1 = {"Kt", "gb"}


def direction(e, p, s):
    k = kindof(e)

    def prep(rng, a):
        if p not in a or not a[p] == a[p]:
            a[p] = E.draw(rng, E.domain(e, p))
        if "vangent2025" in e.module and "gamma_v" in e.params:
            gv(rng, a)
        a["_f"] = float(rng.choice([1.0005, 1.01, 1.1, 1.5, 3.0]))
        return a

    def run(call, a):
        a = dict(a)
        f = float(np.asarray(a.pop("_f")).flat[0])
        x = num(a[p])
        y = x * f if p in ("beta", "theta") else np.where(x >= 0, x * f, x / f) if np.any(x != 0) else x + 0.1 * f
        if p in ("gamma_f", "gamma_beta", "gamma_b", "gamma_star", "P") and np.any(y > 1):
            raise Undecided()
        v = num(first(call(e.key, a)))
        b = {**a, p: flt(y)}
        if p == "Hs" and "H2p" in a and "vandermeer1988" in e.module:
            b["H2p"] = flt(num(a["H2p"]) * y / x)  # the whole distribution of wave heights
        w = num(first(call(e.key, b)))
        lo, hi = (v, w) if s > 0 else (w, v)
        yield le("%s larger: result not %s" % (p, "smaller" if s > 0 else "larger"), lo, hi, 1e-9, 1e-12 if k in ("Rc", "gb", "set", "ht") else 0.0)
        yield le("%s larger: result %s" % (p, "larger" if s > 0 else "smaller"), lo, hi, -1e-10, 0.0)
        if k in LOWER0:
            yield le("not negative", 0.0, v, 0.0, 1e-12)
        if k in UPPER1:
            yield le("at most one", v, 1.0, 1e-12)
    return Rel("%s / %s" % (e.key, p), e.key, run, prep)


def goda_direction():
    f = FC + "goda1985.calculate_pressures_and_forces"

    def prep(rng, a):
        a["return_dict"] = True
        a["_f"] = float(rng.choice([1.001, 1.05, 1.3, 2.0]))
        return a

    def run(call, a):
        a = dict(a)
        k = float(np.asarray(a.pop("_f")).flat[0])
        v = call(f, a)
        for n in ("FH", "FU", "MH", "MU", "p1", "p2", "p3", "p4", "pu"):
            yield le("%s not negative" % n, 0.0, v[n], 0.0, 1e-9)
        yield le("p3 at most p1", v["p3"], v["p1"], 1e-9)
        yield le("p4 at most p1", v["p4"], v["p1"], 1e-9)
        yield le("p2 at most p1", v["p2"], v["p1"], 1e-9)
        yield le("hc* at most Rc", v["hstar_c"], a["Rc"], 1e-9)
        yield le("alpha1 at least 0.6", 0.6, v["alpha1"], 1e-9)
        yield le("alpha1 at most 1.1", v["alpha1"], 1.1, 1e-9)
        yield le("alpha2 not negative", 0.0, v["alpha2"], 0.0, 1e-12)
        yield le("alpha2 at most 2d/H", num(v["alpha2"]) * num(a["HD"]), 2.0 * num(a["d"]), 1e-9)
        yield le("alpha3 at most one", v["alpha3"], 1.0, 1e-9)
        yield le("alpha3 not negative", 0.0, v["alpha3"], 0.0, 1e-9)
        w = call(f, {**a, "HD": flt(num(a["HD"]) * k)})
        for n in ("FH", "MH", "p1", "etastar", "FU"):
            yield le("%s increases with the design wave height" % n, v[n], w[n], 1e-9)
        b = np.abs(num(a["beta"]))
        if np.all(b * k <= 90):
            w = call(f, {**a, "beta": flt(b * k)})
            for n in ("FH", "MH", "p1", "FU", "etastar"):
                yield le("%s decreases with obliqueness" % n, w[n], v[n], 1e-9)
        w = call(f, {**a, "Rc": flt(num(a["Rc"]) * k)})
        for n in ("FH", "MH"):
            yield le("%s not smaller for a higher crest" % n, v[n], w[n], 1e-9)
    return Rel("goda1985 directions and bounds", f, run, prep)


def leaves(v):
    if isinstance(v, dict):
        return list(v.items())
    return list(enumerate(v)) if isinstance(v, tuple) else [("result", v)]


def mirror(e, p):
    """waves from the other side of the normal give the same result"""
    def prep(rng, a):
        a.pop("gamma_beta", None)
        a[p] = E.draw(rng, E.domain(e, p))
        if "vangent2025" in e.module and "gamma_v" in e.params:
            gv(rng, a)
        return a

    def run(call, a):
        v = call(e.key, a)
        w = call(e.key, {**a, p: flt(-num(a[p]))})
        w = dict(leaves(w))
        for n, x in leaves(v):
            if n in ("beta", "theta"):
                continue
            yield eq("mirrored direction: %s" % n, x, w[n], 1e-12, 0.0)
    return Rel("%s mirrored" % e.key, e.key, run, prep)


GAMMAS = {"taw2002.calculate_influence_berm_gamma_b": (0.6, 1.0), "taw2002.iteration_procedure_gamma_b": (0.6, 1.0),
          "eurotop2018.calculate_influence_berm_gamma_b": (0.6, 1.0), "eurotop2018.iteration_procedure_gamma_b": (0.6, 1.0),
          "taw2002.calculate_influence_crest_wall_gamma_v": (0.65, 1.0), "calculate_influence_oblique_waves_gamma_beta": (0.0, 1.0),
          "deridder2026.calculate_gamma_beta": (0.0, 1.0), "taw2002.calculate_adjusted_influence_roughness_gamma_f": ("gamma_f", 1.0),
          "gamma_F_beta": (0.0, 1.0), "gamma_FH_beta": (0.0, 1.0), "gamma_FV_beta": (0.0, 1.0),
          "correctionfactor_unit_mass_M": (1.0, 2.0), "vangent2025.calculate_influence_berm_gamma_b": (0.0, 1.0),
          "correction_term_gamma_N": (0.0, 1.3), "wave_transmission.briganti2003.calculate_wave_transmission_Kt": (0.05, 0.93),
          "calculate_wave_transmission_Kt_permeable": (0.075, 0.8), "calculate_wave_transmission_Kt_impermeable": (0.075, 0.8),
          "calculate_wave_transmission_Kt": (0.0, 1.0)}


def bounds(e):
    for n, b in GAMMAS.items():
        if e.key.endswith(n) or ("correctionfactor" in n and n in e.key):
            break
    else:
        return None
    lo, hi = b

    def prep(rng, a):
        for p in e.params:  # the published coefficients
            if (p.startswith("c_") or p == "max_angle") and p not in e.required:
                a.pop(p, None)
        return a

    def run(call, a):
        v = first(call(e.key, a))
        yield le("at least %s" % lo, a[lo] if isinstance(lo, str) else lo, v, 1e-9, 1e-12)
        yield le("at most %s" % hi, v, hi, 1e-9, 1e-12)
    return Rel("%s bounds" % e.key, e.key, run, prep)


# as published: a longer wave gives less set-up, a wider or thicker toe more stones to move, a
# flatter rear slope more damage, a longer wave a more stable double layer of cubes
REVERSED = {("vangent2024_setup", "Tmm10"), ("cubes_double_layer_vandermeer1988", "Tm"), ("etemadshahidi2021", "Bt"),
            ("vangentvanderwerf2014", "Bt"), ("vangentvanderwerf2014", "tt"), ("vangent2007", "cot_phi"),
            ("calculate_dimensionless_wave_runup_height_z2p", "Hm0")}


class C15(RelCheck):
    pid = "C15"
    secs = {"quick": 60, "thorough": 300}

    def relations(self):
        rs = []
        for e in REG.values():
            k = kindof(e)
            if not k:
                continue
            for p in e.params:
                s = SIGN[k].get(p, 0)
                if (e.module.split(".")[-1], p) in REVERSED or (e.name, p) in REVERSED:
                    s = -s
                if s:
                    rs.append(direction(e, p, s))
        for e in REG.values():
            if e.name.startswith("check_") or e.out == "none":
                continue
            rs += [mirror(e, p) for p in ("beta", "theta") if p in e.params]
            b = bounds(e)
            if b:
                rs.append(b)
        rs += [goda_direction()] * 3
        return rs


CHECKS = {c.pid: c for c in (C14, C15, C16, C19, C20)}
