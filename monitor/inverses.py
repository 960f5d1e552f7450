"""C08, C09: functions that invert one another."""
import math

import time

import numpy as np

from .model import REG
from .relations import (CA, CP, O, RA, RR, RelCheck, Rel, TB, Undecided, eq, first, le, num, only)
from .searches import Searches


def qprep(rng, a):
    """a discharge of realistic size relative to the waves"""
    if "q" in a and rng.random() < 0.8:
        H = a.get("Hm0", a.get("Hm0_HF"))
        g = a.get("g", 9.81)
        a["q"] = float(10 ** rng.uniform(-7, -0.8)) * math.sqrt(g * H ** 3)
    return a


def roundtrip(name, f, fout, g, gout, prep=None, rtol=1e-7, atol=0.0, arr=True, link=None, flags=False, pos=False):
    """sample g's arguments (which include fout), x = g(...), then f(gout=x) has to give fout back"""
    atol = atol or (1e-9 if fout in ("Rc", "ht") else 0.0)
    def run(call, a):
        v = call(g, a)
        x = first(v)
        if pos and not np.all(num(x) > 0):
            raise Undecided()
        b = dict(a)
        b[gout] = x
        if link:
            b = link(b)
        b = only(f, b, drop=(fout,))
        w = call(f, b)
        yield eq("%s given, %s found, %s computed from it" % (fout, gout, fout), first(w), a[fout], rtol, atol)
        if flags:
            yield eq("limit flags", np.asarray(v[1]).astype(float), np.asarray(w[1]).astype(float), 0.0)
    return Rel(name, g, run, prep, arr)


def both(name, f, fout, g, gout, prep=None, link=None, back=None, **kw):
    return [roundtrip(name + ": %s from %s" % (gout, fout), f, fout, g, gout, prep=prep, link=link, **kw),
            roundtrip(name + ": %s from %s" % (fout, gout), g, gout, f, fout, prep=prep, link=back, **kw)]


class C08(RelCheck):
    pid = "C08"

    def relations(self):
        rs = []
        for m in ("taw2002", "eurotop2018"):
            p = O + m + "."
            rs += both(m, p + "calculate_overtopping_discharge_q", "q", p + "calculate_crest_freeboard_Rc", "Rc", qprep, rtol=1e-7, flags=True)
            rs.append(maxrel(m))
        for m in ("eurotop2018", "eurotop2007"):
            p = O + m + "."
            rs += both(m + " rubble mound", p + "calculate_overtopping_discharge_q_rubble_mound", "q",
                       p + "calculate_crest_freeboard_Rc_rubble_mound", "Rc", noG(qprep) if m == "eurotop2007" else qprep, rtol=1e-7)
        rs += [wind("vangent2025: Rc from q", True), wind("vangent2025: q from Rc", False), maxrel("vangent2025")]
        p = O + "vangent2021_caisson."
        rs += both("vangent2021", p + "calculate_overtopping_discharge_q", "q", p + "calculate_crest_freeboard_Rc", "Rc", qprep)
        p = O + "deridder2024."
        for q in ("eq24", "eq26"):
            rs += both("deridder2024 " + q, p + "calculate_overtopping_discharge_q_" + q, "q", p + "calculate_crest_freeboard_discharge_q_" + q,
                       "Rc", qprep)
        p = O + "deridder2026."
        for q in ("eq28", "eq32"):
            rs += both("deridder2026 " + q, p + "calculate_overtopping_discharge_q_" + q, "q", p + "calculate_crest_freeboard_discharge_q_" + q,
                       "Rc", qprep)
        # dimensionless discharge against dimensionless freeboard
        for m, f, g in (("taw2002", "calculate_dimensionless_overtopping_discharge_q", "calculate_dimensionless_crest_freeboard"),
                        ("eurotop2018", "calculate_dimensionless_overtopping_discharge_q", "calculate_dimensionless_crest_freeboard"),
                        ("eurotop2018", "calculate_dimensionless_overtopping_discharge_q_rubble_mound",
                         "calculate_dimensionless_crest_freeboard_rubble_mound"),
                        ("eurotop2007", "calculate_dimensionless_overtopping_discharge_q_rubble_mound",
                         "calculate_dimensionless_crest_freeboard_rubble_mound"),
                        ("vangent2021_caisson", "calculate_dimensionless_overtopping_discharge_q", "calculate_dimensionless_crest_freeboard"),
                        ("deridder2024", "calculate_dimensionless_overtopping_discharge_eq24",
                         "calculate_dimensionless_crest_freeboard_discharge_q_eq24")):
            rs.append(dimless("%s dimensionless %s" % (m, f.split("_")[-1]), O + m + "." + f, O + m + "." + g))
        rs.append(dimless("vangent2025 dimensionless", O + "vangent2025.calculate_dimensionless_overtopping_discharge_q",
                          O + "vangent2025.calculate_dimensionless_crest_freeboard", prep=windprep(False), rtol=1e-6))
        # dimensionless discharge at the freeboard found
        for m, f, g in (("deridder2024", "calculate_dimensionless_overtopping_discharge_eq24", "calculate_crest_freeboard_discharge_q_eq24"),
                        ("deridder2024", "calculate_dimensionless_overtopping_discharge_eq26", "calculate_crest_freeboard_discharge_q_eq26"),
                        ("deridder2026", "calculate_dimensionless_overtopping_discharge_eq28", "calculate_crest_freeboard_discharge_q_eq28"),
                        ("deridder2026", "calculate_dimensionless_overtopping_discharge_eq32", "calculate_crest_freeboard_discharge_q_eq32"),
                        ("taw2002", "calculate_dimensionless_overtopping_discharge_q", "calculate_crest_freeboard_Rc"),
                        ("eurotop2018", "calculate_dimensionless_overtopping_discharge_q", "calculate_crest_freeboard_Rc"),
                        ("vangent2021_caisson", "calculate_dimensionless_overtopping_discharge_q", "calculate_crest_freeboard_Rc")):
            rs.append(dimless("%s %s at the freeboard" % (m, f), O + m + "." + f, O + m + "." + g, scaled=False))
        rs.append(oblique28())
        return rs


def oblique28():
    """De Ridder (2026): the dimensionless freeboard takes the influence factor, the discharge the angle"""
    p = O + "deridder2026."
    g, f = p + "calculate_dimensionless_crest_freeboard_discharge_q_eq28", p + "calculate_dimensionless_overtopping_discharge_eq28"

    def prep(rng, a):
        a = qprep(rng, a)
        a.pop("gamma_beta", None)
        if rng.random() < 0.6:
            a["theta"] = float(rng.uniform(0, 80))
        return a

    def run(call, a):
        b = {k: v for k, v in a.items() if k != "theta"}
        if "theta" in a:
            b["gamma_beta"] = call(p + "calculate_gamma_beta", {"theta": a["theta"]})
        R = num(first(call(g, b))) * num(a["Hm0"])
        qd = first(call(f, only(f, {**a, "Rc": back(R, a)})))
        yield eq("dimensionless discharge at the dimensionless freeboard found for it", qd,
                 num(a["q"]) / np.sqrt(a.get("g", 9.81) * num(a["Hm0"]) ** 3), 1e-7)
    return Rel("deridder2026 dimensionless eq28", g, run, prep)


def noG(prep):
    def p(rng, a):
        a.pop("g", None)
        return prep(rng, a)
    return p


def dimless(name, f, g, prep=qprep, rtol=1e-7, scaled=True):
    """q*(Rc = Rd Hm0) with Rd = Rd(q) has to be q / sqrt(g Hm0^3)"""
    def run(call, a):
        H = num(a["Hm0"] if "Hm0" in a else a["Hm0_HF"])
        R = num(first(call(g, a))) * (H if scaled else 1.0)
        b = only(f, {**a, "Rc": back(R, a)})
        qd = first(call(f, b))
        yield eq("dimensionless discharge at the freeboard found for it", qd, num(a["q"]) / np.sqrt(a.get("g", 9.81) * H ** 3), rtol)
    return Rel(name, g, run, prep)


def back(x, a):
    """a plain float when the arguments are plain"""
    return float(x) if np.ndim(x) == 0 else x


def maxrel(m):
    p = O + m + "."
    f, g = p + "q_diml_max_equation", p + "Rc_diml_max_equation"

    def run(call, a):
        R = num(call(g, a)) * num(a["Hm0"])
        b = only(f, {**a, "Rc": back(R, a)})
        yield eq("maximum discharge at the freeboard found for it", call(f, b), num(a["q"]) / np.sqrt(a.get("g", 9.81) * num(a["Hm0"]) ** 3), 1e-8)
    return Rel(m + " maximum discharge and freeboard", g, run, qprep)


def windprep(nog):
    def prep(rng, a):
        a = qprep(rng, a)
        if nog:
            a.pop("g", None)
        a.pop("max_iter", None)
        a.pop("tolerance", None)
        if "gamma_v" not in a or not a["gamma_v"] == a["gamma_v"]:
            a["gamma_v"] = float(rng.uniform(0.4, 1.0))
        if rng.random() < 0.5:
            a["include_influence_wind"] = False
        return a
    return prep


def wind(name, direction):
    p = O + "vangent2025."
    f, g = p + "calculate_overtopping_discharge_q", p + "calculate_crest_freeboard_Rc"

    def run(call, a):
        w = bool(a.get("include_influence_wind", False))
        if direction:
            v = call(g, a)
            b = only(f, {**a, "Rc": first(v)})
            u = call(f, b)
            yield eq("q given, Rc found, q computed from it", first(u), a["q"], 1e-6)
        else:
            u = call(f, a)
            b = only(g, {**a, "q": first(u)})
            v = call(g, b)
            yield eq("Rc given, q found, Rc computed from it", first(v), a["Rc"], 1e-6)
        yield eq("limit flags", num(u[1]), num(v[1]), 0.0)
    return Rel(name, g if direction else f, run, windprep(True))


# ---------------------------------------------------------------- structural
def ratio(b):
    """the damage functions take H2%, the wave height functions the ratio H2%/Hs"""
    if "ratio_H2p_Hs" in b and "Hs" in b:
        b["H2p"] = num(b["ratio_H2p_Hs"]) * num(b["Hs"])
    elif "H2p" in b and "Hs" in b:
        b["ratio_H2p_Hs"] = num(b["H2p"]) / num(b["Hs"])
    for k in ("H2p", "ratio_H2p_Hs"):
        if k in b and np.ndim(b[k]) == 0:
            b[k] = float(b[k])
    return b


def trio(name, S, D, H, sname="S", hname="Hs", dname="Dn50", link=None, prep=None, rtol=1e-6, dprep=None):
    """damage, size and wave height functions: every pair is mutually inverse"""
    def useD(rng, a):
        # the size is given as a diameter, so that it can be compared with the diameter found
        if prep:
            a = prep(rng, a)
        if dname == "Dn50" and "M50" in a and ("Dn50" not in a):
            a["Dn50"] = a.pop("M50") ** (1 / 3) / 10
        a.pop("M50", None)
        return a
    rs = []
    if S and D:
        rs += both(name + " damage/size", S, sname, D, dname, prep=useD, link=link, back=link, rtol=rtol)
    if S and H:
        rs += both(name + " damage/wave height", S, sname, H, hname, prep=useD, link=link, back=link, rtol=rtol)
    if D and H:
        rs += both(name + " size/wave height", D, dname, H, hname, prep=useD, link=link, back=link, rtol=rtol)
    return rs


class C09(Searches, RelCheck):
    pid = "C09"

    def work(self, rec, wid, nw, ss, deadline):
        ch = ss.spawn(2)
        rng = np.random.default_rng(ch[0])
        t0 = time.monotonic()
        while time.monotonic() < t0 + 0.12 * (deadline - t0) and len(rec.viol) < 10:
            self.takahashi_H(rec, rng)
            self.takahashi_h(rec, rng)
        super().work(rec, wid, nw, ch[1], deadline)

    def relations(self):
        rs = []
        n = "calculate_nominal_rock_diameter_Dn50"
        d = "calculate_damage_number_S"
        h = "calculate_significant_wave_height_Hs"
        for m in ("vandermeer1988", "vandermeer1988_modified"):
            p = RA + m + "."
            rs += trio(m, p + d, p + n, p + h, link=ratio)
        p = RA + "vandermeer2021."
        rs += trio("vandermeer2021", p + d, p + n, p + h)
        p = RA + "scaravaglione2025."
        rs += trio("scaravaglione2025", p + d, p + n, p + "calculate_significant_wave_height_Hm0", hname="Hm0")
        p = RA + "etemadshahidi2020."
        rs += trio("etemadshahidi2020", p + d, p + n, p + h, rtol=1e-6)
        p = RA + "jumelet2024."
        rs += trio("jumelet2024", p + d, p + n, p + h, rtol=1e-6)
        p = RA + "kramerburcharth2004_lowcrested."
        rs += trio("kramerburcharth2004", None, p + n, p + h, rtol=1e-6)
        rs += both("kramerburcharth2004 wave height/freeboard", p + h, "Hs", p + "calculate_crest_freeboard_Rc", "Rc", rtol=1e-6)
        p = RA + "hudson1959."
        rs += both("hudson1959 no damage", p + "calculate_median_rock_mass_M50_no_damage", "M50",
                   p + "calculate_significant_wave_height_Hs_no_damage", "Hs")
        rs += both("hudson1959", p + "calculate_median_rock_mass_M50", "M50", p + h, "Hs")
        for u in ("accropode", "accropode2", "core_loc", "cubes_double_layer", "cubipod", "tetrapod"):
            p = CA + u + "_hudson1959."
            rs += both(u, p + "calculate_unit_mass_M", "M", p + h, "Hs")
        p = CA + "cubes_double_layer_vandermeer1988."

        def steepness(b):
            if "s0m" not in b and "Tm" in b:
                b["s0m"] = 2 * math.pi * num(b["Hs"]) / (9.81 * num(b["Tm"]) ** 2)
            elif "Tm" not in b and "s0m" in b:
                b["Tm"] = np.sqrt(2 * math.pi * num(b["Hs"]) / (9.81 * num(b["s0m"])))
            for k in ("s0m", "Tm"):
                if k in b and np.ndim(b[k]) == 0:
                    b[k] = float(b[k])
            return b
        rs += trio("cubes vandermeer1988", p + "calculate_damage_Nod_vanDerMeer1988", p + "calculate_nominal_diameter_Dn_vanDerMeer1988",
                   p + "calculate_wave_height_Hs_vanDerMeer1988", sname="Nod", dname="Dn", link=steepness)
        p = CA + "cubes_single_layer_vangent2002."
        for s in ("start_of_damage", "failure"):
            rs += both("cubes vangent2002 " + s, p + "calculate_unit_mass_M_" + s, "M", p + h + "_" + s, "Hs")
        for u in ("xbloc", "xblocplus"):
            p = CA + u + "."
            rs += both(u + " volume", p + "calculate_unit_volume_V", "V", p + "calculate_wave_height_Hs_from_V", "Hs")
            rs += both(u + " mass", p + "calculate_unit_mass_M", "M", p + "calculate_wave_height_Hs_from_M", "Hs")
        nod, dn, hs, ht = "calculate_damage_Nod", "calculate_nominal_diameter_Dn50", "calculate_wave_height_Hs", "calculate_depth_above_toe_ht"
        for m in ("gerding1993", "vandermeer1998"):
            p = TB + m + "."
            rs += trio(m, p + nod, p + dn, p + hs, sname="Nod")
            rs += both(m + " damage/depth", p + nod, "Nod", p + ht, "ht")
            rs += both(m + " size/depth", p + dn, "Dn50", p + ht, "ht")
            rs += both(m + " wave height/depth", p + hs, "Hs", p + ht, "ht")
        p = TB + "etemadshahidi2021."
        rs += trio("etemadshahidi2021", p + nod, p + dn, p + h, sname="Nod", rtol=1e-6)
        p = TB + "vangentvanderwerf2014."
        rs += both("vangentvanderwerf2014", p + nod, "Nod", p + dn, "Dn50", rtol=1e-6, prep=dropc)
        p = TB + "takahashi1990_caisson."

        def ns(call, a):
            N = call(p_ + "calculate_stability_number_Ns", only(p_ + "calculate_stability_number_Ns", a))
            D = call(p_ + "calculate_nominal_diameter_Dn50", a)
            dl = (num(a["rho_rock"]) - num(a["rho_water"])) / num(a["rho_water"])
            yield eq("Hs / (Delta Dn50) = Ns", num(a["Hs"]) / (dl * num(D)), N, 1e-8)
        p_ = p
        rs.append(Rel("takahashi1990 size/stability number", p + "calculate_nominal_diameter_Dn50", ns))
        p = RR + "vangent2007."
        H = "calculate_maximum_significant_wave_height_Hs"
        rs += trio("vangent2007 rear", p + d, p + n, p + H, rtol=1e-6, prep=lambda r, a: (a.pop("tolerance", 0), a.pop("max_iterations", 0), a)[2])
        p = RR + "vangentpozueta2004."
        rs += trio("vangentpozueta2004 rear", p + d, p + n, p + H, rtol=1e-6, prep=lambda r, a: (a.pop("tolerance", 0), a.pop("max_iterations", 0), a)[2])
        rs += both("rock mass/diameter", CP + "calculate_M50_from_Dn50", "M50", CP + "calculate_Dn50_from_M50", "Dn50")
        rs += both("S/Nod", CP + "calculate_S_from_Nod", "S", CP + "calculate_Nod_from_S", "Nod")
        return rs


def dropc(rng, a):
    for k in ("c1", "c2", "c3", "c4", "c5"):
        a.pop(k, None)
    return a


CHECKS = {"C08": C08, "C09": C09}
