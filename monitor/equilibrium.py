"""C18: forces are the resultants of the reported pressures, and the separate and combined computations agree."""
import numpy as np

from .relations import CP, FC, FW, Rel, RelCheck, U_, eq, le, num, only

GO = FC + "goda1985."
CW = FW + "vangentvanderwerf2019."
ORDER = ("FH", "FU", "MH", "MU", "p1", "p2", "p3", "p4", "hstar_c", "pu", "h_5Hs", "etastar", "L", "alpha1", "alpha2", "alpha3",
         "impulsive_breaking")


def integrate(f, lo, hi, n=8):
    """Simpson's rule, exact for the distributions at hand"""
    x = [lo + (hi - lo) * i / (2 * n) for i in range(2 * n + 1)]
    y = [f(t) for t in x]
    return (hi - lo) / (6 * n) * (y[0] + y[-1] + 4 * sum(y[1::2]) + 2 * sum(y[2:-1:2]))


def profile(r, hacc):
    """pressure at level z above the water line"""
    p1, p3, p4, h = (num(r[k]) for k in ("p1", "p3", "p4", "hstar_c"))
    up = lambda z: p1 + (p4 - p1) * (z / np.where(h > 0, h, 1.0))  # noqa: E731
    down = lambda z: p1 + (p3 - p1) * (-z / hacc)  # noqa: E731
    return up, down


def resultants():
    f = GO + "calculate_pressures_and_forces"

    def run(call, a):
        r = {k: num(v) for k, v in call(f, {**a, "return_dict": True}).items()}
        hacc, B = num(a["hacc"]), num(a["Bup"])
        up, down = profile(r, hacc)
        zero = np.zeros_like(hacc)
        FH = integrate(down, -hacc, zero) + integrate(up, zero, r["hstar_c"])
        MH = integrate(lambda z: down(z) * (z + hacc), -hacc, zero) + integrate(lambda z: up(z) * (z + hacc), zero, r["hstar_c"])
        FU = integrate(lambda x: r["pu"] * (x / B), zero, B)  # x from the landward edge
        MU = integrate(lambda x: r["pu"] * (x / B) * x, zero, B)
        s = 1e-9 * np.abs(r["p1"]) * (hacc + r["hstar_c"])
        yield eq("horizontal force is the resultant of the pressures", r["FH"], FH, 1e-9, s)
        yield eq("its moment about the heel", r["MH"], MH, 1e-9, s * (hacc + r["hstar_c"]))
        yield eq("uplift force is the resultant of the uplift pressure", r["FU"], FU, 1e-9, 1e-9)
        yield eq("its moment about the heel ", r["MU"], MU, 1e-9, 1e-9)
        yield eq("pressure at the crest lies on the line to zero at etastar", r["p4"], r["p1"] * (1 - r["hstar_c"] / r["etastar"]), 1e-9, 1e-9 * abs(r["p1"]))
        yield eq("pressure at the foot", r["p3"], r["alpha3"] * r["p1"], 1e-9)
        yield eq("loaded height above the water line", r["hstar_c"], np.minimum(r["etastar"], num(a["Rc"])), 1e-12)
        yield eq("pressure at the sea bed", r["p2"] * np.cosh(2 * np.pi * num(a["h_s"]) / r["L"]), r["p1"], 1e-9)
        yield eq("wave length", r["L"], call(CP + "calculate_local_wavelength", {"T": a["Tmax"], "h": a["h_s"], "g": a.get("g", 9.81)}), 1e-12)
    return [Rel("goda1985 resultants", f, run)] * 3


def arrays():
    """the arguments for which arrays are supported"""
    f = GO + "calculate_pressures_and_forces"

    def run(call, a):
        k = np.array([0.7, 1.0, 1.3])
        for n in ("Bup", "hacc", "rho_water"):
            v = call(f, {**a, n: a[n] * k, "return_dict": True})
            w = call(f, {**a, "return_dict": True})
            for x in ("FH", "MH", "FU", "MU", "p1"):
                b = np.broadcast_to(num(v[x]), (3,))[1]
                yield eq("%s with an array of %s" % (x, n), b, w[x], 1e-12)
    return Rel("goda1985 arrays", f, run, arr=False, weight=0.3)


def combined():
    f = GO + "calculate_forces_and_reactions"
    p = GO + "calculate_pressures_and_forces"

    def run(call, a):
        r = {k: num(v) for k, v in call(f, {**a, "return_dict": True}).items() if k not in ("is_valid",)}
        t = call(f, {**a, "return_dict": False})
        for k, v in zip(("FH", "FU", "MH", "MU", "p1", "pe", "pu", "impulsive_breaking", "SF_sliding", "SF_overturning"), t):
            yield eq("tuple and dictionary: " + k, v, r[k], 0.0)
        q = call(p, {**only(p, a), "return_dict": True})
        for k in ORDER:
            yield eq("combined and separate: " + k, r[k], q[k], 1e-12)
        for k in ("HD", "Hsi", "Tmax", "h_s", "d", "cota_seabed", "rho_water", "hacc", "Rc"):
            yield eq("reported input " + k, r[k], a[k], 0.0)
            yield eq("reported input  " + k, q[k], a[k], 0.0)
        for k, v in (("g", a.get("g", 9.81)), ("beta", a["beta"])):
            if call.name == "model" and not (k in r and k in q):
                yield eq("reported input " + k, v, v, 0.0)
                yield eq("reported input  " + k, v, v, 0.0)
                continue
            yield eq("reported input " + k, np.abs(num(r[k])), np.abs(num(v)), 0.0)
            yield eq("reported input  " + k, np.abs(num(q[k])), np.abs(num(v)), 0.0)
        yield eq("reported input B_up", r["B_up"], a["Bup"], 0.0)
        yield eq("reported input Bup", q["Bup"], a["Bup"], 0.0)
        tup = num(a.get("tup_over_Bup", 0.5)) * num(a["Bup"])
        yield eq("lever arm of the weight", r["tup"], tup, 1e-12)
        W = call(GO + "calculate_Wup", {"hacc": a["hacc"], "Rc": a["Rc"], "Bup": a["Bup"], "rho_fill_below_SWL": a.get("rho_fill_below_SWL", 2100),
                 "rho_water": a["rho_water"], "rho_fill_above_SWL": a.get("rho_fill_above_SWL", 2400), "g": a.get("g", 9.81)})
        yield eq("weight", r["Wup"], W, 1e-12)
        b = call(GO + "calculate_bearing_pressures", {"Wup": W, "tup": tup, "MH": r["MH"], "MU": r["MU"], "FU": r["FU"], "Bup": a["Bup"]})
        for k, v in zip(("pe", "Me", "We", "te"), b):
            yield eq("bearing: " + k, r[k], v, 1e-11)
        s = call(GO + "calculate_safety_factors", {"FU": r["FU"], "FH": r["FH"], "Wup": W, "muf": a.get("muf", 0.6), "tup": tup, "MH": r["MH"],
                 "MU": r["MU"]})
        yield eq("safety against sliding", r["SF_sliding"], s[0], 1e-11)
        yield eq("safety against overturning", r["SF_overturning"], s[1], 1e-11)
        # static equilibrium
        yield eq("net weight", r["We"] + r["FU"], W, 1e-10)
        yield eq("moment of the net weight", r["We"] * r["te"] + r["MU"] + r["MH"], W * tup, 1e-9)
        yield eq("friction over thrust", r["SF_sliding"] * r["FH"], num(a.get("muf", 0.6)) * r["We"], 1e-9, 1e-6)
        yield eq("moments over thrust moment", (r["SF_overturning"] - 1) * r["MH"], r["Me"], 1e-7, 1e-7 * W * tup)
    return [Rel("goda1985 combined", f, run)] * 3


def bearing():
    f = GO + "calculate_bearing_pressures"

    def prep(rng, a):
        # the resultant anywhere on the base
        B = a["Bup"]
        te = B * rng.uniform(0.01, 0.98)
        if rng.random() < 0.15:
            te = B / 3 * (1 + rng.choice([-1e-3, 1e-3, -0.02, 0.02]))
        a["FU"] = a["Wup"] * rng.uniform(0.0, 0.9)
        a["tup"] = B * rng.uniform(0.3, 0.9)
        need = a["Wup"] * a["tup"] - (a["Wup"] - a["FU"]) * te
        if need > 0:
            u = rng.uniform(0, 1)
            a["MH"], a["MU"] = need * u, need * (1 - u)
        return a

    def run(call, a):
        pe, Me, We, te = (num(x) for x in call(f, a))
        B = num(a["Bup"])
        yield eq("net weight", We, num(a["Wup"]) - num(a["FU"]), 1e-10, 1e-9)
        yield eq("net moment", Me, num(a["Wup"]) * num(a["tup"]) - num(a["MU"]) - num(a["MH"]), 1e-8, 1e-6)
        yield eq("position of the reaction", te * We, Me, 1e-9)
        on = te > 0  # the reaction meets the base
        tri = te <= B / 3
        w = np.where(tri, 3 * te, B)
        pt = np.where(tri, 0.0, 2 * We / B - pe)  # at the other edge
        dist = lambda x: pe + (pt - pe) * x / w  # noqa: E731
        yield le("no tension under the landward part", 0.0, np.where(on & (te <= 2 * B / 3), pt, 0.0), 1e-9, 1e-6 * np.abs(We) / B)
        yield eq("bearing pressures carry the net weight", np.where(on, integrate(dist, 0.0, w), 0.0), np.where(on, We, 0.0), 1e-8)
        yield eq("bearing pressures carry the net moment", np.where(on, integrate(lambda x: dist(x) * x, 0.0, w), 0.0), np.where(on, We * te, 0.0), 1e-7)
    return [Rel("goda1985 bearing", f, run, prep)] * 2


def weight():
    f = GO + "calculate_Wup"

    def run(call, a):
        B, g = num(a["Bup"]), num(a.get("g", 9.81))
        n = 5
        w = 0.0
        for i in range(n):  # layer by layer
            w = w + num(a["Rc"]) / n * B * g * num(a["rho_fill_above_SWL"])
            w = w + num(a["hacc"]) / n * B * g * (num(a["rho_fill_below_SWL"]) - num(a["rho_water"]))
        yield eq("weight is that of the dry part and the submerged part", call(f, a), w, 1e-9, 1e-9 * np.max(np.abs(num(a["hacc"]) * B * g * 2500)))
    return Rel("goda1985 weight", f, run)


def mirror():
    f = GO + "calculate_forces_and_reactions"

    def run(call, a):
        b = num(a["beta"])[()]
        r = call(f, {**a, "beta": b, "return_dict": True})
        s = call(f, {**a, "beta": -b, "return_dict": True})
        names = ("FH", "FU", "MH", "MU", "p1", "p3", "p4", "pu", "pe", "SF_sliding", "SF_overturning", "impulsive_breaking")
        for k in names:
            yield eq("mirrored direction: " + k, r[k], s[k], 1e-12)
        near = np.abs(b) < 15
        if np.any(near):
            t = call(f, {**a, "beta": np.where(near, 0.0, b)[()], "return_dict": True})
            for k in names:
                yield eq("within 15 degrees: " + k, r[k], t[k], 1e-12)
    return Rel("goda1985 mirrored", f, run)


def impulsive():
    f = GO + "calculate_pressures_and_forces"

    def run(call, a):
        r = call(f, {**a, "return_dict": True})
        k = call(GO + "check_impulsive_breaking", {"beta": np.abs(a["beta"]), "B1": a["B1"], "L": r["L"], "cota_seabed": a["cota_seabed"],
                 "offshore_wave_steepness": a.get("offshore_wave_steepness", np.nan), "Rc": a["Rc"], "Hsi": a["Hsi"], "d": a["d"], "h_s": a["h_s"]})
        yield eq("impulsive breaking is reported alike", num(r["impulsive_breaking"]), num(k), 0.0)
    return [Rel("goda1985 impulsive", f, run)] * 2


def crest(which):
    perp, obl, z = CW + "calculate_F%s2p_perpendicular" % which, CW + "calculate_F%s2p_oblique" % which, CW + "calculate_F%s2p_perpendicular_from_z2p" % which
    gam = CW + "calculate_influence_oblique_waves_" + ("horizontal_force_gamma_FH_beta" if which == "H" else "vertical_force_gamma_FV_beta")
    run_up = U_ + "vangent2001.calculate_wave_runup_height_zXp"

    def run(call, a):
        p = call(perp, only(perp, a))
        yield eq("normal incidence", call(obl, {**a, "beta": 0.0}), p, 1e-9, 1e-6)
        h = call(run_up, {"H": a["Hm0"], "Tmm10": a["Tmm10"], "cot_alpha": a["cot_alpha"],
                          "gamma": num(a.get("gamma_f", 0.45)) * num(a.get("gamma_beta", 1.0)), "c0": a.get("c0", 1.45), "c1": a.get("c1", 5.0)})
        b = only(z, a)
        b["z2p"] = h
        yield eq("run-up based form", call(z, b), p, 1e-9, 1e-6)
        o = call(obl, a)
        yield eq("reduction for obliqueness", o, np.maximum(num(call(gam, {"z2p": h, "Ac": a["Ac"], "beta": a["beta"]})) * p, 0.0), 1e-8, 1e-6)
        yield le("oblique waves load no more", o, p, 1e-9, 1e-6)
        yield le("never negative", 0.0, o)
        dry = num(h) <= num(a["Ac"]) * (1.0 if which == "H" else 0.75)
        yield le("no load without run-up on the wall", np.where(dry, num(o) + num(p), 0.0), 0.0)
        yield eq("mirrored direction", call(obl, {**a, "beta": -num(a["beta"]) if isinstance(a["beta"], np.ndarray) else -float(a["beta"])}), o, 1e-12, 1e-9)
    return [Rel("vangentvanderwerf2019 F" + which, obl, run)] * 2


class C18(RelCheck):
    pid = "C18"

    def relations(self):
        return (resultants() + combined() + bearing() + [weight(), mirror(), arrays()] + impulsive() + crest("H") + crest("V"))


CHECKS = {"C18": C18}
