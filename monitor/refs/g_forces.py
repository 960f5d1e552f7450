"""Caisson forces (Goda) and crest wall forces."""
import math
from ..model import (Mod, Reject, Skip, nan, isn, given, pw, sq, ex, near, wavelength, cosd)
from .c_hydro import zx

GO = Mod("structural.forces_caisson.goda1985", "forces")
CW = Mod("structural.forces_crestwall.vangentvanderwerf2019", "forces")
FG = "Goda (2000)"


def U(rng, lo, hi):
    return float(rng.uniform(lo, hi))


D = {"HD": ("l", 0.5, 16), "Hsi": ("l", 0.4, 9), "Tmax": ("l", 2.5, 34), "h_s": ("l", 2, 40), "d": ("l", 1, 30),
     "B1": ("l", 0.5, 40), "cota_seabed": ("l", 5, 200), "hacc": ("l", 1, 35), "Rc": ("l", 0.3, 12), "Bup": ("l", 3, 40),
     "rho_fill_above_SWL": ("u", 1800, 2600), "rho_fill_below_SWL": ("u", 1500, 2500), "offshore_wave_steepness": ("u", 0.005, 0.06),
     "muf": ("u", 0.3, 0.9), "tup_over_Bup": ("u", 0.3, 0.8), "beta": ("u", -85, 85), "tup": ("u", -3, 35), "L": ("l", 10, 300),
     "return_dict": ("c", [True, False]), "rho_water": ("u", 980, 1050)}


def gfix(rng, a):
    if rng.random() < 0.85:
        a["HD"] = a["Hsi"] * U(rng, 1.2, 2.0)
        a["h_s"] = a["Hsi"] * U(rng, 1.5, 5)
        a["d"] = a["h_s"] * U(rng, 0.3, 0.95)
        a["hacc"] = a["d"] + a["h_s"] * U(rng, 0.0, 0.05)
        a["Rc"] = a["Hsi"] * U(rng, 0.1, 2.6)
    if rng.random() < 0.6:
        a["B1"] = 1.56 * a["Tmax"] ** 2 * math.exp(U(rng, math.log(0.003), math.log(0.5)))
    if rng.random() < 0.5:
        a["beta"] = U(rng, -25, 25)
    if rng.random() < 0.15:
        a["beta"] = float(rng.choice([0.0, 15.0, -15.0, 20.0, 19.999, 90.0]))
    return a


@GO.fn("check_validity_range", dom=dict(D, beta=("u", -20, 110), h_s=("u", -2, 30), B1=("u", -2, 30), Bup=("u", -3, 30), Tmax=("u", -2, 40)),
       out="none")
def go_chk(W, beta=nan, cota_seabed=nan, Tmax=nan, tup=nan, Bup=nan, h_s=nan, B1=nan):
    W(FG, "Angle of wave incidence", beta, 0.0, 90.0)
    W(FG, "Seabed slope", cota_seabed, 10.0, 100.0)
    W(FG, "Wave period", Tmax, 0.0, 30.0)
    if given(tup, Bup):
        W(FG, "Centre of gravity inside of caisson", tup / Bup, 0.0, 1.0)
    W(FG, "Water depth at site", h_s, 0.0, math.inf)
    W(FG, "Width of toe berm", B1, 0.0, math.inf)
    W(FG, "Width of caisson upright section", Bup, 0.0, math.inf)


def _lt(x, y):
    if near(x, y, 1e-9):
        raise Skip()
    return x < y


def _impulsive(W, beta, B1, L, cota, s, Rc, Hsi, d, h_s):
    if given(beta, B1, L, cota, s, Rc, Hsi) and beta < 20 and _lt(B1 / L, 0.02) and cota < 50 and s < 0.03 and _lt(0.3, Rc / Hsi):
        W.flag("Impulsive breaking condition 1")
        return True
    if (given(beta, B1, L, d, h_s, Rc, Hsi) and beta < 20 and _lt(0.02, B1 / L) and _lt(B1 / L, 0.3) and _lt(d / h_s, 0.6)
            and _lt(0.3, Rc / Hsi)):
        W.flag("Impulsive breaking condition 2")
        return True
    return False


@GO.fn("check_impulsive_breaking", dom=dict(D, beta=("u", 0, 40), d=("l", 2, 30)),
       exact=("beta", "cota_seabed", "offshore_wave_steepness"))
def go_imp(W, beta=nan, B1=nan, L=nan, cota_seabed=nan, offshore_wave_steepness=nan, Rc=nan, Hsi=nan, d=nan, h_s=nan):
    return _impulsive(W, beta, B1, L, cota_seabed, offshore_wave_steepness, Rc, Hsi, d, h_s)


def pressures(W, HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, s, g):
    b = abs(beta)
    c = cosd(b - 15 if b >= 15 else 0)
    h5 = h_s + 5 * Hsi / cota_seabed
    eta = 0.75 * (1 + c) * HD
    L = wavelength(Tmax, h_s, g)
    x = 4 * math.pi * h_s / L
    if x > 600:
        raise Skip()
    a1 = 0.6 + 0.5 * (x / math.sinh(x)) ** 2
    a2 = min((h5 - d) / (3 * h5) * (HD / d) ** 2, 2 * d / HD)
    a3 = 1 - hacc / h_s * (1 - 1 / math.cosh(x / 2))
    w = rho_water * g
    p1 = 0.5 * (1 + c) * (a1 + a2 * c * c) * w * HD
    p2 = p1 / math.cosh(x / 2)
    p3 = a3 * p1
    p4 = p1 * (1 - Rc / eta) if eta > Rc else 0.0
    hc = min(eta, Rc)
    pu = 0.5 * (1 + c) * a1 * a3 * w * HD
    FH = 0.5 * (p1 + p3) * hacc + 0.5 * (p1 + p4) * hc
    MH = (2 * p1 + p3) * hacc ** 2 / 6 + 0.5 * (p1 + p4) * hacc * hc + (p1 + 2 * p4) * hc ** 2 / 6
    FU = 0.5 * pu * Bup
    MU = 2 / 3 * FU * Bup
    imp = _impulsive(W, b, B1, L, cota_seabed, s, Rc, Hsi, d, h_s)
    return dict(FH=FH, FU=FU, MH=MH, MU=MU, p1=p1, p2=p2, p3=p3, p4=p4, hstar_c=hc, pu=pu, h_5Hs=h5, etastar=eta, L=L, alpha1=a1,
                alpha2=a2, alpha3=a3, impulsive_breaking=imp)


ORDER = ("FH", "FU", "MH", "MU", "p1", "p2", "p3", "p4", "hstar_c", "pu", "h_5Hs", "etastar", "L", "alpha1", "alpha2", "alpha3",
         "impulsive_breaking")


@GO.fn("calculate_pressures_and_forces", dom=D, fix=gfix, out="any", bools=("return_dict",), rtol=1e-6, atol=1e-9)
def go_p(W, HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, offshore_wave_steepness=nan, g=9.81,
         return_dict=False):
    r = pressures(W, HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, offshore_wave_steepness, g)
    if not return_dict:
        return tuple(r[k] for k in ORDER)
    r.update(HD=HD, Hsi=Hsi, Tmax=Tmax, h_s=h_s, d=d, cota_seabed=cota_seabed, rho_water=rho_water, hacc=hacc, Rc=Rc, Bup=Bup, g=g)
    return r


@GO.fn("calculate_Wup", dom=D)
def go_w(W, hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g=9.81):
    return (hacc * (rho_fill_below_SWL - rho_water) + Rc * rho_fill_above_SWL) * Bup * g


DF = {"FU": ("l", 1e3, 1e7), "FH": ("l", 1e3, 1e7), "Wup": ("l", 1e4, 1e8), "muf": ("u", 0.3, 0.9), "tup": ("u", 1, 20),
      "MH": ("l", 1e4, 1e8), "MU": ("l", 1e4, 1e8), "Bup": ("u", 2, 40)}


@GO.fn("calculate_safety_factors", dom=DF, out="tuple", atol=1e-12)
def go_sf(W, FU, FH, Wup, muf, tup, MH, MU):
    return muf * (Wup - FU) / FH, (Wup * tup - MU) / MH


def _bearing(Wup, tup, MH, MU, FU, Bup):
    Me = Wup * tup - MU - MH
    We = Wup - FU
    if abs(We) < 1e-6 * Wup or abs(Me) < 1e-6 * abs(Wup * tup):
        raise Skip()
    te = Me / We
    pe = 2 * We / (3 * te) if te <= Bup / 3 else 2 * We / Bup * (2 - 3 * te / Bup)
    return pe, Me, We, te


@GO.fn("calculate_bearing_pressures", dom=DF, out="tuple", rtol=1e-8, atol=1e-6)
def go_b(W, Wup, tup, MH, MU, FU, Bup):
    return _bearing(Wup, tup, MH, MU, FU, Bup)


@GO.fn("calculate_forces_and_reactions", dom=D, fix=gfix, out="any", bools=("return_dict",), rtol=1e-6, atol=1e-6)
def go_f(W, HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, rho_fill_above_SWL=2400,
         rho_fill_below_SWL=2100, offshore_wave_steepness=nan, muf=0.6, tup_over_Bup=0.5, g=9.81, return_dict=False):
    r = pressures(W, HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, offshore_wave_steepness, g)
    tup = tup_over_Bup * Bup
    Wup = go_w(W, hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g)
    pe, Me, We, te = _bearing(Wup, tup, r["MH"], r["MU"], r["FU"], Bup)
    s1, s2 = muf * We / r["FH"], (Wup * tup - r["MU"]) / r["MH"]
    go_chk(W, beta=beta, cota_seabed=cota_seabed, Tmax=Tmax, tup=tup, Bup=Bup, h_s=h_s)
    if not return_dict:
        return (r["FH"], r["FU"], r["MH"], r["MU"], r["p1"], pe, r["pu"], r["impulsive_breaking"], s1, s2)
    r.update(SF_overturning=s2, SF_sliding=s1, tup=tup, Wup=Wup, te=te, We=We, Me=Me, pe=pe, HD=HD, Hsi=Hsi, Tmax=Tmax,
             h_s=h_s, d=d, cota_seabed=cota_seabed, rho_water=rho_water, hacc=hacc, Rc=Rc, B_up=Bup, g=g)
    return r


# ------------------------------------------------------------------ crest wall
FC = "Van Gent and Van der Werf 2019"
DC = {"Hm0": ("l", 0.3, 8), "Tmm10": ("l", 3, 20), "Ac": ("l", 0.3, 8), "Rc": ("l", 0.4, 12), "Hwall": ("l", 0.3, 6),
      "Bwall": ("l", 0.5, 12), "Fb": ("l", 0.05, 5), "cot_alpha": ("u", 1.2, 5), "beta": ("u", 0, 89), "z2p": ("l", 0.5, 15),
      "gamma_A": ("u", 0.5, 1.2), "c_beta": ("u", 0.2, 0.8), "c0": ("u", 1, 1.8), "c1": ("u", 4, 6), "cFH": ("u", 0.5, 1.5),
      "cFV": ("u", 0.2, 0.8), "cFb": ("u", 0.3, 1.0), "FH2p": ("l", 10, 1e6), "FV2p": ("l", 10, 1e6), "s0p": ("u", 0.01, 0.06),
      "gamma_f": ("u", 0.35, 0.8)}


def cfix(rng, a):
    H = a.get("Hm0") or (a["z2p"] / 2 if "z2p" in a else None)
    if H and "Ac" in a and rng.random() < 0.85:
        a["Ac"] = H * U(rng, 0.4, 1.8)
    if "Ac" in a and "Rc" in a and rng.random() < 0.85:
        a["Rc"] = a["Ac"] * U(rng, 1.1, 1.8)
    if "Ac" in a and "Fb" in a and rng.random() < 0.85:
        a["Fb"] = a["Ac"] * U(rng, 0, 0.9)
    if "Fb" in a and rng.random() < 0.1:
        a["Fb"] = 0.0
    if "beta" in a and rng.random() < 0.1:
        a["beta"] = 0.0
    return a


@CW.fn("check_validity", dom=dict(DC, beta=("u", -10, 89), Fb=("u", -0.5, 5)), out="none", fix=cfix)
def cw_chk(W, Rc=nan, Ac=nan, Hm0=nan, Fb=nan, beta=nan):
    if given(Hm0, Rc, Ac):
        W(FC, "(Rc-Ac)/Hm0", (Rc - Ac) / Hm0, 0.26, 0.77)
    if given(Rc, Ac):
        W(FC, "Rc/Ac", Rc / Ac, 1.27, 1.55)
    if given(Hm0, Rc):
        W(FC, "Rc/Hm0", Rc / Hm0, 0.79, 2.18)
    if given(Hm0, Fb):
        W(FC, "Fb/Hm0", Fb / Hm0, 0.0, 0.62)
    W(FC, "beta", beta, 0.0, 75.0)


def _g(z2p, Ac, beta, gA):
    den = z2p - gA * Ac
    if abs(den) < 1e-4 * z2p:
        raise Skip()
    return ((0.5 * cosd(beta) ** 2 + 0.5) * z2p - gA * Ac) / den


@CW.fn("calculate_influence_oblique_waves_force_gamma_F_beta", dom=DC, fix=cfix, rtol=1e-8, atol=1e-9)
def cw_g(W, z2p, Ac, beta, gamma_A):
    return _g(z2p, Ac, beta, gamma_A)


@CW.fn("calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta", dom=DC, fix=cfix, rtol=1e-8, atol=1e-9)
def cw_gh(W, z2p, Ac, beta, gamma_A=1.0):
    return _g(z2p, Ac, beta, gamma_A)


@CW.fn("calculate_influence_oblique_waves_vertical_force_gamma_FV_beta", dom=DC, fix=cfix, rtol=1e-8, atol=1e-9)
def cw_gv(W, z2p, Ac, beta, gamma_A=0.75):
    return _g(z2p, Ac, beta, gamma_A)


@CW.fn("calculate_influence_oblique_waves_gamma_beta", dom=DC)
def cw_b(W, beta, c_beta=0.5):
    return (1 - c_beta) * cosd(beta) ** 2 + c_beta


def _fh(z, Ac, Hwall, rw, g, c):
    return max(0.0, c * rw * g * Hwall * (z - Ac))


def _fv(z, Ac, Bwall, Fb, cFV, cFb, rw, g):
    return max(0.0, cFV * rw * g * Bwall * (z - 0.75 * Ac) * (1 - pw(Fb / Ac, cFb)))


@CW.fn("calculate_FH2p_perpendicular_from_z2p", dom=DC, fix=cfix, atol=1e-7)
def cw_hz(W, Hm0, z2p, Ac, Rc, Hwall, rho_water=1025.0, g=9.81, cFH=1.0):
    cw_chk(W, Hm0=Hm0, Ac=Ac, Rc=Rc)
    return _fh(z2p, Ac, Hwall, rho_water, g, cFH)


@CW.fn("calculate_FH2p_perpendicular", dom=DC, fix=cfix, atol=1e-7)
def cw_h(W, Hm0, Tmm10, cot_alpha, Ac, Rc, Hwall, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, rho_water=1025.0, g=9.81, cFH=1.0):
    cw_chk(W, Hm0=Hm0, Ac=Ac, Rc=Rc)
    return _fh(zx(W, Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1), Ac, Hwall, rho_water, g, cFH)


@CW.fn("calculate_FH2p_oblique", dom=DC, fix=cfix, atol=1e-7)
def cw_ho(W, Hm0, Tmm10, beta, cot_alpha, Ac, Rc, Hwall, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, cFH=1.0, rho_water=1025.0,
          g=9.81):
    cw_chk(W, Hm0=Hm0, Ac=Ac, Rc=Rc, beta=beta)
    z = zx(W, Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    return max(0.0, _g(z, Ac, beta, 1.0) * _fh(z, Ac, Hwall, rho_water, g, cFH))


@CW.fn("calculate_FV2p_perpendicular_from_z2p", dom=DC, fix=cfix, atol=1e-7)
def cw_vz(W, z2p, Ac, Bwall, Fb, cFV=0.4, cFb=0.5, rho_water=1025.0, g=9.81):
    return _fv(z2p, Ac, Bwall, Fb, cFV, cFb, rho_water, g)


@CW.fn("calculate_FV2p_perpendicular", dom=DC, fix=cfix, atol=1e-7)
def cw_v(W, Hm0, Tmm10, cot_alpha, Ac, Bwall, Fb, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, cFV=0.4, cFb=0.5,
         rho_water=1025.0, g=9.81):
    cw_chk(W, Hm0=Hm0, Ac=Ac, Fb=Fb)
    return _fv(zx(W, Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1), Ac, Bwall, Fb, cFV, cFb, rho_water, g)


@CW.fn("calculate_FV2p_oblique", dom=DC, fix=cfix, atol=1e-7)
def cw_vo(W, Hm0, Tmm10, beta, cot_alpha, Ac, Bwall, Fb, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, cFV=0.4, cFb=0.5,
          rho_water=1025.0, g=9.81):
    cw_chk(W, Hm0=Hm0, Ac=Ac, beta=beta, Fb=Fb)
    z = zx(W, Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    return max(0.0, _g(z, Ac, beta, 0.75) * _fv(z, Ac, Bwall, Fb, cFV, cFb, rho_water, g))


@CW.fn("calculate_FH01p_perpendicular", dom=DC)
def cw_h01(W, FH2p):
    return 1.6 * FH2p


@CW.fn("calculate_FV01p_perpendicular", dom=DC, atol=1e-9)
def cw_v01(W, FV2p, s0p):
    return (2.88 - 32 * s0p) * FV2p
