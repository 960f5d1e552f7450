"""Toe berm and rear side stability."""
import math
from ..model import (Mod, Reject, Skip, nan, isn, given, pw, sq, ln, ex, dv, steep, irib, delta_, MODE, near, wavenumber, sind, cosd)
from .a_core import check_usage_Dn50_or_M50 as use_dn
from .c_hydro import z1 as runup1, velocity

T_ = "structural.stability_toe_berm."
R_ = "structural.stability_rock_rear."
ES = Mod(T_ + "etemadshahidi2021", "toe")
GE = Mod(T_ + "gerding1993", "toe")
TK = Mod(T_ + "takahashi1990_caisson", "toe")
VM = Mod(T_ + "vandermeer1998", "toe")
VW = Mod(T_ + "vangentvanderwerf2014", "toe")
V7 = Mod(R_ + "vangent2007", "toe")
VP = Mod(R_ + "vangentpozueta2004", "toe")


def U(rng, lo, hi):
    return float(rng.uniform(lo, hi))


D = {"ht": ("l", 0.2, 20), "h": ("l", 0.5, 25), "Bt": ("l", 0.1, 12), "m": ("u", 0.005, 0.2), "tt": ("l", 0.1, 6),
     "cot_alpha_armour_slope": ("u", 1.1, 5), "Dn50": ("l", 0.05, 2), "Hs": ("l", 0.1, 9), "Hm0": ("l", 0.1, 9),
     "c1": ("u", 0.5, 2), "c2": ("u", 8, 14), "c3": ("u", 1, 2.5), "c4": ("u", 0.1, 0.3), "c5": ("u", 0.3, 0.6),
     "c6": ("u", -0.2, -0.05), "c7": ("u", 2, 4.5), "smm10_init": ("u", 0.01, 0.06), "max_iter": ("c", [1000, 400]),
     "Nod": ("l", 0.1, 6)}


def rel(rng, a):
    """depths, widths and stone sizes relative to the wave height"""
    H = a.get("Hs", a.get("Hm0"))
    if H is None:
        if "ht" in a and "h" in a and rng.random() < 0.8:
            a["ht"] = a["h"] * U(rng, 0.3, 0.98)
        return a
    if "h" in a and rng.random() < 0.8:
        a["h"] = H * U(rng, 1.0, 5.0)
    if "ht" in a and rng.random() < 0.8:
        a["ht"] = (a["h"] * U(rng, 0.3, 0.98)) if "h" in a else H * U(rng, 0.4, 4)
    if "Bt" in a and rng.random() < 0.7:
        a["Bt"] = H * U(rng, 0.1, 2.2)
    if "tt" in a and rng.random() < 0.7:
        a["tt"] = H * U(rng, 0.1, 1.5)
    if "Dn50" in a and rng.random() < 0.8:
        a["Dn50"] = H / U(rng, 1.0, 12)
    return a


# ------------------------------------------------------------------ Etemad-Shahidi 2021
FE = "Etemad-Shahidi et al. (2021)"


@ES.fn("check_validity", dom=D, out="none", fix=rel)
def es_chk(W, Hs=nan, Tmm10=nan, h=nan, ht=nan, Bt=nan, Dn50=nan, m=nan, Nod=nan, cot_alpha_armour_slope=nan, rho_armour=nan,
           rho_water=1025.0):
    W(FE, "Armour slope cot_alpha_armour_slope", cot_alpha_armour_slope, 1.5, 2.0)
    if given(Hs, Tmm10):
        W(FE, "Wave steepness sm-1,0", steep(Hs, Tmm10), 0.009, 0.061)
    if given(h, ht):
        W(FE, "Relative water depth above the toe ht/h", ht / h, 0.39, 0.88)
    if given(Hs, ht):
        W(FE, "Relative water depth above the toe ht/Hs", ht / Hs, 0.48, 2.58)
    if given(Dn50, ht):
        W(FE, "Relative water depth above the toe ht/Dn50", ht / Dn50, 1.97, 23.40)
    if given(Hs, Bt):
        W(FE, "Relative toe width Bt/Hs", Bt / Hs, 0.17, 1.92)
    if given(h, Hs):
        W(FE, "Relative water depth h/Hs", h / Hs, 1.22, 3.0)
    if given(Hs, Dn50, rho_armour):
        W(FE, "Stability number Ns", Hs / (Dn50 * delta_(rho_armour, rho_water)), 1.58, 10.0)
    if given(rho_armour):
        W(FE, "Buoyant density Delta", delta_(rho_armour, rho_water), 1.65, 1.75)
    W(FE, "Foreshore slope m", m, 0.02, 0.10)
    W(FE, "Damage parameter Nod", Nod, 0.5, 3.79)


def _es_ns(Hs, Tmm10, h, ht, Bt, Nod, m, g, c1, c2, c3, c4, c5, c6, c7):
    return c1 + c2 * pw(ht / h, c3) * pw(steep(Hs, Tmm10, g), c4) * pw(Nod, c5) * pw(Bt / Hs, c6) * (1 - c7 * m)


CS = dict(c1=1.2, c2=11.2, c3=1.75, c4=1 / 6, c5=0.4, c6=-0.1, c7=3.7)


@ES.fn("calculate_damage_Nod", dom=D, fix=rel)
def es_nod(W, Hs, Tmm10, h, ht, Bt, m, Dn50, rho_rock, rho_water=1025.0, g=9.81, c1=1.2, c2=11.2, c3=7.0 / 4.0, c4=1.0 / 6.0,
           c5=2.0 / 5.0, c6=-1.0 / 10.0, c7=3.7):
    ns = Hs / (Dn50 * delta_(rho_rock, rho_water))
    x = (ns - c1) / (_es_ns(Hs, Tmm10, h, ht, Bt, 1.0, m, g, c1, c2, c3, c4, c5, c6, c7) - c1)
    es_chk(W, Hs=Hs, ht=ht)
    return pw(x, 1 / c5) if x > 1e-6 else nan


@ES.fn("calculate_nominal_diameter_Dn50", dom=D, fix=rel)
def es_dn(W, Hs, Tmm10, h, ht, Bt, Nod, m, rho_rock, rho_water=1025.0, g=9.81, c1=1.2, c2=11.2, c3=7.0 / 4.0, c4=1.0 / 6.0,
          c5=2.0 / 5.0, c6=-1.0 / 10.0, c7=3.7):
    es_chk(W, Hs=Hs, ht=ht)
    return Hs / (delta_(rho_rock, rho_water) * _es_ns(Hs, Tmm10, h, ht, Bt, Nod, m, g, c1, c2, c3, c4, c5, c6, c7))


def _eshfix(rng, a):
    if "h" in a and rng.random() < 0.85:
        a["ht"] = a["h"] * U(rng, 0.3, 0.98)
        a["Dn50"] = a["h"] * U(rng, 0.02, 0.2)
        a["Bt"] = a["h"] * U(rng, 0.05, 0.8)
    return a


@ES.fn("calculate_significant_wave_height_Hs", dom=D, fix=_eshfix, kind="iterative", rtol=1e-8)
def es_hs(W, Tmm10, h, ht, Bt, Nod, m, Dn50, rho_rock, rho_water=1025.0, g=9.81, c1=1.2, c2=11.2, c3=7.0 / 4.0, c4=1.0 / 6.0,
          c5=2.0 / 5.0, c6=-1.0 / 10.0, c7=3.7, smm10_init=0.03, max_iter=1000):
    H = smm10_init * Tmm10 ** 2 * g / (2 * math.pi)
    tol = 1e-3 if MODE[0] == 0 else 0.0
    dd = delta_(rho_rock, rho_water) * Dn50
    for _ in range(400):
        n = dd * _es_ns(H, Tmm10, h, ht, Bt, Nod, m, g, c1, c2, c3, c4, c5, c6, c7)
        if not n > 0:
            raise Skip()
        done = abs(n - H) <= max(tol, 1e-13 * n)
        H = n
        if done:
            return H
    raise Skip()


# ------------------------------------------------------------------ Gerding 1993
FG = "Gerding (1993)"


@GE.fn("check_validity", dom=D, out="none", fix=rel)
def ge_chk(W, ht=nan, h=nan, Dn50=nan):
    if given(ht, h):
        W(FG, "Relative toe height (h)", ht / h, 0.4, 0.9)
    if given(ht, Dn50):
        W(FG, "Relative toe height (Dn50)", ht / Dn50, 3, 25)


@GE.fn("calculate_damage_Nod", dom=D, fix=rel)
def ge_nod(W, Hs, ht, h, Dn50, rho_rock, rho_water):
    ge_chk(W, ht, h, Dn50)
    return pw(Hs / delta_(rho_rock, rho_water) / (1.6 * Dn50 + 0.24 * ht), 1 / 0.15)


@GE.fn("calculate_nominal_diameter_Dn50", dom=D, fix=rel, atol=1e-12)
def ge_dn(W, Hs, ht, h, Nod, rho_rock, rho_water):
    d = (Hs / (delta_(rho_rock, rho_water) * pw(Nod, 0.15)) - 0.24 * ht) / 1.6
    if abs(d) < 1e-4:
        raise Skip()
    ge_chk(W, ht, h, d)
    return d


@GE.fn("calculate_wave_height_Hs", dom=D, fix=rel)
def ge_hs(W, Dn50, ht, h, Nod, rho_rock, rho_water):
    ge_chk(W, ht, h, Dn50)
    return pw(Nod, 0.15) * delta_(rho_rock, rho_water) * (1.6 * Dn50 + 0.24 * ht)


@GE.fn("calculate_depth_above_toe_ht", dom=D, fix=rel, atol=1e-12)
def ge_ht(W, Hs, Dn50, h, Nod, rho_rock, rho_water):
    ht = (Hs / (delta_(rho_rock, rho_water) * pw(Nod, 0.15)) - 1.6 * Dn50) / 0.24
    if abs(ht) < 1e-4:
        raise Skip()
    ge_chk(W, ht, h, Dn50)
    return ht


# ------------------------------------------------------------------ Takahashi 1990
FT = "Takahashi et al (1990)"
DT = {"Hs": ("l", 0.3, 10), "Tp": ("l", 3, 22), "hacc": ("l", 0.5, 25), "Bt": ("l", 0.5, 25), "beta": ("u", 0, 85),
      "Ns": ("u", -1, 6), "Dn50": ("l", 0.1, 3)}


@TK.fn("check_validity", dom={"Ns": ("u", -1, 6), "Bt": ("u", -2, 20)}, out="none")
def tk_chk(W, Ns=nan, Bt=nan):
    W(FT, "Stability number Ns", Ns, 0, math.inf)
    W(FT, "Toe width Bt", Bt, 0, math.inf)


@TK.fn("calculate_stability_number_Ns", dom=DT, rtol=1e-5)
def tk_ns(W, Hs, Tp, hacc, Bt, beta, g=9.81):
    k = wavenumber(Tp, hacc, g)
    x = 2 * k * hacc
    if x > 600:
        raise Skip()
    cb = math.cos(math.radians(beta))
    arg = k * Bt * cb
    k2 = max(0.45 * math.sin(math.radians(beta)) ** 2 * math.cos(arg) ** 2, cb * cb * math.sin(arg) ** 2)
    kap = x / math.sinh(x) * k2
    if k2 < 1e-4 or kap < 1e-60:
        raise Skip()
    q = pw(kap, 1 / 3)
    r = hacc / Hs
    ns = max(1.8, 1.3 * (1 - kap) / q * r + 1.8 * ex(-1.5 * (1 - kap) ** 2 / q * r))
    tk_chk(W, ns, Bt)
    return ns


@TK.fn("calculate_nominal_diameter_Dn50", dom=DT, rtol=1e-5)
def tk_dn(W, Hs, Tp, hacc, Bt, rho_rock, rho_water, beta, g=9.81):
    return Hs / (delta_(rho_rock, rho_water) * tk_ns(W, Hs, Tp, hacc, Bt, beta, g))


# ------------------------------------------------------------------ Van der Meer 1998
F8 = "van der Meer (1998)"


@VM.fn("check_validity", dom=dict(D, Hs=("l", 0.005, 25)), out="none", fix=rel)
def v8_chk(W, Hs=nan, ht=nan, h=nan, Dn50=nan, Nod=nan, Delta=nan):
    W(F8, "Significant wave height Hs", Hs, 0.01, 20)
    if given(ht, h):
        W(F8, "Relative toe height (h)", ht / h, 0.4, 0.9)
    if given(ht, Dn50):
        W(F8, "Relative toe height (Dn50)", ht / Dn50, 3, 25)
    if given(Nod, Dn50, Hs, Delta):
        W(F8, "Nod vs Ns", pw(Nod, -0.15) * Hs / (Delta * Dn50), 2, math.inf)


def _v8(ht, h):
    return 2 + 6.2 * pw(ht / h, 2.7)


@VM.fn("calculate_damage_Nod", dom=D, fix=rel)
def v8_nod(W, Hs, ht, h, Dn50, rho_rock, rho_water):
    de = delta_(rho_rock, rho_water)
    n = pw(Hs / (de * Dn50) / _v8(ht, h), 1 / 0.15)
    v8_chk(W, Hs, ht, h, Dn50, n, de)
    return n


@VM.fn("calculate_nominal_diameter_Dn50", dom=D, fix=rel)
def v8_dn(W, Hs, ht, h, Nod, rho_rock, rho_water):
    de = delta_(rho_rock, rho_water)
    d = Hs / (de * _v8(ht, h) * pw(Nod, 0.15))
    v8_chk(W, Hs, ht, h, d, Nod, de)
    return d


@VM.fn("calculate_wave_height_Hs", dom=D, fix=rel)
def v8_hs(W, Dn50, ht, h, Nod, rho_rock, rho_water):
    de = delta_(rho_rock, rho_water)
    H = _v8(ht, h) * de * Dn50 * pw(Nod, 0.15)
    v8_chk(W, H, ht, h, Dn50, Nod, de)
    return H


@VM.fn("calculate_depth_above_toe_ht", dom=D, fix=rel, rtol=1e-8)
def v8_ht(W, Hs, Dn50, h, Nod, rho_rock, rho_water):
    de = delta_(rho_rock, rho_water)
    x = (Hs * pw(Nod, -0.15) / (de * Dn50) - 2) / 6.2
    if abs(x) < 1e-5:
        raise Skip()
    ht = h * pw(x, 1 / 2.7) if x > 0 else nan
    v8_chk(W, Hs, ht, h, Dn50, Nod, de)
    return ht


# ------------------------------------------------------------------ Van Gent & Van der Werf 2014
F4 = "van Gent & van der Werf (2014)"


@VW.fn("check_validity", dom=D, out="none", fix=rel)
def vw_chk(W, Hs=nan, tt=nan, ht=nan, cot_alpha_armour_slope=nan):
    c = cot_alpha_armour_slope
    W(F4, "Armour slope cot_alpha_armour_slope", c, 1.5, 4)
    W(F4, "Armour slope cot_alpha_armour_slope, closer to 1:4 more inaccuracies are found", c, 1.5, 2)
    if given(ht, tt):
        W(F4, "Relative toe height tt/h", tt / (ht + tt), 0.1, 0.3)
        if given(Hs):
            W(F4, "Relative water depth h/Hs", (ht + tt) / Hs, 1.2, 4.5)


@VW.fn("calculate_velocity_u_delta", dom=D, fix=rel)
def vw_u(W, Hs, Tmm10, ht, g=9.81):
    k = 4 * math.pi ** 2 / (g * Tmm10 ** 2)
    if k * ht > 300:
        raise Skip()
    return math.pi * Hs / Tmm10 / math.sinh(k * ht)


@VW.fn("calculate_damage_Nod", dom=dict(D, c1=("u", 0.02, 0.05), c2=("u", 0.1, 0.5), c3=("u", 0.5, 1.5), c4=("u", 2, 4),
                                        c5=("u", 0.5, 1.5)), fix=rel)
def vw_nod(W, Hm0, Tmm10, ht, Bt, tt, Dn50, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81, c1=0.032, c2=0.3, c3=1.0,
           c4=3.0, c5=1.0):
    u = vw_u(W, Hm0, Tmm10, ht, g)
    vw_chk(W, Hm0, tt, ht, cot_alpha_armour_slope)
    return (c1 * pw(Bt / Hm0, c2) * pw(tt / Hm0, c3) * pw(Hm0 / (delta_(rho_rock, rho_water) * Dn50), c4)
            * pw(u / sq(g * Hm0), c5))


@VW.fn("calculate_nominal_diameter_Dn50", dom=D, fix=rel)
def vw_dn(W, Hm0, Tmm10, ht, Bt, tt, Nod, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81):
    u = vw_u(W, Hm0, Tmm10, ht, g)
    vw_chk(W, Hm0, tt, ht, cot_alpha_armour_slope)
    return (0.32 * Hm0 / (delta_(rho_rock, rho_water) * pw(Nod, 1 / 3)) * pw(Bt / Hm0, 0.1)
            * pw(tt / Hm0 * u / sq(g * Hm0), 1 / 3))


# ------------------------------------------------------------------ rear side: Van Gent 2007
F7 = "Van Gent (2007)"
DR = {"Hs": ("l", 0.3, 9), "Rc": ("l", 0.3, 10), "Rc2_front": ("l", 0.05, 3), "Rc2_rear": ("l", 0.05, 5), "Gc": ("l", 0.3, 8),
      "B_element": ("l", 0.2, 10), "z1p": ("l", 0.5, 20), "S": ("l", 0.5, 150), "Dn50": ("l", 0.05, 2), "gamma": ("u", 0.35, 1),
      "gamma_f_Crest": ("u", 0.3, 1), "cot_phi": ("u", 1.3, 5), "Rc_rear": ("l", 0.2, 15), "Bc": ("l", 0.3, 15),
      "cs": ("l", 1e-13, 1e-12), "tolerance": ("c", [1e-4, 1e-6]), "max_iterations": ("c", [10000, 5000]),
      "cot_alpha": ("u", 1.2, 6), "gamma_f": ("u", 0.35, 1)}


@V7.fn("check_validity_range", dom=DR, out="none")
def v7_chk(W, Rc=nan, Rc2_front=nan, Rc2_rear=nan, Gc=nan, Dn50=nan, B_element=nan, h=nan, Hs=nan, Tmm10=nan, z1p=nan, S=nan,
           N_waves=nan):
    if given(Hs, Tmm10):
        W(F7, "sm-1,0", steep(Hs, Tmm10), 0.023, 0.054)
    if given(h, Hs):
        W(F7, "h/Hs", h / Hs, 3.3, 11.0)
    W(F7, "N_waves", N_waves, 1000, 10000)
    if given(Rc, Hs):
        W(F7, "Rc/Hs", Rc / Hs, 0.5, 1.9)
    if given(Rc, Dn50):
        W(F7, "Rc/Dn50", Rc / Dn50, 7.0, 22.0)
    if given(Rc, Hs, z1p):
        W(F7, "(z1% - Rc)/Hs", (z1p - Rc) / Hs, 0.2, 1.3)
    if given(Rc2_front, Hs):
        W(F7, "Rc2,front/Hs", Rc2_front / Hs, 0.0, 0.5)
    if given(B_element, Hs):
        W(F7, "B_element/Hs", B_element / Hs, 0.5, 1.5)
    if given(Gc, Hs):
        W(F7, "Gc/Hs", Gc / Hs, 0.5, 1.1)
    if given(Dn50, Hs):
        W(F7, "Stability number Ns", Hs / (Dn50 * delta_(2650.0, 1025.0)), 4.0, 12.0)
    if given(Rc2_rear, Hs):
        W(F7, "Rc2,rear/Hs", Rc2_rear / Hs, 0.0, 1.3)
    W(F7, "S", S, 2.0, 100.0)


def v7fix(rng, a):
    H = a.get("Hs")
    if H is not None and rng.random() < 0.85:
        a["Rc"] = H * U(rng, 0.4, 2.2)
    if rng.random() < 0.9:
        a["Rc2_rear"] = a["Rc"] * U(rng, 0.02, 0.8)
    if rng.random() < 0.1:
        a["Rc2_rear"] = 0.0
    if rng.random() < 0.15:
        a["Rc2_front"] = 0.0
    if "Dn50" in a or "M50" in a:
        d = a["Rc"] / U(rng, 3, 25)
        a.pop("Dn50", None)
        a.pop("M50", None)
        if rng.random() < 0.55:
            a["Dn50"] = d
        else:
            a["M50"] = 2650 * d ** 3
    return a


def _adddn(rng, a, p=0.97):
    """functions that need one of Dn50 and M50"""
    if rng.random() < p and "Dn50" not in a and "M50" not in a:
        a["Dn50"] = 1.0
    return a


def v7sfix(rng, a):
    return v7fix(rng, _adddn(rng, a))


@V7.fn("calculate_damage_number_S", dom=DR, fix=v7sfix)
def v7_S(W, cot_alpha, cot_phi, gamma, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves, Dn50=nan, M50=nan, rho_rock=nan):
    z = runup1(W, Hs, Tmm10, gamma, cot_alpha)
    Dn50 = use_dn(W, Dn50, M50, rho_rock)
    if abs(z - Rc) < 1e-5 * Rc:
        raise Skip()
    S = (0.00025 * pw(cot_phi, 1.25) * ((z - Rc) / Dn50) ** 2 * sq(Rc / Dn50) * (1 + 5 * Rc2_rear / (Rc - Rc2_rear))
         / (1 + Rc2_front / Hs) * sq(N_waves))
    v7_chk(W, Dn50=Dn50, Hs=Hs, Rc=Rc, z1p=z, Rc2_front=Rc2_front, Rc2_rear=Rc2_rear, N_waves=N_waves, S=S)
    return S


@V7.fn("calculate_nominal_rock_diameter_Dn50", dom=DR, fix=v7fix)
def v7_D(W, cot_alpha, cot_phi, gamma, S, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves):
    z = runup1(W, Hs, Tmm10, gamma, cot_alpha)
    if z - Rc < 1e-5 * Rc:
        raise Skip()
    D = (0.036 * pw(cot_phi, 0.5) * pw(z - Rc, 0.8) * pw(Rc, 0.2) * pw(1 + 5 * Rc2_rear / (Rc - Rc2_rear), 0.4)
         * pw(1 + Rc2_front / Hs, -0.4) * pw(S / sq(N_waves), -0.4))
    v7_chk(W, Dn50=D, Hs=Hs, Rc=Rc, z1p=z, Rc2_front=Rc2_front, Rc2_rear=Rc2_rear, N_waves=N_waves, S=S)
    return D


def _inv_runup(H, z, T, gamma, cot, c0=1.45, c1=5.1):
    k = irib(H, T, cot)
    if near(k, 0.5 * c1 / c0, 1e-6):
        raise Skip()
    return z / (c0 * k * gamma) if k < 0.5 * c1 / c0 else z / ((c1 - 0.25 * c1 * c1 / c0 / k) * gamma)


def _fix_iter(step, H, tol):
    """fixed point iteration; (H, auxiliary) at the documented tolerance or at convergence"""
    tol = tol if MODE[0] == 0 else 0.0
    for _ in range(600):
        n, aux = step(H)
        if not (n > 0 and math.isfinite(n)):
            raise Skip()
        done = abs(n - H) <= max(tol, 1e-13 * n)
        H = n
        if done:
            return H, aux
    raise Skip()


@V7.fn("calculate_maximum_significant_wave_height_Hs", dom=DR, fix=v7sfix, kind="iterative", rtol=1e-8)
def v7_H(W, cot_alpha, cot_phi, gamma, S, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves, Dn50=nan, M50=nan, rho_rock=nan,
         tolerance=1e-4, max_iterations=10000):
    Dn50 = use_dn(W, Dn50, M50, rho_rock)

    def step(H):
        z = Rc + Dn50 * sq(S / sq(N_waves) / 0.00025 * pw(cot_phi, -1.25) / sq(Rc / Dn50) / (1 + 5 * Rc2_rear / (Rc - Rc2_rear))
                           * (1 + Rc2_front / H))
        return _inv_runup(H, z, Tmm10, gamma, cot_alpha), z
    H, z = _fix_iter(step, Rc2_front if Rc2_front > 0 else Rc, tolerance)
    W.margin = 3e-3
    v7_chk(W, Dn50=Dn50, Hs=H, Rc=Rc, z1p=z, Rc2_front=Rc2_front, Rc2_rear=Rc2_rear, N_waves=N_waves, S=S)
    return H


# ------------------------------------------------------------------ rear side: Van Gent & Pozueta 2004
FP = "Van Gent & Pozueta (2004)"


@VP.fn("check_validity_range", dom=DR, out="none")
def vp_chk(W, Rc=nan, Rc_rear=nan, cot_phi=nan, gamma_f=nan, Dn50=nan, rho_rock=nan, rho_water=nan, Bc=nan, Hs=nan, Tmm10=nan,
           z1p=nan, S=nan, N_waves=nan):
    if given(Hs, Tmm10):
        W(FP, "sm-1,0", steep(Hs, Tmm10), 0.019, 0.036)
    W(FP, "N_waves", N_waves, 0, 4000)
    if given(Rc, Hs):
        W(FP, "Rc/Hs", Rc / Hs, 0.3, 2.0)
    if given(Rc_rear, Hs):
        W(FP, "Rc_rear/Hs", Rc_rear / Hs, 0.3, 6.0)
    if given(Bc, Hs):
        W(FP, "B_c/Hs", Bc / Hs, 1.3, 1.6)
    if given(Rc, Hs, z1p, gamma_f):
        W(FP, "(z1% - Rc)/(gamma_f*Hs)", (z1p - Rc) / (gamma_f * Hs), 0.0, 1.4)
    if given(Hs, Dn50, rho_rock, rho_water):
        W(FP, "Hs/(Delta*Dn50_rear)", Hs / (Dn50 * delta_(rho_rock, rho_water)), 5.5, 8.5)
    W(FP, "cot phi", cot_phi, 2.0, 4.0)
    W(FP, "S", S, 2.0, 50.0)


def vpfix(rng, a):
    H = a.get("Hs")
    if H is not None and rng.random() < 0.85:
        a["Rc"] = H * U(rng, 0.2, 2.2)
        a["Bc"] = H * U(rng, 0.8, 2.2)
        a["Rc_rear"] = H * U(rng, 0.2, 7)
    if "rho_rock" not in a:
        a["rho_rock"] = U(rng, 2300, 3000)
    if "Dn50" in a or "M50" in a:
        d = a["Rc"] / U(rng, 3, 25)
        a.pop("Dn50", None)
        a.pop("M50", None)
        if rng.random() < 0.55:
            a["Dn50"] = d
        else:
            a["M50"] = 2650 * d ** 3
    return a


def vpsfix(rng, a):
    return vpfix(rng, _adddn(rng, a))


@VP.fn("calculate_damage_number_S", dom=DR, fix=vpsfix, rtol=1e-8)
def vp_S(W, cot_alpha, cot_phi, gamma_f, gamma_f_Crest, Hs, Tmm10, Rc, Rc_rear, Bc, N_waves, Dn50=nan, M50=nan, rho_rock=nan,
         rho_water=1025.0, cs=0.008 ** 6):
    z = runup1(W, Hs, Tmm10, gamma_f, cot_alpha)
    Dn50 = use_dn(W, Dn50, M50, rho_rock)
    if z - Rc < 1e-5 * Rc:
        raise Skip()
    u = velocity(W, Hs, z, Rc, Bc, gamma_f, gamma_f_Crest)
    S = (cs * (u * Tmm10 / (sq(delta_(rho_rock, rho_water)) * Dn50)) ** 6 * pw(cot_phi, -2.5) * (1 + 10 * ex(-Rc_rear / Hs))
         * sq(N_waves))
    vp_chk(W, Rc, Rc_rear, cot_phi, gamma_f, Dn50, rho_rock, rho_water, Bc, Hs, Tmm10, z, S, N_waves)
    return S


@VP.fn("calculate_nominal_rock_diameter_Dn50", dom=DR, fix=vpfix)
def vp_D(W, cot_alpha, cot_phi, gamma_f, gamma_f_Crest, S, Hs, Tmm10, Rc, Rc_rear, Bc, rho_rock, N_waves, rho_water=1025.0,
         cs=0.008 ** 6):
    z = runup1(W, Hs, Tmm10, gamma_f, cot_alpha)
    if z - Rc < 1e-5 * Rc:
        raise Skip()
    u = velocity(W, Hs, z, Rc, Bc, gamma_f, gamma_f_Crest)
    D = u * Tmm10 / sq(delta_(rho_rock, rho_water)) * pw(cs * sq(N_waves) / S * pw(cot_phi, -2.5) * (1 + 10 * ex(-Rc_rear / Hs)), 1 / 6)
    vp_chk(W, Rc, Rc_rear, cot_phi, gamma_f, D, rho_rock, rho_water, Bc, Hs, Tmm10, z, S, N_waves)
    return D


@VP.fn("calculate_maximum_significant_wave_height_Hs", dom=DR, fix=vpsfix, kind="iterative", rtol=1e-8)
def vp_H(W, cot_alpha, cot_phi, gamma_f, gamma_f_Crest, S, Tmm10, Rc, Rc_rear, Bc, N_waves, Dn50=nan, M50=nan, rho_rock=nan,
         rho_water=1025.0, cs=0.008 ** 6, tolerance=1e-4, max_iterations=10000):
    Dn50 = use_dn(W, Dn50, M50, rho_rock)
    de = delta_(rho_rock, rho_water)

    def step(H):
        u = pw(S / sq(N_waves) / cs * pw(cot_phi, 2.5) / (1 + 10 * ex(-Rc_rear / H)), 1 / 6) * sq(de) * Dn50 / Tmm10
        z = Rc + (u / 1.7 * (1 + 0.1 * Bc / H)) ** 2 * gamma_f / (9.81 * gamma_f_Crest)
        return _inv_runup(H, z, Tmm10, gamma_f, cot_alpha), z
    H, z = _fix_iter(step, (Rc + 0.5) / (2.552 * gamma_f), tolerance)
    W.margin = 3e-3
    vp_chk(W, Rc, Rc_rear, cot_phi, gamma_f, Dn50, rho_rock, rho_water, Bc, H, Tmm10, z, S, N_waves)
    return H
