"""Rock armour stability."""
import math
from ..model import (Mod, Reject, Skip, nan, isn, given, pw, sq, ln, ex, dv, steep, irib, delta_, MODE, near)
from .a_core import check_usage_Dn50_or_M50 as use_dn, calculate_critical_Iribarren_number_ksi_mc as ksi_crit

P_ = "structural.stability_rock_armour."
HU = Mod(P_ + "hudson1959", "rock")
VM = Mod(P_ + "vandermeer1988", "rock")
VG = Mod(P_ + "vandermeer1988_modified", "rock")
SC = Mod(P_ + "scaravaglione2025", "rock")
V21 = Mod(P_ + "vandermeer2021", "rock")
ES = Mod(P_ + "etemadshahidi2020", "rock")
JU = Mod(P_ + "jumelet2024", "rock")
KB = Mod(P_ + "kramerburcharth2004_lowcrested", "rock")

DM = {"KD": ("u", 1, 30), "damage_percentage": ("u", 0, 100), "alpha_Hs": ("u", 1, 1.6),
      "rock_type": ("c", ["rough", "smooth", "Rough", " SMOOTH ", "round"]), "c_pl": ("u", 4, 11), "c_s": ("u", 0.6, 2),
      "ratio_H2p_Hs": ("u", 1.0, 1.5), "Dn50_core": ("l", 0.01, 1.5), "M50_core": ("l", 0.5, 3000),
      "rho_core": ("u", 1800, 3300), "c_VGnew": ("u", 2, 5), "c_pl_mult": ("u", 0.7, 1.3), "c_s_mult": ("u", 0.7, 1.3),
      "m": ("u", 0, 0.2), "Cp_init": ("u", 0.3, 1.5), "tolerance": ("c", [1e-5, 1e-6]), "max_iter": ("c", [1000, 300]),
      "smm10_init": ("u", 0.02, 0.05), "ksi_mm10": ("l", 0.2, 8), "Ns_init": ("u", 1, 3),
      "Rc_Dn50_init": ("u", -2, -0.1), "Rc": ("u", -5, 5)}


def dnfix(rng, a, x="Dn50", y="M50", p_none=0.03):
    dx = a.pop(x, None) or float(math.exp(rng.uniform(math.log(0.1), math.log(3))))
    my = a.pop(y, None) or float(2600 * dx ** 3)
    r = rng.random()
    if r < p_none:
        return a
    if r < 0.5:
        a[x] = dx
    elif r < 0.95:
        a[y] = my
    else:
        a[x], a[y] = dx, my
    return a


def h2fix(rng, a):
    if "H2p" in a and rng.random() < 0.8:
        a["H2p"] = float(a["Hs"] * rng.uniform(1.0, 1.5))
    return a


def fix_s(rng, a):
    return dnfix(rng, h2fix(rng, a))


# ------------------------------------------------------------------ Hudson
@HU.fn("check_validity_range", out="none")
def hu_c(W):
    return None


@HU.fn("calculate_median_rock_mass_M50_no_damage", dom=DM)
def hu_m(W, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return rho_armour * (alpha_Hs * Hs / delta_(rho_armour, rho_water)) ** 3 / (KD * cot_alpha)


@HU.fn("calculate_significant_wave_height_Hs_no_damage", dom=DM)
def hu_h(W, M50, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return delta_(rho_armour, rho_water) * pw(KD * cot_alpha * M50 / rho_armour, 1 / 3) / alpha_Hs


@HU.fn("lookup_table_damage_factors", dom=DM, scal=("rock_type",))
def hu_f(W, damage_percentage, rock_type="rough"):
    t = {"rough": (1.0, 1.08, 1.14, 1.20, 1.29, 1.41, 1.54, 1.54), "smooth": (1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56, 1.56)}
    r = rock_type.lower().strip()
    if r not in t:
        raise Reject()
    k = 0
    for edge in (5, 10, 15, 20, 30, 40, 50):
        if damage_percentage >= edge:
            k += 1
    return t[r][k]


@HU.fn("calculate_median_rock_mass_M50", dom=DM, scal=("rock_type",))
def hu_md(W, Hs, rho_water, rho_armour, KD, cot_alpha, damage_percentage, rock_type="rough", alpha_Hs=1.27):
    return hu_m(W, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs) / hu_f(W, damage_percentage, rock_type) ** 3


@HU.fn("calculate_significant_wave_height_Hs", dom=DM, scal=("rock_type",))
def hu_hd(W, M50, rho_water, rho_armour, KD, cot_alpha, damage_percentage, rock_type="rough", alpha_Hs=1.27):
    return hu_h(W, M50, rho_water, rho_armour, KD, cot_alpha, alpha_Hs) * hu_f(W, damage_percentage, rock_type)


# ------------------------------------------------------------------ Van der Meer 1988
FV = "Van der Meer (1988)"


@VM.fn("check_validity_range", dom=DM, out="none", fix=lambda r, a: h2fix(r, a) if "Hs" in a else a)
def vm_check(W, Hs=nan, H2p=nan, Tp=nan, N_waves=nan, cot_alpha=nan, P=nan, rho_armour=nan):
    W(FV, "Notional permeability P", P, 0.1, 0.6)
    W(FV, "Cotangent of outer structure slope cot_alpha", cot_alpha, 1.1, 7.0)
    if given(Hs, Tp):
        W(FV, "Wave steepness s0p", steep(Hs, Tp), 0.005, 0.06)
    W(FV, "Number of waves N_waves", N_waves, 0, 7500)
    if given(Hs, H2p):
        W(FV, "Ratio H2%/Hs", H2p / Hs, 1.10, 1.40)
    W(FV, "Density of armour layer rock rho_armour", rho_armour, 2000, 3100)


@VM.fn("calculate_correction_term_gamma_N", dom=DM)
def gN(W, N_waves):
    if N_waves < 1000:
        return sq(1000 / N_waves)
    if N_waves > 5000:
        return sq(N_waves / 5000) / (1.3 * (1 - ex(-3.1e-4 * N_waves)))
    return 1.0


def _coef(P, cot, c_pl, c_s, ksi, plunging):
    """Ns*H2%/Hs = coefficient * (S gamma/sqrt N)^0.2"""
    if plunging:
        return c_pl * pw(P, 0.18) / sq(ksi)
    return c_s * pw(P, -0.13) * sq(cot) * pw(ksi, P)


def _plunging(W, ksi, P, cot, c_pl, c_s):
    return ksi < ksi_crit(W, c_pl, c_s, P, cot) or cot >= 4.0


def _vdm_S(W, Hs, H2p, T, N, cot, P, rho, Dn, c_pl, c_s, rw, gam):
    ksi = irib(Hs, T, cot)
    k = _coef(P, cot, c_pl, c_s, ksi, _plunging(W, ksi, P, cot, c_pl, c_s))
    return (H2p / (delta_(rho, rw) * Dn) / k) ** 5 * sq(N) / gam


def _vdm_D(W, Hs, H2p, T, N, cot, P, rho, S, c_pl, c_s, rw, gam):
    ksi = irib(Hs, T, cot)
    k = _coef(P, cot, c_pl, c_s, ksi, _plunging(W, ksi, P, cot, c_pl, c_s))
    return H2p / (delta_(rho, rw) * k * pw(gam * S / sq(N), 0.2))


def _vdm_H(W, ratio, T, N, cot, P, rho, S, Dn, c_pl, c_s, g, rw, gam):
    base = delta_(rho, rw) * Dn / ratio * pw(gam * S / sq(N), 0.2)
    s1 = 2 * math.pi / (g * T * T)  # steepness per metre wave height
    # plunging: H = base*c_pl*P^.18*sqrt(cot)*(s1 H)^.25
    Hp = pw(base * c_pl * pw(P, 0.18) * sq(cot) * pw(s1, 0.25), 4 / 3)
    # surging: H = base*c_s*P^-.13*sqrt(cot)*(cot^-1 (s1 H)^-.5)^P
    Hq = pw(base * c_s * pw(P, -0.13) * sq(cot) * pw(cot, -P) * pw(s1, -0.5 * P), 1 / (1 + 0.5 * P))
    kc = ksi_crit(W, c_pl, c_s, P, cot)
    kp, kq = irib(Hp, T, cot), irib(Hq, T, cot)
    if cot < 4.0 and (near(kp, kc, 1e-8) or near(kq, kc, 1e-8)):
        raise Skip()
    return Hp if (cot >= 4.0 or (kp < kc and kq < kc)) else Hq


@VM.fn("calculate_damage_number_S", dom=DM, fix=fix_s)
def vm_S(W, Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, Dn50=nan, M50=nan, c_pl=8.7, c_s=1.4, rho_water=1025.0):
    Dn50 = use_dn(W, Dn50, M50, rho_armour)
    vm_check(W, Hs, H2p, nan, N_waves, cot_alpha, P, rho_armour)
    return _vdm_S(W, Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, Dn50, c_pl, c_s, rho_water, gN(W, N_waves))


@VM.fn("calculate_nominal_rock_diameter_Dn50", dom=DM, fix=h2fix)
def vm_D(W, Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.7, c_s=1.4, rho_water=1025.0):
    vm_check(W, Hs, H2p, nan, N_waves, cot_alpha, P, rho_armour)
    return _vdm_D(W, Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, S, c_pl, c_s, rho_water, gN(W, N_waves))


@VM.fn("calculate_significant_wave_height_Hs", dom=DM, fix=dnfix)
def vm_H(W, ratio_H2p_Hs, Tm, N_waves, cot_alpha, P, rho_armour, S, Dn50=nan, M50=nan, c_pl=8.7, c_s=1.4, g=9.81,
         rho_water=1025.0):
    Dn50 = use_dn(W, Dn50, M50, rho_armour)
    H = _vdm_H(W, ratio_H2p_Hs, Tm, N_waves, cot_alpha, P, rho_armour, S, Dn50, c_pl, c_s, g, rho_water, gN(W, N_waves))
    vm_check(W, H, nan, nan, N_waves, cot_alpha, P, rho_armour)
    return H


# ------------------------------------------------------------------ modified Van der Meer
FG = "Modified Van der Meer (Van Gent et al., 2003)"


@VG.fn("check_validity_range", dom=DM, out="none", fix=lambda r, a: h2fix(r, a) if "Hs" in a else a)
def vg_check(W, Hs=nan, H2p=nan, Tmm10=nan, N_waves=nan, cot_alpha=nan, P=nan, Dn50=nan, rho_armour=nan, rho_water=1025.0):
    W(FG, "Notional permeability P", P, 0.1, 0.6)
    if given(Hs, Dn50, rho_armour):
        W(FG, "Stability number Ns", Hs / (delta_(rho_armour, rho_water) * Dn50), 0.5, 4.5)
    if given(Hs, Tmm10, cot_alpha):
        W(FG, "Iribarren number ksi_m-1,0", irib(Hs, Tmm10, cot_alpha), 1.3, 15.0)
    W(FG, "Cotangent of outer structure slope cot_alpha", cot_alpha, 2.0, 4.0)
    W(FG, "Number of waves N_waves", N_waves, 0, 3000)
    if given(Hs, H2p):
        W(FG, "Ratio H2%/Hs", H2p / Hs, 1.20, 1.40)


@VG.fn("calculate_damage_number_S", dom=DM, fix=fix_s)
def vg_S(W, Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50=nan, M50=nan, c_pl=8.4, c_s=1.3, rho_water=1025.0):
    Dn50 = use_dn(W, Dn50, M50, rho_armour)
    vg_check(W, Hs, H2p, Tmm10, N_waves, cot_alpha, P, Dn50, rho_armour, rho_water)
    return _vdm_S(W, Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50, c_pl, c_s, rho_water, 1.0)


@VG.fn("calculate_nominal_rock_diameter_Dn50", dom=DM, fix=h2fix)
def vg_D(W, Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.4, c_s=1.3, rho_water=1025.0):
    D = _vdm_D(W, Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl, c_s, rho_water, 1.0)
    vg_check(W, Hs, H2p, Tmm10, N_waves, cot_alpha, P, D, rho_armour, rho_water)
    return D


@VG.fn("calculate_significant_wave_height_Hs", dom=DM, fix=dnfix)
def vg_H(W, ratio_H2p_Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50=nan, M50=nan, c_pl=8.4, c_s=1.3, g=9.81,
         rho_water=1025.0):
    Dn50 = use_dn(W, Dn50, M50, rho_armour)
    H = _vdm_H(W, ratio_H2p_Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50, c_pl, c_s, g, rho_water, 1.0)
    vg_check(W, H, nan, Tmm10, N_waves, cot_alpha, P, Dn50, rho_armour, rho_water)
    return H


# ------------------------------------------------------------------ Van der Meer 2021
@V21.fn("calculate_damage_number_S", dom=DM, fix=dnfix)
def v21_S(W, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50=nan, M50=nan, c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0):
    with W.optional():
        r = vg_S(W, Hs, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50, M50, c_pl * c_pl_mult, c_s * c_s_mult)
    vm_check(W, Hs, nan, nan, N_waves, cot_alpha, P, rho_armour)
    return r


@V21.fn("calculate_nominal_rock_diameter_Dn50", dom=DM)
def v21_D(W, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0):
    with W.optional():
        r = vg_D(W, Hs, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl * c_pl_mult, c_s * c_s_mult)
    vm_check(W, Hs, nan, nan, N_waves, cot_alpha, P, rho_armour)
    return r


@V21.fn("calculate_significant_wave_height_Hs", dom=DM, fix=dnfix)
def v21_H(W, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50=nan, M50=nan, c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0,
          g=9.81):
    with W.optional():
        r = vg_H(W, 1.0, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50, M50, c_pl * c_pl_mult, c_s * c_s_mult, g)
    vm_check(W, r, nan, nan, N_waves, cot_alpha, P, rho_armour)
    return r


# ------------------------------------------------------------------ Scaravaglione 2025
FS = "Scaravaglione et al. (2025)"


@SC.fn("check_validity_range", dom=DM, out="none")
def sc_check(W, Hm0=nan, Tmm10=nan, N_waves=nan, cot_alpha=nan, P=nan, Dn50=nan, Dn50_core=nan, rho_armour=nan, rho_water=1025.0):
    W(FS, "Notional permeability P", P, 0.37, 0.55)
    if given(Hm0, Dn50, rho_armour):
        W(FS, "Stability number Ns", Hm0 / (delta_(rho_armour, rho_water) * Dn50), 1.47, 3.44)
    if given(Hm0, Tmm10):
        W(FS, "Wave steepness s_m-1,0", steep(Hm0, Tmm10), 0.020, 0.049)
        if given(cot_alpha):
            W(FS, "Iribarren number ksi_m-1,0", irib(Hm0, Tmm10, cot_alpha), 1.3, 15.0)
    W(FS, "Cotangent of outer structure slope cot_alpha", cot_alpha, 2.0, 2.0)
    W(FS, "Number of waves N_waves", N_waves, 652, 4064)
    if given(Dn50, Dn50_core):
        W(FS, "Ratio core to armour Dn50_core / Dn50", Dn50_core / Dn50, 0.21, 0.71)


def _two(rng, a):
    a = dnfix(rng, a, "Dn50", "M50") if True else a
    return dnfix(rng, a, "Dn50_core", "M50_core")


def _core(rng, a):
    return dnfix(rng, a, "Dn50_core", "M50_core")


@SC.fn("calculate_damage_number_S", dom=DM, fix=_two)
def sc_S(W, Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, Dn50=nan, Dn50_core=nan, M50=nan, M50_core=nan, c_VGnew=3.3,
         rho_water=1025.0):
    D = use_dn(W, Dn50, M50, rho_armour)
    C = use_dn(W, Dn50_core, M50_core, rho_core)
    sc_check(W, Hm0, Tmm10, N_waves, cot_alpha, nan, D, C, rho_armour, rho_water)
    # Hm0/(Delta*(D+C)) = c * sqrt(cot) * s^0.1 * (S/sqrt N)^0.2
    return (Hm0 / (delta_(rho_armour, rho_water) * (D + C)) / (c_VGnew * sq(cot_alpha) * pw(steep(Hm0, Tmm10), 0.1))) ** 5 * sq(N_waves)


@SC.fn("calculate_nominal_rock_diameter_Dn50", dom=DM, fix=_core, rtol=1e-8)
def sc_D(W, Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50_core=nan, M50_core=nan, c_VGnew=3.3, rho_water=1025.0):
    C = use_dn(W, Dn50_core, M50_core, rho_core)
    D = Hm0 / (delta_(rho_armour, rho_water) * c_VGnew * sq(cot_alpha) * pw(steep(Hm0, Tmm10), 0.1) * pw(S / sq(N_waves), 0.2)) - C
    if abs(D) < 1e-4 * C:
        raise Skip()
    sc_check(W, Hm0, Tmm10, N_waves, cot_alpha, nan, D, C, rho_armour, rho_water)
    return D


@SC.fn("calculate_significant_wave_height_Hm0", dom=DM, fix=_two)
def sc_H(W, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50=nan, Dn50_core=nan, M50=nan, M50_core=nan, c_VGnew=3.3,
         g=9.81, rho_water=1025.0):
    D = use_dn(W, Dn50, M50, rho_armour)
    C = use_dn(W, Dn50_core, M50_core, rho_core)
    s1 = 2 * math.pi / (g * Tmm10 ** 2)
    H = pw(delta_(rho_armour, rho_water) * (D + C) * c_VGnew * sq(cot_alpha) * pw(s1, 0.1) * pw(S / sq(N_waves), 0.2), 1 / 0.9)
    sc_check(W, H, Tmm10, N_waves, cot_alpha, nan, D, C, rho_armour, rho_water)
    return H


# ------------------------------------------------------------------ Etemad-Shahidi 2020
FE = "Etemad-Shahidi et al., 2020"


@ES.fn("check_validity_range", dom=DM, out="none")
def es_check(W, Hs=nan, Tmm10=nan, N_waves=nan, cot_alpha=nan, P=nan, S=nan, Dn50=nan, Dn50_core=nan, rho_armour=nan,
             rho_water=1025.0):
    if given(Hs, Tmm10):
        W(FE, "Wave steepness sm-1,0", steep(Hs, Tmm10), 0.003, 0.088)
        if given(cot_alpha):
            W(FE, "Iribarren number ksi_m-1,0", irib(Hs, Tmm10, cot_alpha), 0.65, 8.18)
    W(FE, "Cotangent of outer structure slope cot_alpha", cot_alpha, 1.5, 6.0)
    W(FE, "Number of waves N_waves", N_waves, 500, 5000)
    if given(rho_armour):
        W(FE, "Buoyant density Delta", delta_(rho_armour, rho_water), 0.92, 2.05)
        if given(Hs, Dn50):
            W(FE, "Stability number Ns", Hs / (delta_(rho_armour, rho_water) * Dn50), 1.0, 4.3)
    W(FE, "Permeability P", P, 0.1, 0.6)
    if given(Dn50, Dn50_core):
        W(FE, "Relative core diameter Dn50_core / Dn50", Dn50_core / Dn50, 0.0, 1.0)
    W(FE, "Damage number S", S, 2.0, 12.0)


@ES.fn("calculate_permeability_coefficient_Cp", dom=DM)
def es_cp(W, Dn50, Dn50_core):
    return pw(1 + pw(Dn50_core / Dn50, 0.3), 0.6)


def _dl(m, use):
    if not use:
        return 1.0
    if isn(m):
        raise Reject()
    return 1 - 3 * m


@ES.fn("calculate_damage_number_S", dom=DM, fix=_two, bools=("use_depth_limited_version",))
def es_S(W, Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=nan, M50=nan, Dn50_core=nan, M50_core=nan, rho_core=nan,
         rho_water=1025.0, m=nan, use_depth_limited_version=False):
    f = _dl(m, use_depth_limited_version)
    D = use_dn(W, Dn50, M50, rho_armour)
    C = use_dn(W, Dn50_core, M50_core, rho_core)
    k = irib(Hs, Tmm10, cot_alpha)
    if near(k, 1.8):
        raise Skip()
    Ns = Hs / (delta_(rho_armour, rho_water) * D)
    # Ns = a * Cp * N^-0.1 * S^(1/6) * ksi^-n * f
    a, n = (3.9, 1 / 3) if k >= 1.8 else (4.5, 7 / 12)
    S = (Ns * pw(k, n) * pw(N_waves, 0.1) / (a * es_cp(W, D, C) * f)) ** 6
    es_check(W, Hs, Tmm10, N_waves, cot_alpha, nan, S, D, C, rho_armour, rho_water)
    return S


@ES.fn("calculate_nominal_rock_diameter_Dn50", dom=DM, fix=_core, kind="iterative", bools=("use_depth_limited_version",))
def es_D(W, Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50_core=nan, M50_core=nan, rho_core=nan, m=nan,
         use_depth_limited_version=False, Cp_init=0.5, max_iter=1000, tolerance=1e-5):
    f = _dl(m, use_depth_limited_version)
    C = use_dn(W, Dn50_core, M50_core, rho_core)
    k = irib(Hs, Tmm10, cot_alpha)
    if near(k, 1.8):
        raise Skip()
    a, n = (3.9, 1 / 3) if k >= 1.8 else (4.5, 7 / 12)
    base = Hs / delta_(rho_armour, 1025) / a * pw(N_waves, 0.1) * pw(S, -1 / 6) * pw(k, n) / f
    tol = 1e-13 if MODE[0] else tolerance
    cp, prev = Cp_init, math.inf
    for _ in range(max_iter):
        D = base / cp
        cp = es_cp(W, D, C)
        if abs(D - prev) <= tol:
            break
        prev = D
    else:
        raise Skip()
    W.margin = 1e-3
    es_check(W, Hs, Tmm10, N_waves, cot_alpha, nan, S, D, C, rho_armour)
    return D


@ES.fn("calculate_significant_wave_height_Hs", dom=DM, fix=_two, bools=("use_depth_limited_version",))
def es_H(W, Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50=nan, M50=nan, Dn50_core=nan, M50_core=nan, rho_core=nan, m=nan,
         use_depth_limited_version=False, g=9.81):
    f = _dl(m, use_depth_limited_version)
    D = use_dn(W, Dn50, M50, rho_armour)
    C = use_dn(W, Dn50_core, M50_core, rho_core)
    s1 = 2 * math.pi / (g * Tmm10 ** 2)

    def solve(a, n):
        # H = a Cp Delta D N^-.1 S^(1/6) f * (cot sqrt(s1 H))^n
        b = a * es_cp(W, D, C) * delta_(rho_armour, 1025) * D * pw(N_waves, -0.1) * pw(S, 1 / 6) * f
        return pw(b * pw(cot_alpha * sq(s1), n), 1 / (1 - n / 2))

    Hq, Hp = solve(3.9, 1 / 3), solve(4.5, 7 / 12)
    kq, kp = irib(Hq, Tmm10, cot_alpha), irib(Hp, Tmm10, cot_alpha)
    if near(kq, 1.8, 1e-8) or near(kp, 1.8, 1e-8):
        raise Skip()
    H = Hp if (kq < 1.8 and kp < 1.8) else Hq
    es_check(W, H, Tmm10, N_waves, cot_alpha, nan, S, D, C, rho_armour)
    return H


# ------------------------------------------------------------------ Jumelet 2024
FJ = "Jumelet et al., 2024"
DJ = dict(DM, cot_alpha=("l", 3, 14), c_pl=("u", 3, 6), Tmm10=("l", 2, 20))


def _jfix(rng, a):
    """keep the breaker parameter in the range where the fraction of plunging waves is positive"""
    if rng.random() < 0.85 and "Hs" in a:
        k = rng.uniform(0.25, 1.65)
        s = (1 / (a["cot_alpha"] * k)) ** 2
        a["Hs"] = float(s * 9.81 * a["Tmm10"] ** 2 / (2 * math.pi))
    return a


@JU.fn("check_validity_range", dom=DJ, out="none")
def ju_check(W, Hs=nan, Tmm10=nan, N_waves=nan, cot_alpha=nan):
    if given(Hs, Tmm10):
        W(FJ, "Wave steepness sm-1,0", steep(Hs, Tmm10), 0.009, 0.057)
        if given(cot_alpha):
            W(FJ, "Iribarren number ksi_m-1,0", irib(Hs, Tmm10, cot_alpha), 0.42, 1.66)
    W(FJ, "Cotangent of outer structure slope cot_alpha", cot_alpha, 6.0, 10.0)
    W(FJ, "Number of waves N_waves", N_waves, 250, 20000)


@JU.fn("calculate_fraction_plunging_waves_Fp", dom=DJ, atol=1e-12)
def ju_fp(W, ksi_mm10):
    return 3.2 * ksi_mm10 - 1.7 * ksi_mm10 ** 2 - 0.5


def _npl(W, k, N):
    x = ju_fp(W, k) * N
    if abs(x - math.floor(x) - 0.5) < 1e-7 * max(1, abs(x)):
        raise Skip()
    x = float(round(x))
    if x < 1:
        raise Skip()
    return x


@JU.fn("calculate_damage_number_S", dom=DJ, fix=lambda r, a: dnfix(r, _jfix(r, a)))
def ju_S(W, Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=nan, M50=nan, c_pl=4.3, rho_water=1025.0):
    D = use_dn(W, Dn50, M50, rho_armour)
    k = irib(Hs, Tmm10, cot_alpha)
    ju_check(W, Hs, Tmm10, N_waves, cot_alpha)
    return (Hs / (delta_(rho_armour, rho_water) * D) * k / c_pl) ** 5 * sq(_npl(W, k, N_waves))


@JU.fn("calculate_nominal_rock_diameter_Dn50", dom=DJ, fix=_jfix)
def ju_D(W, Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, c_pl=4.3):
    k = irib(Hs, Tmm10, cot_alpha)
    ju_check(W, Hs, Tmm10, N_waves, cot_alpha)
    return Hs / delta_(rho_armour, 1025) * k / c_pl * pw(_npl(W, k, N_waves), 0.1) * pw(S, -0.2)


def _jhfix(rng, a):
    if rng.random() < 0.9:
        c = a["cot_alpha"] = float(rng.uniform(5, 11))
        k = float(rng.uniform(0.35, 1.3))
        H = 9.81 * a["Tmm10"] ** 2 / (2 * math.pi) / (k * c) ** 2
        D = H * k / (a.get("c_pl", 4.3) * delta_(a["rho_armour"], 1025)) * pw(0.9 * a["N_waves"], 0.1) * pw(a["S"], -0.2)
        a["Dn50"], a["M50"] = D, a["rho_armour"] * D ** 3
    return dnfix(rng, a)


@JU.fn("calculate_significant_wave_height_Hs", dom=dict(DJ, tolerance=("c", [1e-3, 1e-4])), fix=_jhfix, kind="iterative")
def ju_H(W, Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50=nan, M50=nan, c_pl=4.3, g=9.81, smm10_init=0.03, max_iter=1000,
         tolerance=1e-3):
    D = use_dn(W, Dn50, M50, rho_armour)
    H = smm10_init * g * Tmm10 ** 2 / (2 * math.pi)
    tol = 1e-13 if MODE[0] else tolerance
    for _ in range(max_iter):
        n = _npl(W, irib(H, Tmm10, cot_alpha), N_waves)
        Hn = (c_pl * pw(S, 0.2) * pw(n, -0.1) * cot_alpha * delta_(rho_armour, 1025) * D) ** 2 * 2 * math.pi / (g * Tmm10 ** 2)
        d = abs(Hn - H)
        H = Hn
        if d <= tol:
            break
    else:
        raise Skip()
    W.margin = 1e-2
    ju_check(W, H, Tmm10, N_waves, cot_alpha)
    return H


# ------------------------------------------------------------------ Kramer & Burcharth 2004
FK = "Kramer & Burcharth, 2004"


@KB.fn("check_validity_range", dom=DM, out="none")
def kb_check(W, Rc=nan, Dn50=nan):
    if given(Rc, Dn50):
        W(FK, "Relative crest height Rc / Dn50", Rc / Dn50, -3.1, 1.5)


def _kfix(rng, a):
    a["Rc"] = float(a["Hs"] * rng.uniform(-1.5, 1.2))
    return a


def _kfix2(rng, a):
    D = float(math.exp(rng.uniform(math.log(0.1), math.log(3))))
    a = dnfix(rng, {**a, "Dn50": D, "M50": 2600 * D ** 3})
    a["Hs"] = float(1.6 * D * rng.uniform(1.1, 2.6))
    return a


@KB.fn("calculate_nominal_rock_diameter_Dn50", dom=DM, fix=_kfix, kind="iterative")
def kb_D(W, Hs, Rc, rho_armour, Ns_init=2.0, max_iter=1000, tolerance=1e-5):
    dl = delta_(rho_armour, 1025)
    D, prev = Hs / (dl * Ns_init), math.inf
    tol = 1e-13 if MODE[0] else tolerance
    for _ in range(max_iter):
        D = (Hs / dl + 0.23 * Rc - 0.06 * Rc * Rc / D) / 1.36
        if abs(D) < 1e-6 * Hs:
            raise Skip()
        if abs(D - prev) <= tol:
            break
        prev = D
    else:
        raise Skip()
    if D <= 0:
        raise Skip()
    W.margin = 1e-2
    kb_check(W, Rc, D)
    return D


@KB.fn("calculate_significant_wave_height_Hs", dom=DM, fix=lambda r, a: dnfix(r, a))
def kb_H(W, Rc, rho_armour, Dn50=nan, M50=nan):
    D = use_dn(W, Dn50, M50, rho_armour)
    x = Rc / D
    kb_check(W, Rc, D)
    return delta_(rho_armour, 1025) * D * (1.36 - 0.23 * x + 0.06 * x * x)


@KB.fn("calculate_crest_freeboard_Rc", dom=DM, fix=_kfix2, kind="iterative", atol=1e-12)
def kb_R(W, Hs, rho_armour, Dn50=nan, M50=nan, Rc_Dn50_init=-1.0, max_iter=1000, tolerance=1e-5):
    D = use_dn(W, Dn50, M50, rho_armour)
    x, prev = Rc_Dn50_init, math.inf
    n = Hs / (delta_(rho_armour, 1025) * D) - 1.36
    tol = 1e-13 if MODE[0] else tolerance
    for _ in range(max_iter):
        den = 0.06 * x - 0.23
        if abs(den) < 1e-4:
            raise Skip()
        x = n / den
        if abs(x * D - prev) <= tol:
            break
        prev = x * D
    else:
        raise Skip()
    W.margin = 1e-2
    kb_check(W, x * D, D)
    return x * D
