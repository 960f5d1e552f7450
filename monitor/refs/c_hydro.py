"""Overtopping velocity, run-up Van Gent (2001), wave transmission and set-up."""
import math
from ..model import (Mod, Reject, Skip, nan, isn, given, pw, sq, ln, ex, dv, steep, irib, near)

VV = Mod("hydraulic.wave_overtopping.vangent2002_velocity", "overtopping")
R1 = Mod("hydraulic.wave_runup.vangent2001", "runup")
BR = Mod("hydraulic.wave_transmission.briganti2003", "runup")
DA = Mod("hydraulic.wave_transmission.dangremond1996", "runup")
GO = Mod("hydraulic.wave_transmission.goda1967_caisson", "runup")
V3 = Mod("hydraulic.wave_transmission.vangent2023", "runup")
V4 = Mod("hydraulic.wave_transmission.vangent2024_setup", "runup")


@VV.fn("calculate_maximum_wave_overtopping_velocity_uXp",
       dom={"zXp": ("l", 0.1, 20), "Bc": ("l", 0.1, 20), "gamma_f_Crest": ("u", 0.3, 1), "cu1": ("u", 1, 2.5),
            "cu2": ("u", 0.02, 0.3)})
def velocity(W, Hs, zXp, Rc, Bc, gamma_f, gamma_f_Crest, cu1=1.7, cu2=0.1, g=9.81):
    return cu1 * sq(gamma_f_Crest * g * Hs * (zXp - Rc) / (gamma_f * Hs)) / (1 + cu2 * Bc / Hs)


DR = {"gamma": ("u", 0.3, 1.0), "c0": ("u", 0.8, 2), "c1": ("u", 3, 6)}


@R1.fn("calculate_wave_runup_height_zXp", dom=DR)
def zx(W, H, Tmm10, gamma, cot_alpha, c0, c1):
    k = irib(H, Tmm10, cot_alpha)
    if k < 0.5 * c1 / c0:
        return c0 * k * gamma * H
    return (c1 - 0.25 * c1 * c1 / c0 / k) * gamma * H


@R1.fn("calculate_wave_runup_height_z1p", dom=DR)
def z1(W, Hs, Tmm10, gamma, cot_alpha, c0=1.45, c1=5.1):
    return zx(W, Hs, Tmm10, gamma, cot_alpha, c0, c1)


@R1.fn("calculate_wave_runup_height_z10p", dom=DR)
def z10(W, Hs, Tmm10, gamma, cot_alpha, c0=1.1, c1=4.0):
    return zx(W, Hs, Tmm10, gamma, cot_alpha, c0, c1)


def _z2fix(rng, a):
    r = rng.random()
    h = a.pop("Hm0", None) or a.get("Hs") or float(rng.uniform(0.3, 6))
    s = a.pop("Hs", None) or h
    if r < 0.45 or r > 0.95:
        a["Hm0"] = h
    if 0.45 <= r < 0.9 or r > 0.95:
        a["Hs"] = s
    return a


@R1.fn("calculate_wave_runup_height_z2p", dom=DR, fix=_z2fix)
def z2(W, Tmm10, gamma, cot_alpha, Hm0=nan, Hs=nan, c0=1.35, c1=4.7):
    if isn(Hm0) == isn(Hs):
        raise Reject()
    if isn(Hs):
        return zx(W, Hm0, Tmm10, gamma, cot_alpha, 1.45, 3.8)
    return zx(W, Hs, Tmm10, gamma, cot_alpha, c0, c1)


FD = "D'Angremond et al. (1996)"
DT = {"Hsi": ("l", 0.05, 10), "Tpi": ("l", 1, 22), "Rc": ("u", -8, 8), "B": ("l", 0.5, 60), "C1": ("u", 0.4, 1),
      "s0p": ("l", 0.002, 0.1), "ksi_0p": ("l", 0.2, 15), "Kt": ("u", 0, 1.2), "Hsi_over_h": ("u", 0, 1),
      "Rc_over_Hsi": ("u", -4, 4), "alpha_1": ("u", 1, 3), "beta_1": ("u", 0, 0.6), "hc": ("l", 0.2, 15),
      "structure_type": ("c", ["permeable", "impermeable", "perforated", "perforated_with_screen",
                               "perforated_with_perforated_screen", "unknown"])}


def _rel(rng, a):
    """crest level relative to the wave height, so that all regimes are visited"""
    H = a.get("Hsi", a.get("Hm0"))
    if H and rng.random() < 0.8:
        a["Rc"] = float(H * rng.uniform(-3.2, 3.2))
    if H and "B" in a and rng.random() < 0.7:
        a["B"] = float(H * math.exp(rng.uniform(math.log(0.3), math.log(40))))
    return a


@DA.fn("check_validity", dom=DT, out="none")
def da_check(W, Kt=nan, s0p=nan, Hsi_over_h=nan, Rc_over_Hsi=nan):
    W(FD, "Transmission coefficient Kt", Kt, 0.075, 0.8)
    W(FD, "Wave steepness s0p (dataset limit)", s0p, 0, 0.06)
    W(FD, "Relative water depth Hsi/h (dataset limit)", Hsi_over_h, 0, 0.54)
    W(FD, "Relative crest level Rc/Hsi (dataset limit)", Rc_over_Hsi, -2.5, 2.5)


@DA.fn("calculate_wave_transmission_Kt_permeable", dom=DT, fix=_rel, bools=("do_validity_check",))
def da_perm(W, Hsi, Tpi, h, Rc, B, cot_alpha, C1=0.64, do_validity_check=True):
    k = -0.4 * Rc / Hsi + C1 * pw(B / Hsi, -0.31) * (1 - ex(-0.5 * irib(Hsi, Tpi, cot_alpha)))
    if do_validity_check:
        da_check(W, k, steep(Hsi, Tpi), Hsi / h, Rc / Hsi)
    return min(0.8, max(0.075, k))


@DA.fn("calculate_wave_transmission_Kt_impermeable", dom=DT, fix=_rel)
def da_imp(W, Hsi, Tpi, h, Rc, B, cot_alpha, C1=0.80):
    return da_perm(W, Hsi, Tpi, h, Rc, B, cot_alpha, C1)


FB = "Briganti (2003)"


@BR.fn("check_validity", dom=DT, out="none")
def br_check(W, s0p=nan, ksi_0p=nan):
    W(FB, "Wave steepness s0p", s0p, 0.005, 0.07)
    W(FB, "Surf similarity parameter ksi_0p", ksi_0p, 0.5, 10.0)


@BR.fn("calculate_wave_transmission_Kt", dom=DT, fix=_rel)
def br(W, Hsi, Tpi, Rc, B, cot_alpha):
    b = B / Hsi
    ksi = irib(Hsi, Tpi, cot_alpha)
    if b < 10:
        k = -0.4 * Rc / Hsi + 0.64 * pw(b, -0.31) * (1 - ex(-0.5 * ksi))
        k = min(0.8, max(0.075, k))
    else:
        k = -0.35 * Rc / Hsi + 0.51 * pw(b, -0.65) * (1 - ex(-0.41 * ksi))
    br_check(W, steep(Hsi, Tpi), ksi)
    return max(0.05, min(0.93 - 0.006 * b, k))


@GO.fn("check_validity", out="none")
def go_check(W):
    return None


@GO.fn("calculate_wave_transmission_Kt", dom=DT, fix=_rel)
def go(W, Hsi, Rc, alpha_1=2.2, beta_1=0.4):
    x = Rc / Hsi
    if near(x, alpha_1 - beta_1):
        raise Skip()
    if x <= -(alpha_1 + beta_1):
        return 1.0
    if x > alpha_1 - beta_1:
        return 0.03
    return 0.5 - 0.5 * math.sin(0.5 * math.pi * (x + beta_1) / alpha_1)


F3 = "Van Gent et al. (2023)"


def _v3fix(rng, a):
    a = _rel(rng, a)
    if "Tmm10" in a and "B" in a and rng.random() < 0.5:
        a["B"] = float(1.56 * a["Tmm10"] ** 2 * math.exp(rng.uniform(math.log(0.005), math.log(0.6))))
    return a


@V3.fn("check_validity_range", dom=DT, out="none", fix=lambda rng, a: {**a, "structure_type": str(rng.choice(DT["structure_type"][1][:5]))},
       scal=("structure_type",))
def v3_check(W, Hm0=nan, Tmm10=nan, Rc=nan, B=nan, structure_type=nan):
    if given(Hm0, Rc):
        W(F3, "Dimensionless crest height Rc / Hm0", Rc / Hm0, -2.5, 2.5 if structure_type == "permeable" else 0.0)
    if given(B, Tmm10):
        W(F3, "Dimensionless crest width B / Lm-1,0", B / (9.81 * Tmm10 ** 2 / (2 * math.pi)), 0.017, 0.27)
    if given(Hm0, B):
        W(F3, "Dimensionless crest width B / Hm0", B / Hm0, 0.9, 10.6)


@V3.fn("calculate_wave_transmission_Kt", dom=DT, fix=_v3fix, scal=("structure_type",), atol=1e-12)
def v3(W, Hm0, Tmm10, Rc, B, structure_type="permeable"):
    tab = {"impermeable": (0.47, 0.0, 0.5), "permeable": (0.43, -0.25, 0.5), "perforated": (0.13, -0.15, 0.82),
           "perforated_with_screen": (0.40, -0.15, 0.5), "perforated_with_perforated_screen": (0.17, -0.15, 0.76)}
    if structure_type not in tab:
        raise Reject()
    c1, c4, c5 = tab[structure_type]
    L0 = 9.81 * Tmm10 ** 2 / (2 * math.pi)
    v3_check(W, Hm0, Tmm10, Rc, B, structure_type)
    return c5 - c1 * math.tanh(Rc / Hm0 + 3.1 * pw(B / L0, 0.75) + c4)


F4 = "Van Gent (2024)"


@V4.fn("check_validity_range", dom=DT, out="none", scal=("structure_type",),
       fix=lambda rng, a: {k: (str(rng.choice(["permeable", "impermeable"])) if k == "structure_type" else v) for k, v in a.items()})
def v4_check(W, Hm0=nan, Tmm10=nan, Rc=nan, B=nan, hc=nan, Dn50=nan, structure_type="impermeable"):
    if not given(Hm0):
        return
    if structure_type not in ("permeable", "impermeable"):
        raise Skip()
    perm = structure_type == "permeable"
    if given(Tmm10):
        W(F4, "Wave steepness sm-1,0", steep(Hm0, Tmm10), 0.008 if perm else 0.01, 0.04)
    W(F4, "Dimensionless freeboard Rc/Hm0", Rc / Hm0, -0.8 if perm else -1.0, 0.0)
    if perm:
        W(F4, "Dimensionless submerged structure height hc/Hm0", hc / Hm0, 1.5, 3.0)
        W(F4, "Dimensionless submerged structure crest width B/Hm0", B / Hm0, 0.94, 2.35)
        W(F4, "Dimensionless median stone diameter Dn50/Hm0", Dn50 / Hm0, 0.19, 0.47)


def _v4fix(rng, a):
    if rng.random() < 0.85:
        a["Rc"] = float(a["Hm0"] * rng.uniform(-1.45, 0.6))
    return a


KD = dict(dom=DT, fix=_v4fix)


@V4.fn("calculate_dimensionless_structure_induced_setup_impermeable", **KD)
def v4_id(W, Hm0, Tmm10, Rc):
    v4_check(W, Hm0, Tmm10, Rc)
    return 0.34 * pw(steep(Hm0, Tmm10), 0.4) * pw(1.6 + Rc / Hm0, 3.5)


@V4.fn("calculate_structure_induced_setup_delta_impermeable", **KD)
def v4_i(W, Hm0, Tmm10, Rc):
    return Hm0 * v4_id(W, Hm0, Tmm10, Rc)


@V4.fn("calculate_dimensionless_structure_induced_setup_permeable", **KD)
def v4_pd(W, Hm0, Tmm10, Rc, hc):
    v4_check(W, Hm0, Tmm10, Rc, nan, hc, structure_type="permeable")
    return 0.22 * pw(steep(Hm0, Tmm10), 0.2) * pw(hc / Hm0, -0.7) * pw(1.5 + Rc / Hm0, 1.5)


@V4.fn("calculate_structure_induced_setup_delta_permeable", **KD)
def v4_p(W, Hm0, Tmm10, Rc, hc):
    return Hm0 * v4_pd(W, Hm0, Tmm10, Rc, hc)
