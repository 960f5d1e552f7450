"""Overtopping: De Ridder et al. (2024, 2026), EurOtop (2007)."""
from ..model import *  # noqa: F401,F403
from ..model import Mod, nan, given, pw, sq, ln, ex, steep, irib, cosd
import math

M24 = Mod("hydraulic.wave_overtopping.deridder2024", "overtopping")
M26 = Mod("hydraulic.wave_overtopping.deridder2026", "overtopping")
S = {"smm10_HF": ("l", 0.002, 0.08), "Hm0_LF": ("l", 0.01, 4), "Hm0_HF": ("l", 0.05, 12),
     "Tmm10_HF": ("l", 1, 25), "m_foreshore_slope": ("l", 0.005, 0.1)}


def _vol(H, g):
    return sq(g * H ** 3)


F24 = "De Ridder et al. (2024)"


@M24.fn("check_validity_range", dom=S, out="none")
def c24(W, h=nan, Hm0=nan, Hm0_HF=nan, Hm0_LF=nan, Tmm10=nan, Tmm10_HF=nan, Rc=nan, cot_alpha=nan,
        m_foreshore_slope=nan, Dn50=nan):
    if given(Hm0, Tmm10):
        W(F24, "Wave steepness sm-1,0", steep(Hm0, Tmm10), 0.001, 0.040)
        if given(cot_alpha):
            W(F24, "Iribarren number Ksi_m-1,0", irib(Hm0, Tmm10, cot_alpha), 0.05, 1.11)
    if given(Hm0_HF, Tmm10_HF):
        W(F24, "Short wave steepness sm-1,0_HF", steep(Hm0_HF, Tmm10_HF), 0.004, 0.047)
    if given(m_foreshore_slope):
        W(F24, "Foreshore slope m", m_foreshore_slope, 0.01, 0.05)
    if given(Hm0):
        W(F24, "Rc/Hm0", Rc / Hm0, 0.80, 3.72)
        W(F24, "Dn50/Hm0", Dn50 / Hm0, 0.12, 0.89)
        W(F24, "Hm0_LF/Hm0", Hm0_LF / Hm0, 0.10, 0.81)
        W(F24, "h/Hm0", h / Hm0, 0.57, 4.95)


def _w24(W, Hm0, s, Rc, LF=nan):
    W(F24, "Short wave steepness sm-1,0_HF", s, 0.004, 0.047, exact=False)
    W(F24, "Rc/Hm0", Rc / Hm0, 0.80, 3.72)
    W(F24, "Hm0_LF/Hm0", LF / Hm0, 0.10, 0.81)


@M24.fn(dom=S)
def calculate_dimensionless_overtopping_discharge_eq24(W, Hm0, smm10_HF, gamma_f, Rc):
    _w24(W, Hm0, smm10_HF, Rc)
    return 0.74 * ex(-8.51 * pw(smm10_HF, 0.32) * Rc / (Hm0 * gamma_f))


@M24.fn(dom=S)
def calculate_dimensionless_overtopping_discharge_eq26(W, Hm0, smm10_HF, Hm0_LF, gamma_f, Rc):
    _w24(W, Hm0, smm10_HF, Rc, Hm0_LF)
    return 0.50 * ex(-7.91 * pw(smm10_HF, 0.30) * (Rc - 0.21 * Hm0_LF) / (Hm0 * gamma_f))


@M24.fn(dom=S)
def calculate_overtopping_discharge_q_eq24(W, Hm0, smm10_HF, gamma_f, Rc, g=9.81):
    return _vol(Hm0, g) * calculate_dimensionless_overtopping_discharge_eq24(W, Hm0, smm10_HF, gamma_f, Rc)


@M24.fn(dom=S)
def calculate_overtopping_discharge_q_eq26(W, Hm0, smm10_HF, Hm0_LF, gamma_f, Rc, g=9.81):
    return _vol(Hm0, g) * calculate_dimensionless_overtopping_discharge_eq26(W, Hm0, smm10_HF, Hm0_LF, gamma_f, Rc)


@M24.fn(dom=S)
def calculate_dimensionless_crest_freeboard_discharge_q_eq24(W, Hm0, smm10_HF, gamma_f, q, g=9.81):
    r = gamma_f * ln(0.74 * _vol(Hm0, g) / q) / (8.51 * pw(smm10_HF, 0.32))
    _w24(W, Hm0, smm10_HF, r * Hm0)
    return r


@M24.fn(dom=S)
def calculate_crest_freeboard_discharge_q_eq24(W, Hm0, smm10_HF, gamma_f, q, g=9.81):
    return Hm0 * calculate_dimensionless_crest_freeboard_discharge_q_eq24(W, Hm0, smm10_HF, gamma_f, q, g)


@M24.fn(dom=S)
def calculate_crest_freeboard_discharge_q_eq26(W, Hm0, smm10_HF, Hm0_LF, gamma_f, q, g=9.81):
    r = Hm0 * gamma_f * ln(0.50 * _vol(Hm0, g) / q) / (7.91 * pw(smm10_HF, 0.30)) + 0.21 * Hm0_LF
    _w24(W, Hm0, smm10_HF, r, Hm0_LF)
    return r


F26 = "De Ridder et al. (2026)"


@M26.fn("check_validity_range", dom=S, out="none")
def c26(W, h=nan, Hm0=nan, Hm0_HF=nan, Hm0_LF=nan, Tmm10=nan, Tmm10_HF=nan, Rc=nan, Dn50=nan, theta=nan):
    if given(Hm0, Tmm10):
        W(F26, "Wave steepness sm-1,0", steep(Hm0, Tmm10), 0.003, 0.041)
    if given(Hm0_HF, Tmm10_HF):
        W(F26, "Short wave steepness sm-1,0_HF", steep(Hm0_HF, Tmm10_HF), 0.012, 0.049)
    if given(Hm0):
        W(F26, "Rc/Hm0", Rc / Hm0, 0.98, 1.94)
        W(F26, "Dn50/Hm0", Dn50 / Hm0, 0.18, 0.35)
        W(F26, "Hm0_LF/Hm0", Hm0_LF / Hm0, 0.15, 0.55)
        W(F26, "h/Hm0", h / Hm0, 1.41, 2.15)
    W(F26, "theta", theta, 0.0, 56)


def _w26(W, H, s, Rc, theta, LF=nan):
    W(F26, "Short wave steepness sm-1,0_HF", s, 0.012, 0.049, exact=False)
    W(F26, "Rc/Hm0", Rc / H, 0.98, 1.94)
    W(F26, "Hm0_LF/Hm0", LF / H, 0.15, 0.55)
    W(F26, "theta", theta, 0.0, 56)


@M26.fn()
def calculate_gamma_beta(W, theta):
    return 0.35 + 0.65 * cosd(theta) ** 2


@M26.fn(dom=S)
def calculate_dimensionless_overtopping_discharge_eq28(W, Hm0, smm10_HF, gamma_f, Rc, theta=0.0):
    _w26(W, Hm0, smm10_HF, Rc, theta)
    return 0.16 * ex(-6.93 * pw(smm10_HF, 0.36) * Rc / (Hm0 * gamma_f * calculate_gamma_beta(W, theta)))


@M26.fn(dom=S)
def calculate_dimensionless_overtopping_discharge_eq32(W, Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, theta=0.0):
    _w26(W, Hm0_HF, smm10_HF, Rc, theta, Hm0_LF)
    return 0.05 * ex(-10.4 * sq(smm10_HF) * (Rc - 0.97 * Hm0_LF) / (Hm0_HF * gamma_f * calculate_gamma_beta(W, theta)))


@M26.fn(dom=S)
def calculate_overtopping_discharge_q_eq28(W, Hm0, smm10_HF, gamma_f, Rc, g=9.81, theta=0.0):
    return _vol(Hm0, g) * calculate_dimensionless_overtopping_discharge_eq28(W, Hm0, smm10_HF, gamma_f, Rc, theta)


@M26.fn(dom=S)
def calculate_overtopping_discharge_q_eq32(W, Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, g=9.81, theta=0.0):
    return _vol(Hm0_HF, g) * calculate_dimensionless_overtopping_discharge_eq32(
        W, Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, theta)


@M26.fn(dom=S)
def calculate_dimensionless_crest_freeboard_discharge_q_eq28(W, Hm0, smm10_HF, gamma_f, q, g=9.81, gamma_beta=1.0):
    return gamma_beta * gamma_f * ln(0.16 * _vol(Hm0, g) / q) / (6.93 * pw(smm10_HF, 0.36))


@M26.fn(dom=S)
def calculate_crest_freeboard_discharge_q_eq28(W, Hm0, smm10_HF, gamma_f, q, g=9.81, theta=0.0):
    return Hm0 * calculate_dimensionless_crest_freeboard_discharge_q_eq28(
        W, Hm0, smm10_HF, gamma_f, q, g, calculate_gamma_beta(W, theta))


@M26.fn(dom=S)
def calculate_crest_freeboard_discharge_q_eq32(W, Hm0_HF, smm10_HF, Hm0_LF, gamma_f, q, g=9.81, theta=0.0):
    gb = calculate_gamma_beta(W, theta)
    return 0.97 * Hm0_LF + Hm0_HF * gamma_f * gb * ln(0.05 * _vol(Hm0_HF, g) / q) / (10.4 * sq(smm10_HF))
