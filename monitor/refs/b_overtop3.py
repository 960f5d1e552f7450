"""Overtopping: Van Gent (2025), Van Gent (2021) caissons."""
import math
from ..model import (Mod, Reject, Skip, nan, isn, given, pw, sq, ln, ex, dv, steep, irib, cosd, MODE, near)
from .b_overtop2 import vol, _pick

M5 = Mod("hydraulic.wave_overtopping.vangent2025", "overtopping")
M1 = Mod("hydraulic.wave_overtopping.vangent2021_caisson", "overtopping")
F5 = "Van Gent et al. (2025)"
D5 = {"Hm0_swell": ("l", 0.01, 3), "Hm0_deep": ("l", 0.05, 12), "Ac": ("l", 0.05, 12), "Gc": ("l", 0.05, 20),
      "B_berm": ("l", 0.05, 20), "db": ("u", -6, 3), "smm10": ("l", 0.0005, 0.08), "BL": ("l", 0.1, 15),
      "ksi_mm10": ("l", 0.1, 10), "c2": ("u", 0.4, 1.5), "c3": ("u", -4, -1), "q_diml": ("l", 1e-6, 0.1),
      "c_f1": ("u", 0.3, 0.9), "c_f2": ("u", 0.01, 0.3), "smm10_lim": ("u", 0.005, 0.03), "c_b1": ("u", 5, 25),
      "c_b2": ("u", 0.8, 2), "c_b3": ("u", 0.1, 0.6), "c_b4": ("u", 0.05, 0.5), "c_beta": ("u", 0.1, 0.8),
      "c_v": ("u", 0.1, 0.8), "c_w1": ("u", 0.01, 0.2), "c_w2": ("u", -0.5, -0.1), "beta": ("u", -100, 100),
      "tolerance": ("c", [1e-5, 1e-6]), "max_iter": ("c", [1000, 2000])}


@M5.fn("check_validity_range", dom=D5, out="none")
def v5_check(W, Hm0=nan, Hm0_deep=nan, Tmm10=nan, beta=nan, h=nan, cot_alpha=nan, Dn50=nan, Rc=nan, Ac=nan, Gc=nan,
             B_berm=nan, db=nan):
    W(F5, "Cotangent alpha slope", cot_alpha, 1.5, 8.0)
    W(F5, "Incident wave angle beta", beta, 0.0, 75.0)
    if given(Hm0_deep, h):
        W(F5, "Ratio Hm0_deep / h", Hm0_deep / h, 0.0, 1.0)
    if not given(Hm0):
        return
    if given(Tmm10):
        W(F5, "Wave steepness sm-1,0", steep(Hm0, Tmm10), 0.001, 0.042)
        if given(cot_alpha):
            W(F5, "Iribarren number ksi_m-1,0", irib(Hm0, Tmm10, cot_alpha), 0.05, 6.0)
    W(F5, "Relative water depth h / Hm0", h / Hm0, 0.6, 5.0)
    W(F5, "Non-dimensional crest freeboard Rc / Hm0", Rc / Hm0, 0.6, 5.0)
    W(F5, "Non-dimensional stone diameter Dn50 / Hm0", Dn50 / Hm0, 0.12, 0.9)
    W(F5, "Non-dimensional protruding part of crest wall (Rc - Ac) / Hm0", (Rc - Ac) / Hm0, 0.0, 0.68)
    W(F5, "Non-dimensional armour width in front of crest wall Gc / Hm0", Gc / Hm0, 0.6, 5.0)
    W(F5, "Non-dimensional Berm width B / Hm0", B_berm / Hm0, 0.6, 5.0)
    W(F5, "Non-dimensional Berm height db / Hm0", db / Hm0, -1.7, 0.5)


@M5.fn("q_diml_max_equation", dom=D5)
def v5_qmax(W, Hm0, Hm0_swell, ksi_mm10, cot_alpha, Rc, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5):
    return c2 / cot_alpha * ex(c3 * (Rc - 0.4 * Hm0_swell) / (gamma_f * gamma_b * gamma_v * gamma_beta * pw(ksi_mm10, 0.24) * Hm0))


@M5.fn("Rc_diml_max_equation", dom=D5, atol=1e-12)
def v5_rmax(W, Hm0, Hm0_swell, q, cot_alpha, ksi_mm10, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5, g=9.81):
    return ln(cot_alpha * q / (c2 * vol(Hm0, g))) / c3 * gamma_f * gamma_b * gamma_v * gamma_beta * pw(ksi_mm10, 0.24) \
        + 0.4 * Hm0_swell / Hm0


@M5.fn("calculate_influence_friction_gamma_f", dom=D5)
def v5_gf(W, Dn50, Hm0, smm10, c_f1=0.70, c_f2=0.05, smm10_lim=0.012):
    f = 1 - c_f1 * pw(Dn50 / Hm0, c_f2)
    return f if smm10 >= smm10_lim else f + 12 * (smm10_lim - smm10) * (1 - f)


@M5.fn("calculate_influence_berm_gamma_b", dom=D5, atol=1e-12)
def v5_gb(W, Hm0, smm10, Ac, B_berm, BL, c_b1=18.0, c_b2=1.3, c_b3=0.34, c_b4=0.2):
    return 1 - c_b1 * pw(smm10 * B_berm / Hm0, c_b2) * (1 - c_b3 * pw(dv(BL, smm10 * Ac), c_b4))


@M5.fn("calculate_influence_oblique_waves_gamma_beta", dom=D5)
def v5_gbeta(W, beta, c_beta=0.35):
    return (1 - c_beta) * cosd(beta) ** 2 + c_beta


@M5.fn("calculate_influence_crest_wall_gamma_v", dom=D5, atol=1e-12)
def v5_gv(W, cot_alpha, Rc, Ac, c_v=0.45):
    return 1 + (c_v if cot_alpha <= 4.0 else 0.1125 * cot_alpha) * (Rc - Ac) / Rc


@M5.fn("calculate_influence_wind_gamma_w", dom=D5, atol=1e-12)
def v5_gw(W, Rc, Ac, Hm0, q_diml, c_w1=0.075, c_w2=-0.3):
    return 1 + c_w1 * (Rc - Ac) / Hm0 * pw(q_diml, c_w2)


def _f5(rng, a):
    H = a["Hm0"]
    a.setdefault("cot_alpha", float(rng.uniform(1, 9)))
    a.setdefault("gamma_v", float(rng.uniform(0.9, 1.3)))
    if rng.random() < 0.97:
        if "beta" not in a and "gamma_beta" not in a:
            a["beta"] = float(rng.uniform(0, 80))
    a["Ac"] = float(H * rng.uniform(0.3, 4))
    if rng.random() < 0.6:
        a["B_berm"] = float(H * rng.uniform(0, 6))
        a["db"] = float(H * rng.uniform(-2, 1))
    else:
        a.pop("B_berm", None)
        a.pop("db", None)
    a["Hm0_swell"] = float(H * rng.uniform(0, 0.5))
    if "Rc" in a:
        a["Rc"] = float(a["Ac"] + H * rng.uniform(-0.1, 1.0)) if rng.random() < 0.7 else a["Rc"]
    if "q" in a:
        a["q"] = float(10 ** rng.uniform(-6, -1.5)) * math.sqrt(9.81 * H ** 3)
    return a


def _f5fac(W, Hm0, Tmm10, Ac, cot, beta, B, db, Dn50, gf, gb, gbe):
    if isn(gbe):
        gbe = v5_gbeta(W, beta)
    s = steep(Hm0, Tmm10)
    ksi = irib(Hm0, Tmm10, cot)
    if isn(gb):
        gb = v5_gb(W, Hm0, s, Ac, B, Ac - db) if not B == 0 else (1.0 if dv(Ac - db, s * Ac) >= 0 else nan)
    if isn(gf):
        if isn(Dn50):
            raise Reject()
        if near(s, 0.012):
            raise Skip()
        gf = v5_gf(W, Dn50, Hm0, s)
    return gbe, ksi, gb, gf


K5 = dict(dom=D5, fix=_f5, out="tuple", bools=("design_calculation", "include_influence_wind"))


@M5.fn("calculate_dimensionless_overtopping_discharge_q", **K5)
def v5_qd(W, Hm0, Hm0_swell, Tmm10, Rc, Ac, cot_alpha=nan, beta=nan, B_berm=0.0, db=0.0, Dn50=nan, gamma_f=nan, gamma_b=nan,
          gamma_v=nan, gamma_beta=nan, design_calculation=True, include_influence_wind=False):
    gbe, ksi, gb, gf = _f5fac(W, Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    gam = gf * gb * gamma_v * gbe * Hm0
    if not gam > 0:
        raise Skip()
    X = Rc - 0.4 * Hm0_swell
    a = 6.8 / cot_alpha * ex(-5.0 * X / (gam * ksi))
    b = 0.8 / cot_alpha * ex(-2.5 * X / (gam * pw(ksi, 0.24)))
    q, m = _pick(a, b)
    if include_influence_wind:
        q = q * v5_gw(W, Rc, Ac, Hm0, q)
        if not q > 1e-300:
            raise Skip()
    if design_calculation:
        q = pw(q, 0.857)
    v5_check(W, Hm0=Hm0, Tmm10=Tmm10, beta=beta, cot_alpha=cot_alpha, Dn50=Dn50, Rc=Rc, Ac=Ac, B_berm=B_berm, db=db)
    return q, m


@M5.fn("calculate_overtopping_discharge_q", **K5)
def v5_q(W, Hm0, Hm0_swell, Tmm10, Rc, Ac, cot_alpha=nan, beta=nan, B_berm=0.0, db=0.0, Dn50=nan, gamma_f=nan, gamma_b=nan,
         gamma_v=nan, gamma_beta=nan, g=9.81, design_calculation=True, include_influence_wind=False):
    q, m = v5_qd(W, Hm0, Hm0_swell, Tmm10, Rc, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_v, gamma_beta,
                 design_calculation, include_influence_wind)
    return q * vol(Hm0, g), m


K5r = dict(K5, kind="iterative", atol=1e-12)


@M5.fn("calculate_dimensionless_crest_freeboard", **K5r)
def v5_rd(W, Hm0, Hm0_swell, Tmm10, q, Ac, cot_alpha=nan, beta=nan, B_berm=0.0, db=0.0, Dn50=nan, gamma_f=nan, gamma_b=nan,
          gamma_v=nan, gamma_beta=nan, g=9.81, design_calculation=True, include_influence_wind=False, max_iter=1000,
          tolerance=1e-5):
    gbe, ksi, gb, gf = _f5fac(W, Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    gam = gf * gb * gamma_v * gbe
    if not gam > 0:
        raise Skip()
    qs = q / vol(Hm0, g)
    if design_calculation:
        qs = pw(qs, 1 / 0.857)

    def inv(x):
        a = -ln(x * cot_alpha / 6.8) / 5.0 * gam * ksi + 0.4 * Hm0_swell / Hm0
        b = -ln(x * cot_alpha / 0.8) / 2.5 * gam * pw(ksi, 0.24) + 0.4 * Hm0_swell / Hm0
        return _pick(a, b)

    r, m = inv(qs)
    if include_influence_wind:
        W.margin = 1e-3
        tol = 1e-12 if MODE[0] == 1 else tolerance
        prev = r
        x = qs
        for i in range(2000):
            gw = v5_gw(W, r * Hm0, Ac, Hm0, x)
            x = qs / gw if gw > 0 else nan
            if not x > 0:
                raise Skip()
            prev = r
            r, m = inv(x)
            if abs(r - prev) <= tol:
                break
        else:
            raise Skip()
        if i >= 999:
            raise Skip()
    v5_check(W, Hm0=Hm0, Tmm10=Tmm10, beta=beta, cot_alpha=cot_alpha, Dn50=Dn50, Rc=r * Hm0, Ac=Ac, B_berm=B_berm, db=db)
    return r, m


@M5.fn("calculate_crest_freeboard_Rc", **K5r)
def v5_r(W, Hm0, Hm0_swell, Tmm10, q, Ac, cot_alpha=nan, beta=nan, B_berm=0.0, db=0.0, Dn50=nan, gamma_f=nan, gamma_b=nan,
         gamma_v=nan, gamma_beta=nan, design_calculation=True, include_influence_wind=False):
    r, m = v5_rd(W, Hm0, Hm0_swell, Tmm10, q, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_v, gamma_beta,
                 9.81, design_calculation, include_influence_wind)
    return r * Hm0, m


# ------------------------------------------------------------------ Van Gent 2021
F1 = "Van Gent (2021)"
D1 = {"Hm0_swell": ("l", 0.01, 3), "q_diml": ("l", 1e-7, 0.05), "c": ("c", [1.0, 1.3]), "c_swell": ("u", 0.1, 0.7),
      "gamma_p": ("u", 0.8, 1.0), "c_beta": ("u", 0.3, 0.9), "beta": ("u", -100, 100)}


@M1.fn("check_validity_range", dom=D1, out="none")
def v1_check(W, Hm0=nan, Tmm10=nan, beta=nan, Rc=nan, q_diml=nan):
    if given(Hm0, Tmm10):
        W(F1, "Wave steepness sm-1,0", steep(Hm0, Tmm10), 0.015, 0.041)
    if given(Hm0, Rc):
        W(F1, "Dimensionless freeboard Rc/Hm0", Rc / Hm0, 1.2, 2.9)
    W(F1, "Dimensionless overtopping discharge q", q_diml, 0.0, 0.0012)
    W(F1, "Incident wave angle beta", beta, 0.0, 75.0)


@M1.fn("calculate_influence_oblique_waves_gamma_beta", dom=D1)
def v1_gb(W, beta, gamma_p, c_beta):
    return cosd(beta) ** 2 * (1 - c_beta / gamma_p) + c_beta / gamma_p


def _co1(c, short, cross, par):
    if c not in (1.0, 1.3):
        raise Reject()
    multi = short or cross
    if par and not multi:
        raise Reject()
    if c == 1.0:
        a, b, cb, gp = (0.2, 3.9, 0.75, 0.89) if multi else (0.2, 4.0, 0.8, 1.0)
    else:
        a, b, cb, gp = (0.047, 2.57, 0.70, 0.85) if multi else (0.047, 2.7, 0.8, 1.0)
    return a, b, cb, gp if par else 1.0


def _f1(rng, a):
    if rng.random() < 0.03:
        a["c"] = float(rng.choice([1.1, 2.0, 0.0]))
    if "beta" not in a and "gamma_beta" not in a:
        a["beta"] = float(rng.uniform(-80, 80))
    if rng.random() < 0.7 and "Hm0_swell" in a:
        a["Hm0_swell"] = float(a["Hm0"] * rng.uniform(0.05, 0.6))
    return a


K1 = dict(dom=D1, fix=_f1, scal=("c",), bools=("short_crested_waves", "crossing_seas", "parapet"))


def _c1(W, c, s, x, p, sw, cs, beta, gbe):
    a, b, cb, gp = _co1(c, s, x, p)
    if not x:
        cs, sw = 0.0, 0.0
    elif isn(sw):
        raise Reject()
    if isn(gbe):
        gbe = v1_gb(W, beta, gp, cb)
    return a, b / (gbe * gp), cs * sw


@M1.fn("calculate_dimensionless_overtopping_discharge_q", **K1)
def v1_qd(W, Hm0, Rc, beta=nan, gamma_beta=nan, Hm0_swell=nan, c=1.0, c_swell=0.4, short_crested_waves=True,
          crossing_seas=False, parapet=False):
    a, k, off = _c1(W, c, short_crested_waves, crossing_seas, parapet, Hm0_swell, c_swell, beta, gamma_beta)
    q = a * ex(-k * pw((Rc - off) / Hm0, c))
    v1_check(W, Hm0, nan, beta, Rc, q)
    return q


@M1.fn("calculate_overtopping_discharge_q", **K1)
def v1_q(W, Hm0, Rc, beta=nan, gamma_beta=nan, Hm0_swell=nan, c=1.0, c_swell=0.4, short_crested_waves=True,
         crossing_seas=False, parapet=False, g=9.81):
    return vol(Hm0, g) * v1_qd(W, Hm0, Rc, beta, gamma_beta, Hm0_swell, c, c_swell, short_crested_waves, crossing_seas, parapet)


@M1.fn("calculate_dimensionless_crest_freeboard", atol=1e-12, **K1)
def v1_rd(W, Hm0, q, beta=nan, gamma_beta=nan, Hm0_swell=nan, c=1.0, c_swell=0.4, short_crested_waves=True,
          crossing_seas=False, parapet=False, g=9.81):
    a, k, off = _c1(W, c, short_crested_waves, crossing_seas, parapet, Hm0_swell, c_swell, beta, gamma_beta)
    x = ln(a * vol(Hm0, g) / q) / k
    if abs(x) < 1e-7:
        raise Skip()
    r = pw(x, 1 / c) + off / Hm0
    v1_check(W, Hm0, nan, beta, r * Hm0)
    return r


@M1.fn("calculate_crest_freeboard_Rc", atol=1e-12, **K1)
def v1_r(W, Hm0, q, beta=nan, gamma_beta=nan, Hm0_swell=nan, c=1.0, c_swell=0.4, short_crested_waves=True,
         crossing_seas=False, parapet=False, g=9.81):
    return Hm0 * v1_rd(W, Hm0, q, beta, gamma_beta, Hm0_swell, c, c_swell, short_crested_waves, crossing_seas, parapet, g)
