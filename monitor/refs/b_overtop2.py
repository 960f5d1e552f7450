"""Run-up and overtopping: TAW (2002), EurOtop (2018), EurOtop (2007)."""
import math
from ..model import (Mod, Reject, Skip, nan, isn, given, pw, sq, ln, ex, dv, steep, irib, MODE, near)

RT = Mod("hydraulic.wave_runup.taw2002", "runup")
OT = Mod("hydraulic.wave_overtopping.taw2002", "overtopping")
RE = Mod("hydraulic.wave_runup.eurotop2018", "runup")
OE = Mod("hydraulic.wave_overtopping.eurotop2018", "overtopping")
O7 = Mod("hydraulic.wave_overtopping.eurotop2007", "overtopping")

FT = "TAW (2002)"


def vol(H, g):
    return sq(g * H ** 3)


# ---------------------------------------------------------------- generators
def slope_fix(rng, a):
    """one of: single slope, composite slope, both, neither/partial; beta or gamma_beta; berm or not"""
    r = rng.random()
    for k in ("cot_alpha", "cot_alpha_down", "cot_alpha_up"):
        a.pop(k, None)
    lo = lambda: float(math.exp(rng.uniform(0, math.log(10))))
    if r < 0.55:
        a["cot_alpha"] = lo()
    elif r < 0.85:
        a["cot_alpha_down"] = lo()
        a["cot_alpha_up"] = lo() if rng.random() < 0.85 else a["cot_alpha_down"]
    elif r < 0.93:
        a["cot_alpha"] = lo()
        a["cot_alpha_down"] = lo()
        a["cot_alpha_up"] = lo()
    elif r < 0.97:
        pass
    else:
        a["cot_alpha"] = lo()
        a["cot_alpha_up" if rng.random() < 0.5 else "cot_alpha_down"] = lo()
    ob_fix(rng, a)
    H = a["Hm0"]
    a.pop("B_berm", None)
    a.pop("db", None)
    if rng.random() < 0.5:
        a["B_berm"] = float(H * rng.choice([0.0, rng.uniform(0.1, 8.0)], p=[0.1, 0.9]))
        a["db"] = float(H * rng.uniform(-2.5, 2.5)) if rng.random() < 0.8 else 0.0
    return a


def ob_fix(rng, a):
    for k in ("beta", "gamma_beta"):
        a.pop(k, None)
    r = rng.random()
    if r < 0.5 or 0.9 <= r < 0.97:
        a["beta"] = float(rng.choice([rng.uniform(-100, 100), rng.uniform(0, 89), 0.0, 80.0, -80.0, 90.0], p=[.3, .4, .1, .1, .05, .05]))
    if 0.5 <= r < 0.97:
        a["gamma_beta"] = float(rng.uniform(0.4, 1.0))
    return a


CO = {"c1": ("u", 1.0, 5.0), "c2": ("u", 3.0, 6.0), "c3": ("u", 1.0, 2.0), "c4": ("u", 0.5, 1.5),
      "B_berm": ("l", 0.1, 20), "db": ("u", -5, 5), "z2p": ("l", 0.05, 20), "L_berm": ("l", 5, 100),
      "cot_alpha_average": ("l", 1, 10), "sigma": ("u", -3, 3), "ksi_mm10": ("l", 0.2, 25), "beta": ("u", -100, 100),
      "tolerance": ("c", [1e-4, 1e-5, 1e-6]), "max_iter": ("c", [1000, 500]),
      "alpha_wall_deg": ("u", 0, 90), "c_gamma_beta": ("u", 0.001, 0.006), "max_angle": ("u", 30, 90)}


# ---------------------------------------------------------------- TAW run-up
@RT.fn("check_validity_range", out="none")
def rt_check(W, Hm0=nan, Tmm10=nan, gamma_f=nan, gamma_b=nan, gamma_beta=nan, cot_alpha=nan):
    W(FT, "Influence factor for a berm gamma_b", gamma_b, 0.6, 1.0)
    W(FT, "Influence factor for oblique wave incidence gamma_beta", gamma_beta, 0.7, 1.0)
    W(FT, "Influence factor for surface roughness gamma_f", gamma_f, 0.5, 1.0)
    if given(Hm0, Tmm10):
        W(FT, "Wave steepness smm10", steep(Hm0, Tmm10), 0.001, 0.07)
        if given(cot_alpha):
            W(FT, "Iribarren number ksi_mm10", irib(Hm0, Tmm10, cot_alpha), 0.4, 20.0)


@RT.fn("calculate_adjusted_influence_roughness_gamma_f", dom=CO)
def roughness(W, gamma_f, gamma_b, ksi_mm10):
    p = gamma_b * ksi_mm10
    if near(p, 1.8) or near(p, 10.0):
        raise Skip()
    if 1.8 <= p <= 10.0:
        return gamma_f + (1 - gamma_f) * (ksi_mm10 - 1.8) / 8.2
    return gamma_f


@RT.fn("calculate_influence_oblique_waves_gamma_beta", dom=CO)
def oblique_t(W, beta, c_gamma_beta=0.0022, max_angle=80.0):
    return 1 - c_gamma_beta * min(abs(beta), max_angle)


@RT.fn("calculate_influence_berm_gamma_b", dom=CO)
def berm(W, Hm0, z2p, db, B_berm, L_berm):
    if near(db, 2 * Hm0) or near(db, -z2p):
        raise Skip()
    if db > 2 * Hm0 or db < -z2p:
        rdh = 1.0
    else:
        x = z2p if db < 0 else 2 * Hm0
        rdh = 0.5 - 0.5 * math.cos(math.pi * dv(db, x))
    gb = 1.0 - dv(B_berm, L_berm) * (1 - rdh)
    return min(1.0, max(0.6, gb)) if not math.isnan(gb) else nan


@RT.fn("check_composite_slope", fix=lambda rng, a: {k: v for k, v in slope_fix(rng, {"Hm0": 1.0}).items() if k.startswith("cot")})
def composite(W, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan):
    if isn(cot_alpha) and isn(cot_alpha_down):
        raise Reject()
    return given(cot_alpha_down, cot_alpha_up)


@RT.fn("check_calculate_gamma_beta", fix=lambda rng, a: {**{"beta": nan, "gamma_beta": nan}, **ob_fix(rng, {})})
def need_gb(W, beta, gamma_beta):
    if isn(beta) and isn(gamma_beta):
        raise Reject()
    return isn(gamma_beta)


@RT.fn("calculate_berm_length", fix=lambda rng, a: {k: v for k, v in {**slope_fix(rng, dict(a)), "B_berm": a["B_berm"]}.items()
                                                     if k in ("Hm0", "B_berm", "cot_alpha", "cot_alpha_down", "cot_alpha_up")},
       dom=CO)
def berm_length(W, Hm0, B_berm, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan):
    if not composite(W, cot_alpha, cot_alpha_down, cot_alpha_up):
        cot_alpha_down = cot_alpha_up = cot_alpha
    return B_berm + Hm0 * (cot_alpha_down + cot_alpha_up)


@RT.fn("determine_average_slope", dom=CO)
def avg_slope(W, Hm0, z2p, cot_alpha_down, cot_alpha_up, B_berm, db):
    return ((1.5 * Hm0 - db) * cot_alpha_down + (z2p + db) * cot_alpha_up) / (1.5 * Hm0 + z2p)


def _ru(H, ksi, gb, gf_adj, gbeta, c1, c2, c3, c4):
    a = c1 * gb * gf_adj * gbeta * ksi
    b = c4 * gf_adj * gbeta * (c2 - c3 / sq(ksi)) if ksi > 0 else nan
    if math.isnan(a) or math.isnan(b):
        return nan, None
    return min(a, b), (None if near(a, b) else b < a)


def _runup_diml(W, Hm0, Tmm10, gbeta, gb, gf, B, db, cot, cd, cu, c):
    """TAW run-up with gamma_beta known and coefficients c"""
    comp = composite(W, cot, cd, cu)
    if comp:
        W.margin = max(W.margin, 2e-3)
        z = _iter_z2p(W, Hm0, Tmm10, cd, cu, B, db, gf, gbeta, c)
        cot = avg_slope(W, Hm0, z, cd, cu, B, db)
    ksi = irib(Hm0, Tmm10, cot)
    if math.isnan(ksi):
        raise Skip()
    if isn(gb):
        L = berm_length(W, Hm0, B, cot, cd, cu)
        gb = _iter_gb(W, Hm0, Tmm10, cot, B, L, db, gf, gbeta, c)
    z, mx = _ru(Hm0, ksi, gb, roughness(W, gf, gb, ksi), gbeta, *c)
    rt_check(W, Hm0, Tmm10, gf, gb, gbeta, cot)
    return z, mx


def _iter_z2p(W, Hm0, Tmm10, cd, cu, B, db, gf, gbeta, c, tol=1e-4, max_iter=1000):
    z = 1.5 * Hm0
    L = berm_length(W, Hm0, B, nan, cd, cu)
    if MODE[0] == 1:
        tol = min(1e-11, tol)
    with W.optional():
        for _ in range(min(max_iter, 1000)):
            gb = berm(W, Hm0, z, db, B, L)
            cot = avg_slope(W, Hm0, z, cd, cu, B, db)
            ksi = irib(Hm0, Tmm10, cot)
            if not ksi > 0:
                raise Skip()
            zn = Hm0 * _ru(Hm0, ksi, gb, roughness(W, gf, gb, ksi), gbeta, *c)[0]
            rt_check(W, Hm0, Tmm10, gf, gb, gbeta, cot)
            d = abs(zn - z)
            z = zn
            if not d > tol:
                return z
    raise Skip()


def _iter_gb(W, Hm0, Tmm10, cot, B, L, db, gf, gbeta, c):
    if B == 0.0 or L == 0.0:
        return 1.0
    gb = 1.0
    for _ in range(2):
        z, _m = _runup_diml(W, Hm0, Tmm10, gbeta, gb, gf, 0.0, 0.0, cot, nan, nan, c)
        gb = berm(W, Hm0, z * Hm0, db, B, L)
    return gb


TB = (1.65, 4.0, 1.5, 1.0)


def _arr_comp(a):
    return False


@RT.fn("calculate_dimensionless_wave_runup_height_z2p", dom=CO, fix=slope_fix, out="tuple", kind="iterative", bools=("use_best_fit",))
def rt_diml(W, Hm0, Tmm10, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan,
            cot_alpha_down=nan, cot_alpha_up=nan, c1=1.75, c2=4.3, c3=1.6, c4=1.0, use_best_fit=False):
    c = TB if use_best_fit else (c1, c2, c3, c4)
    if need_gb(W, beta, gamma_beta):
        gamma_beta = oblique_t(W, beta)
    return _runup_diml(W, Hm0, Tmm10, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, c)


@RT.fn("calculate_wave_runup_height_z2p", dom=CO, fix=slope_fix, out="tuple", kind="iterative", bools=("use_best_fit",))
def rt_z2p(W, Hm0, Tmm10, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan,
           cot_alpha_down=nan, cot_alpha_up=nan, c1=1.75, c2=4.3, c3=1.6, c4=1.0, use_best_fit=False):
    z, m = rt_diml(W, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                   cot_alpha_up, c1, c2, c3, c4, use_best_fit)
    return z * Hm0, m


def _it_fix(rng, a):
    H = a["Hm0"]
    a["B_berm"] = float(H * rng.choice([0.0, rng.uniform(0.1, 8.0)], p=[0.2, 0.8]))
    a["db"] = float(H * rng.uniform(-2.5, 2.5)) if rng.random() < 0.9 else 0.0
    return a


@RT.fn("iteration_procedure_z2p", dom=CO, fix=_it_fix, kind="iterative", bools=("use_best_fit",), weight=0.4)
def rt_iter(W, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, c1=1.75, c2=4.3, c3=1.6, c4=1.0,
            use_best_fit=False, tolerance=1e-4, max_iter=1000):
    c = TB if use_best_fit else (c1, c2, c3, c4)
    W.margin = 2e-3
    return _iter_z2p(W, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, c, tolerance, max_iter)


@RT.fn("iteration_procedure_gamma_b", dom=CO, fix=_it_fix, bools=("use_best_fit",))
def rt_gb(W, Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, c1=1.75, c2=4.3, c3=1.6, c4=1.0,
          use_best_fit=False, gamma_f=1.0):
    c = TB if use_best_fit else (c1, c2, c3, c4)
    return _iter_gb(W, Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_f, gamma_beta, c)


# ---------------------------------------------------------------- TAW overtopping
@OT.fn("check_validity_range", out="none", dom=CO)
def ot_check(W, Hm0=nan, Tmm10=nan, beta=nan, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, gamma_f=nan,
             gamma_b=nan, gamma_beta=nan, gamma_v=nan):
    if given(Hm0, Tmm10):
        W(FT, "Wave steepness sm-1,0", steep(Hm0, Tmm10), 0.0, 0.07)
        if given(cot_alpha):
            k = irib(Hm0, Tmm10, cot_alpha)
            W(FT, "Iribarren number ksi_m-1,0", k, 0.0, 7.0)
            if given(gamma_b):
                W(FT, "gamma_b * ksi_m-1,0", gamma_b * k, 0.5, 10.0)
    W(FT, "Cotangent alpha lower slope", cot_alpha_down, 1.0, 7.0)
    W(FT, "Cotangent alpha upper slope", cot_alpha_up, 1.0, 7.0)
    W(FT, "Incident wave angle beta", beta, 0.0, 90.0)
    W(FT, "Influence factor berm gamma_b", gamma_b, 0.4, 1.0)
    W(FT, "Influence factor roughness gamma_f", gamma_f, 0.4, 1.0)
    W(FT, "Influence factor oblique waves gamma_beta", gamma_beta, 0.4, 1.0)
    W(FT, "Influence factor vertical wall gamma_v", gamma_v, 0.4, 1.0)


@OT.fn("calculate_influence_oblique_waves_gamma_beta", dom=CO)
def oblique_o(W, beta, c_gamma_beta=0.0033, max_angle=80.0):
    return 1 - c_gamma_beta * min(abs(beta), max_angle)


@OT.fn("calculate_influence_crest_wall_gamma_v", dom=CO)
def wall_v(W, alpha_wall_deg):
    return 1.0 if alpha_wall_deg <= 45 else 1.35 - 0.0078 * alpha_wall_deg


@OT.fn("q_diml_max_equation", dom={"c3": ("u", 1, 4), "cor3": ("u", -0.5, 0.5), "c2": ("u", 0.05, 0.5)})
def ot_qmax(W, Hm0, Rc, gamma_beta, gamma_f, c3, cor3=0.0, c2=0.2):
    return c2 * ex(-(c3 + cor3) * Rc / (Hm0 * gamma_f * gamma_beta))


@OT.fn("Rc_diml_max_equation", dom={"c3": ("u", 1, 4), "cor3": ("u", -0.5, 0.5), "c2": ("u", 0.05, 0.5)}, atol=1e-12)
def ot_rmax(W, Hm0, q, gamma_beta, gamma_f, c3, cor3=0.0, c2=0.2, g=9.81):
    return ln(c2 * vol(Hm0, g) / q) * gamma_f * gamma_beta / (c3 + cor3)


DES = (1.75, 4.3, 1.6, 1.0)
DES_E = (1.75, 4.3, 1.5, 1.07)


def _geom(W, Hm0, Tmm10, gbeta, gb, gf, B, db, cot, cd, cu, c, c_gb):
    if composite(W, cot, cd, cu):
        W.margin = max(W.margin, 2e-3)
        z = _iter_z2p(W, Hm0, Tmm10, cd, cu, B, db, gf, gbeta, c)
        cot = avg_slope(W, Hm0, z, cd, cu, B, db)
    ksi = irib(Hm0, Tmm10, cot)
    if math.isnan(ksi):
        raise Skip()
    if isn(gb):
        L = berm_length(W, Hm0, B, cot, cd, cu)
        gb = _iter_gb(W, Hm0, Tmm10, cot, B, L, db, gf, gbeta, c_gb)
    return cot, ksi, gb, roughness(W, gf, gb, ksi)


def _taw(W, Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db, gamma_beta, gamma_b, gamma_f,
         gamma_v, sigma, use_best_fit):
    c1, c3 = (4.75, 2.6) if use_best_fit else (4.3, 2.3)
    if sigma != 0:
        if use_best_fit:
            c1 += 0.5 * sigma
            c3 += 0.35 * sigma
        else:
            W.note("Sigma")
    if need_gb(W, beta, gamma_beta):
        gamma_beta = oblique_o(W, beta)
    cot, ksi, gb, gfa = _geom(W, Hm0, Tmm10, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                              cot_alpha_up, DES, DES)
    ot_check(W, Hm0, Tmm10, beta, cot, cot_alpha_down, cot_alpha_up, gamma_f, gb, gamma_beta, gamma_v)
    return c1, c3, gamma_beta, cot, ksi, gb, gfa


def _pick(a, b):
    if math.isnan(a) or math.isnan(b):
        return nan, None
    return min(a, b), (None if near(a, b, 1e-9) else b < a)


@OT.fn("calculate_dimensionless_overtopping_discharge_q", dom=CO, fix=slope_fix, out="tuple", kind="iterative", bools=("use_best_fit",))
def ot_qd(W, Hm0, Tmm10, Rc, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, beta=nan, B_berm=0.0, db=0.0,
          gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, sigma=0, use_best_fit=False):
    c1, c3, gbe, cot, ksi, gb, gfa = _taw(W, Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db,
                                          gamma_beta, gamma_b, gamma_f, gamma_v, sigma, use_best_fit)
    a = 0.067 * sq(cot) * gb * ksi * ex(-c1 * Rc / Hm0 / (ksi * gb * gfa * gbe * gamma_v))
    b = 0.2 * ex(-c3 * Rc / (Hm0 * gfa * gbe))
    return _pick(a, b)


@OT.fn("calculate_overtopping_discharge_q", dom=CO, fix=slope_fix, out="tuple", kind="iterative", bools=("use_best_fit",))
def ot_q(W, Hm0, Tmm10, Rc, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, beta=nan, B_berm=0.0, db=0.0,
         gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, sigma=0, g=9.81, use_best_fit=False):
    q, m = ot_qd(W, Hm0, Tmm10, Rc, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db, gamma_beta, gamma_b,
                 gamma_f, gamma_v, sigma, use_best_fit)
    return q * vol(Hm0, g), m


@OT.fn("calculate_dimensionless_crest_freeboard", dom=CO, fix=slope_fix, out="tuple", kind="iterative", bools=("use_best_fit",), atol=1e-12)
def ot_rd(W, Hm0, Tmm10, q, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, beta=nan, B_berm=0.0, db=0.0,
          gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, sigma=0, g=9.81, use_best_fit=False):
    c1, c3, gbe, cot, ksi, gb, gfa = _taw(W, Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db,
                                          gamma_beta, gamma_b, gamma_f, gamma_v, sigma, use_best_fit)
    qs = q / vol(Hm0, g)
    a = ln(0.067 * sq(cot) * gb * ksi / qs) / c1 * ksi * gb * gfa * gbe * gamma_v
    b = ln(0.2 / qs) / c3 * gfa * gbe
    return _pick(a, b)


@OT.fn("calculate_crest_freeboard_Rc", dom=CO, fix=slope_fix, out="tuple", kind="iterative", bools=("use_best_fit",), atol=1e-12)
def ot_r(W, Hm0, Tmm10, q, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, beta=nan, B_berm=0.0, db=0.0,
         gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, sigma=0, g=9.81, use_best_fit=False):
    r, m = ot_rd(W, Hm0, Tmm10, q, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db, gamma_beta, gamma_b,
                 gamma_f, gamma_v, sigma, g, use_best_fit)
    return r * Hm0, m


# ---------------------------------------------------------------- EurOtop 2018 run-up
CE = dict(CO, gamma_f_crit=("u", 0.4, 0.8), c_gamma_beta_smooth=("u", 0.001, 0.005), c_gamma_beta_rough=("u", 0.004, 0.009))


@RE.fn("calculate_influence_oblique_waves_gamma_beta", dom=CE)
def oblique_re(W, beta, gamma_f, gamma_f_crit=0.6, c_gamma_beta_smooth=0.0022, c_gamma_beta_rough=0.0063, max_angle=80.0):
    return 1 - (c_gamma_beta_smooth if gamma_f > gamma_f_crit else c_gamma_beta_rough) * min(abs(beta), max_angle)


@RE.fn("check_best_fit", dom=CO, bools=("use_best_fit",), out="tuple")
def re_bf(W, c1, c2, c3, c4, use_best_fit):
    return TB if use_best_fit else (c1, c2, c3, c4)


@RE.fn("calculate_dimensionless_wave_runup_height_z2p", dom=CO, fix=slope_fix, out="tuple", kind="iterative", bools=("use_best_fit",))
def re_diml(W, Hm0, Tmm10, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan,
            cot_alpha_down=nan, cot_alpha_up=nan, c1=1.75, c2=4.3, c3=1.5, c4=1.07, use_best_fit=False):
    c = TB if use_best_fit else (c1, c2, c3, c4)
    if need_gb(W, beta, gamma_beta):
        gamma_beta = oblique_re(W, beta, gamma_f)
    return _runup_diml(W, Hm0, Tmm10, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, c)


@RE.fn("calculate_wave_runup_height_z2p", dom=CO, fix=slope_fix, out="tuple", kind="iterative", bools=("use_best_fit",))
def re_z2p(W, Hm0, Tmm10, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan,
           cot_alpha_down=nan, cot_alpha_up=nan, c1=1.75, c2=4.3, c3=1.5, c4=1.07, use_best_fit=False):
    z, m = re_diml(W, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                   cot_alpha_up, c1, c2, c3, c4, use_best_fit)
    return z * Hm0, m


@RE.fn("iteration_procedure_z2p", dom=CO, fix=_it_fix, kind="iterative", bools=("use_best_fit",), weight=0.4)
def re_iter(W, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, c1=1.75, c2=4.3, c3=1.5, c4=1.07,
            use_best_fit=False, tolerance=1e-4, max_iter=1000):
    return rt_iter(W, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, c1, c2, c3, c4,
                   use_best_fit, tolerance, max_iter)


@RE.fn("iteration_procedure_gamma_b", dom=CO, fix=_it_fix, bools=("use_best_fit",))
def re_gb(W, Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, c1=1.75, c2=4.3, c3=1.5, c4=1.07,
          use_best_fit=False, gamma_f=1.0):
    return rt_gb(W, Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, c1, c2, c3, c4, use_best_fit, gamma_f)


# ---------------------------------------------------------------- EurOtop 2018 overtopping
CQ = dict(CE, c1=("u", 1.5, 4), c2=("u", 0.05, 0.2), c3=("u", 1, 2), c4=("u", 0.01, 0.05))
FE = "EurOtop (2018) - rubble mound"
EB = (2.7, 0.09, 1.5, 0.023)


@OE.fn("check_validity_range_rubble_mound", out="none")
def oe_check(W, cot_alpha=nan):
    W(FE, "Cotangent alpha", cot_alpha, 4.0 / 3.0, 2.0)


@OE.fn("check_best_fit", dom=CQ, bools=("use_best_fit",), out="tuple")
def oe_bf(W, c1, c2, c3, c4, use_best_fit):
    return EB if use_best_fit else (c1, c2, c3, c4)


@OE.fn("calculate_influence_oblique_waves_gamma_beta", dom=CQ)
def oblique_oe(W, beta, gamma_f, gamma_f_crit=0.6, c_gamma_beta_smooth=0.0033, c_gamma_beta_rough=0.0063, max_angle=80.0):
    return 1 - (c_gamma_beta_smooth if gamma_f > gamma_f_crit else c_gamma_beta_rough) * min(abs(beta), max_angle)


@OE.fn("q_diml_max_equation", dom=CQ)
def oe_qmax(W, Hm0, Rc, gamma_beta=nan, gamma_f=1.0, gamma_star=1.0, c2=0.1035, c3=1.35):
    return c2 * ex(-pw(c3 * Rc / (Hm0 * gamma_f * gamma_beta * gamma_star), 1.3))


@OE.fn("Rc_diml_max_equation", dom=CQ)
def oe_rmax(W, Hm0, q, gamma_beta=nan, gamma_f=1.0, gamma_star=1.0, c2=0.1035, c3=1.35, g=9.81):
    x = ln(c2 * vol(Hm0, g) / q)
    if near(x, 0, 1e-9) or abs(x) < 1e-7:
        raise Skip()
    return pw(x, 1 / 1.3) * gamma_f * gamma_beta * gamma_star / c3


def _eur(W, Hm0, Tmm10, beta, gbe, gb, gf, B, db, cot, cd, cu, best):
    if need_gb(W, beta, gbe):
        gbe = oblique_oe(W, beta, gf)
    return (gbe,) + _geom(W, Hm0, Tmm10, gbe, gb, gf, B, db, cot, cd, cu, TB if best else DES_E, DES_E)


KW = dict(dom=CQ, fix=slope_fix, kind="iterative", bools=("use_best_fit",))


@OE.fn("calculate_dimensionless_overtopping_discharge_q", out="tuple", **KW)
def oe_qd(W, Hm0, Tmm10, Rc, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, gamma_star=1.0, B_berm=0.0,
          db=0.0, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, c1=2.5, c2=0.1035, c3=1.35, c4=0.026,
          use_best_fit=False):
    c1, c2, c3, c4 = EB if use_best_fit else (c1, c2, c3, c4)
    gbe, cot, ksi, gb, gfa = _eur(W, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                  cot_alpha_down, cot_alpha_up, use_best_fit)
    a = c4 * sq(cot) * gb * ksi * ex(-pw(c1 * Rc / Hm0 / (ksi * gb * gfa * gbe * gamma_v), 1.3))
    b = c2 * ex(-pw(c3 * Rc / (Hm0 * gfa * gbe * gamma_star), 1.3))
    return _pick(a, b)


@OE.fn("calculate_overtopping_discharge_q", out="tuple", **KW)
def oe_q(W, Hm0, Tmm10, Rc, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, gamma_star=1.0, B_berm=0.0,
         db=0.0, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, c1=2.5, c2=0.1035, c3=1.35, c4=0.026,
         use_best_fit=False, g=9.81):
    q, m = oe_qd(W, Hm0, Tmm10, Rc, beta, gamma_beta, gamma_b, gamma_f, gamma_v, gamma_star, B_berm, db, cot_alpha,
                 cot_alpha_down, cot_alpha_up, c1, c2, c3, c4, use_best_fit)
    return q * vol(Hm0, g), m


@OE.fn("calculate_dimensionless_crest_freeboard", out="tuple", **KW)
def oe_rd(W, Hm0, Tmm10, q, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, gamma_star=1.0, B_berm=0.0,
          db=0.0, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, c1=2.5, c2=0.1035, c3=1.35, c4=0.026,
          use_best_fit=False, g=9.81):
    c1, c2, c3, c4 = EB if use_best_fit else (c1, c2, c3, c4)
    gbe, cot, ksi, gb, gfa = _eur(W, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                  cot_alpha_down, cot_alpha_up, use_best_fit)
    qs = q / vol(Hm0, g)
    xa = ln(c4 * sq(cot) * gb * ksi / qs)
    xb = ln(c2 / qs)
    if abs(xa) < 1e-7 or abs(xb) < 1e-7:
        raise Skip()
    a = pw(xa, 1 / 1.3) / c1 * ksi * gb * gfa * gbe * gamma_v
    b = pw(xb, 1 / 1.3) / c3 * gfa * gbe * gamma_star
    return _pick(a, b)


@OE.fn("calculate_crest_freeboard_Rc", out="tuple", **KW)
def oe_r(W, Hm0, Tmm10, q, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, gamma_star=1.0, B_berm=0.0,
         db=0.0, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, c1=2.5, c2=0.1035, c3=1.35, c4=0.026,
         use_best_fit=False, g=9.81):
    r, m = oe_rd(W, Hm0, Tmm10, q, beta, gamma_beta, gamma_b, gamma_f, gamma_v, gamma_star, B_berm, db, cot_alpha,
                 cot_alpha_down, cot_alpha_up, c1, c2, c3, c4, use_best_fit, g)
    return r * Hm0, m


def _rub(W, Hm0, Tmm10, beta, gbe, gf, B, db, cot, cd, cu, best):
    if need_gb(W, beta, gbe):
        gbe = oblique_oe(W, beta, gf)
    cot, ksi, _, gfa = _geom(W, Hm0, Tmm10, gbe, 1.0, gf, B, db, cot, cd, cu, TB if best else DES_E, DES_E)
    oe_check(W, cot)
    return gbe, gfa


@OE.fn("calculate_dimensionless_overtopping_discharge_q_rubble_mound", **KW)
def oe_qdr(W, Hm0, Tmm10, Rc, beta=nan, gamma_beta=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan, cot_alpha_down=nan,
           cot_alpha_up=nan, c2=0.1035, c3=1.35, use_best_fit=False):
    _, c2, c3, _ = EB if use_best_fit else (0, c2, c3, 0)
    gbe, gfa = _rub(W, Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, use_best_fit)
    return c2 * ex(-pw(c3 * Rc / (Hm0 * gfa * gbe), 1.3))


@OE.fn("calculate_overtopping_discharge_q_rubble_mound", **KW)
def oe_qr(W, Hm0, Tmm10, Rc, beta=nan, gamma_beta=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan, cot_alpha_down=nan,
          cot_alpha_up=nan, c2=0.1035, c3=1.35, use_best_fit=False, g=9.81):
    return vol(Hm0, g) * oe_qdr(W, Hm0, Tmm10, Rc, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                                cot_alpha_up, c2, c3, use_best_fit)


@OE.fn("calculate_dimensionless_crest_freeboard_rubble_mound", **KW)
def oe_rdr(W, Hm0, Tmm10, q, beta=nan, gamma_beta=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan, cot_alpha_down=nan,
           cot_alpha_up=nan, c2=0.1035, c3=1.35, use_best_fit=False, g=9.81):
    _, c2, c3, _ = EB if use_best_fit else (0, c2, c3, 0)
    gbe, gfa = _rub(W, Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, use_best_fit)
    return oe_rmax(W, Hm0, q, gbe, gfa, 1.0, c2, c3, g)


@OE.fn("calculate_crest_freeboard_Rc_rubble_mound", **KW)
def oe_rr(W, Hm0, Tmm10, q, beta=nan, gamma_beta=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan, cot_alpha_down=nan,
          cot_alpha_up=nan, c2=0.1035, c3=1.35, use_best_fit=False, g=9.81):
    return Hm0 * oe_rdr(W, Hm0, Tmm10, q, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up,
                        c2, c3, use_best_fit, g)


# ---------------------------------------------------------------- EurOtop 2007
C7 = {"c2": ("u", 0.1, 0.4), "c3": ("u", 1.5, 3.5)}


def _o7fix(rng, a):
    a.setdefault("cot_alpha", float(rng.uniform(1, 6)))
    return ob_fix(rng, a)


K7 = dict(dom=C7, fix=_o7fix, bools=("use_best_fit",))


@O7.fn("check_best_fit", dom=C7, bools=("use_best_fit",), out="tuple")
def o7_bf(W, c2, c3, use_best_fit):
    return (0.2, 2.6) if use_best_fit else (c2, c3)


def _o7(W, Hm0, Tmm10, beta, gbe, gf, cot):
    if need_gb(W, beta, gbe):
        gbe = oblique_t(W, beta)
    return gbe * roughness(W, gf, 1.0, irib(Hm0, Tmm10, cot))


@O7.fn("calculate_dimensionless_overtopping_discharge_q_rubble_mound", **K7)
def o7_qd(W, Hm0, Tmm10, Rc, beta=nan, gamma_beta=nan, gamma_f=1.0, cot_alpha=nan, c2=0.2, c3=2.3, use_best_fit=False):
    c2, c3 = (0.2, 2.6) if use_best_fit else (c2, c3)
    return c2 * ex(-c3 * Rc / Hm0 / _o7(W, Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha))


@O7.fn("calculate_overtopping_discharge_q_rubble_mound", **K7)
def o7_q(W, Hm0, Tmm10, Rc, beta=nan, gamma_beta=nan, gamma_f=1.0, cot_alpha=nan, c2=0.2, c3=2.3, use_best_fit=False, g=9.81):
    return vol(Hm0, g) * o7_qd(W, Hm0, Tmm10, Rc, beta, gamma_beta, gamma_f, cot_alpha, c2, c3, use_best_fit)


@O7.fn("calculate_dimensionless_crest_freeboard_rubble_mound", atol=1e-12, **K7)
def o7_rd(W, Hm0, Tmm10, q, beta=nan, gamma_beta=nan, gamma_f=1.0, cot_alpha=nan, c2=0.2, c3=2.3, use_best_fit=False):
    c2, c3 = (0.2, 2.6) if use_best_fit else (c2, c3)
    return ln(c2 * vol(Hm0, 9.81) / q) / c3 * _o7(W, Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha)


@O7.fn("calculate_crest_freeboard_Rc_rubble_mound", atol=1e-12, **K7)
def o7_r(W, Hm0, Tmm10, q, beta=nan, gamma_beta=nan, gamma_f=1.0, cot_alpha=nan, c2=0.2, c3=2.3, use_best_fit=False):
    return Hm0 * o7_rd(W, Hm0, Tmm10, q, beta, gamma_beta, gamma_f, cot_alpha, c2, c3, use_best_fit)
