"""Concrete armour units."""
import math
from ..model import Mod, Skip, nan, given, pw, steep, delta_, PROPS, MODE
from .d_rock import hu_m, hu_h

P_ = "structural.stability_concrete_armour."
D = {"KD": ("u", 2, 30), "alpha_Hs": ("u", 1, 1.6), "cot_alpha": ("u", 1.0, 3.0), "M": ("l", 5.0, 60000.0),
     "V": ("l", 0.01, 30.0), "seabed_slope_perc": ("u", -1.0, 14.0), "rho_armour": ("u", 1900, 3300),
     "total_correction_factor": ("u", 1.0, 4.0), "s0m": ("l", 0.003, 0.09), "Dn": ("l", 0.1, 4.0), "Nod": ("l", 0.02, 4),
     "Ns": ("u", 1.5, 4), "perc_slope": ("u", 0.5, 15), "rel_freeboard": ("u", 0, 2), "rel_depth": ("u", 1, 5),
     "design_event_occurs_frequently": ("c", [True, False]), "low_core_permeability": ("c", [True, False]),
     "core_impermeable": ("c", [True, False])}

PROPS[P_ + "accropode_hudson1959"] = {
    "KD": {"trunk_non_breaking": 15.0, "trunk_breaking": 12.0, "head_non_breaking": 11.5, "head_breaking": 9.5},
    "kt": 1.29, "nlayers": 1}
PROPS[P_ + "accropode2_hudson1959"] = {
    "KD": {"trunk_breaking_min": 9.0, "trunk_breaking_max": 16.0, "trunk_nonbreaking": 16.0}, "kt": 1.52}
PROPS[P_ + "core_loc_hudson1959"] = {"KD": {"trunk": 16.0, "head": 13.0}, "kt": 1.516, "nlayers": 1}
PROPS[P_ + "cubes_single_layer_vangent2002"] = {"kt": 1.0, "nlayers": 1}
PROPS[P_ + "cubes_double_layer_vandermeer1988"] = {
    "nv": 0.47, "kt": 1.10, "nlayers": 2, "Delta_x_fact_Dn": 1.7, "Delta_y_fact_Dn": 0.85}
PROPS[P_ + "cubes_double_layer_hudson1959"] = {
    "KD": {"double_layer_trunk_non_breaking": 7.5, "double_layer_trunk_breaking": 6.5,
           "double_layer_head_non_breaking": 5.0, "double_layer_head_breaking": None},
    "nv": 0.47, "kt": 1.10, "nlayers": 2, "Delta_x_fact_Dn": 1.7, "Delta_y_fact_Dn": 0.85}
PROPS[P_ + "cubipod_hudson1959"] = {
    "KD": {"trunk_double_layer": 28, "trunk_single_layer": 12, "head_double_layer": 7, "head_single_layer": 5},
    "kt": 1.0, "nlayers": [1, 2]}
PROPS[P_ + "tetrapod_hudson1959"] = {
    "KD": {"trunk_non_breaking": 8.0, "trunk_breaking": 7.0, "head_non_breaking": 5.5, "head_breaking": 4.5},
    "nv": 0.5, "kt": 1.02, "nlayers": 2}
PROPS[P_ + "xbloc"] = {"KD": {"trunk_breaking": 16, "head_breaking": 13}, "kt": 1.40, "nlayers": 1}
PROPS[P_ + "xblocplus"] = {"KD": {"trunk_breaking": 12}, "kt": 1.33, "nlayers": 1}


def hudson(mod, label, docname, table, kd_nb, default_cot, checked):
    m = Mod(P_ + mod, "concrete")
    if checked:
        @m.fn("check_validity_range", dom=D, out="none")
        def chk(W, cot_alpha=nan, seabed_slope_perc=nan):
            W(label, "Cotangent of the front-side slope of the structure", cot_alpha, 1.33, 1.5)
            W(docname, "Seabed slope in percentage", seabed_slope_perc, 0.0, 10.0)
    else:
        @m.fn("check_validity_range", out="none")
        def chk(W):
            return None

    def mass(W, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs):
        r = hu_m(W, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)
        if checked:
            chk(W, cot_alpha=cot_alpha)
        return r

    def wave(W, M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs):
        r = hu_h(W, M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)
        if checked:
            chk(W, cot_alpha=cot_alpha)
        return r

    if default_cot:
        @m.fn("calculate_unit_mass_M", dom=D)
        def f1(W, Hs, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
            return mass(W, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)

        @m.fn("calculate_significant_wave_height_Hs", dom=D)
        def f2(W, M, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
            return wave(W, M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)
    else:
        @m.fn("calculate_unit_mass_M", dom=D)
        def f3(W, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.0):
            return mass(W, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)

        @m.fn("calculate_significant_wave_height_Hs", dom=D)
        def f4(W, M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.0):
            return wave(W, M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)

    if table:
        # kind "iterative": where rounding decides, both neighbours of the 0.1 grid are admissible
        @m.fn("calculate_KD_breaking_trunk_from_seabed_slope", dom=D, kind="iterative")
        def kd(W, seabed_slope_perc):
            xs, ys = (0.0, 1.0, 5.0, 10.0), table
            x = seabed_slope_perc
            if x <= xs[0]:
                y = ys[0]
            elif x >= xs[-1]:
                y = ys[-1]
            else:
                i = max(j for j in range(3) if xs[j] <= x)
                y = ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
            t = y / 0.1
            chk(W, seabed_slope_perc=seabed_slope_perc)
            if abs(t - round(t)) < 1e-8:
                return (round(t) - MODE[0]) * 0.1
            return math.floor(t) * 0.1

        @m.fn("calculate_KD_nonbreaking_trunk_from_seabed_slope", dom=D)
        def kn(W):
            return kd_nb


hudson("accropode_hudson1959", "Accropodes Hudson 1959", "Accropode documentation", (15, 15, 9.7, 8), 15.0, True, True)
hudson("accropode2_hudson1959", "Accropode II Hudson 1959", "Accropode II documentation", (16, 16, 10.66, 9), 16.0, True, True)
hudson("core_loc_hudson1959", "Core Loc Hudson 1959", "Core Loc documentation", (16, 16, 10.66, 9), 16.0, True, True)
hudson("cubes_double_layer_hudson1959", None, None, None, None, False, False)
hudson("cubipod_hudson1959", None, None, None, None, True, False)
hudson("tetrapod_hudson1959", None, None, None, None, False, False)

# ------------------------------------------------------------------ double layer cubes
C2 = Mod(P_ + "cubes_double_layer_vandermeer1988", "concrete")
FC = "Double layer cubes vander Meer 1988"


@C2.fn("check_validity_range", dom=D, out="none")
def c2_chk(W, Hs=nan, Tm=nan, rho_armour=nan, N_waves=nan, cot_alpha=nan):
    W(FC, "Significant wave height Hs", Hs, 0.01, 20)
    W(FC, "Number of waves N_waves", N_waves, 0, 7500)
    W(FC, "Wave period Tm", Tm, 0.5, 30)
    W(FC, "Armour density rho_armour", rho_armour, 2000, 3100)
    W(FC, "Cotangent of outer structure slope cot_alpha", cot_alpha, 1.5, 1.5)
    if given(Hs, Tm):
        W(FC, "Wave steepness using Tm and Hs", steep(Hs, Tm), 0.005, 0.07)


@C2.fn("calculate_nominal_diameter_Dn_vanDerMeer1988", dom=D)
def c2_dn(W, Hs, Tm, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    ns = (6.7 * pw(Nod, 0.4) * pw(N_waves, -0.3) + 1) * pw(steep(Hs, Tm), -0.1)
    c2_chk(W, Hs, Tm, rho_armour, N_waves, cot_alpha)
    return Hs / (delta_(rho_armour, rho_water) * ns)


def _tm(Hs, s):
    return math.sqrt(2 * math.pi * Hs / (9.81 * s))


@C2.fn("calculate_wave_height_Hs_vanDerMeer1988", dom=D)
def c2_hs(W, Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    Hs = (6.7 * pw(Nod, 0.4) * pw(N_waves, -0.3) + 1) * pw(s0m, -0.1) * delta_(rho_armour, rho_water) * Dn
    c2_chk(W, Hs, _tm(Hs, s0m), rho_armour, N_waves, cot_alpha)
    return Hs


def _nodfix(rng, a):
    if rng.random() < 0.85:
        a["Dn"] = a["Hs"] / float(rng.uniform(1.5, 4.0)) / 1.4
    return a


@C2.fn("calculate_damage_Nod_vanDerMeer1988", dom=D, fix=_nodfix)
def c2_nod(W, Hs, Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha):
    ns = Hs / (delta_(rho_armour, rho_water) * Dn)
    x = (ns / pw(s0m, -0.1) - 1) * pw(N_waves, 0.3) / 6.7
    c2_chk(W, Hs, _tm(Hs, s0m), rho_armour, N_waves, cot_alpha)
    return pw(x, 2.5) if x > 1e-6 else nan


# ------------------------------------------------------------------ single layer cubes
C1 = Mod(P_ + "cubes_single_layer_vangent2002", "concrete")


@C1.fn("check_validity_range", out="none")
def c1_chk(W):
    return None


def _c1m(Hs, rw, ra, Ns):
    return ra * (Hs / (delta_(ra, rw) * Ns)) ** 3


def _c1h(M, rw, ra, Ns):
    return Ns * delta_(ra, rw) * pw(M / ra, 1 / 3)


@C1.fn("calculate_unit_mass_M_start_of_damage", dom=D)
def c1a(W, Hs, rho_water, rho_armour, Ns=2.9):
    return _c1m(Hs, rho_water, rho_armour, Ns)


@C1.fn("calculate_unit_mass_M_failure", dom=D)
def c1b(W, Hs, rho_water, rho_armour, Ns=3.5):
    return _c1m(Hs, rho_water, rho_armour, Ns)


@C1.fn("calculate_significant_wave_height_Hs_start_of_damage", dom=D)
def c1c(W, M, rho_water, rho_armour, Ns=2.9):
    return _c1h(M, rho_water, rho_armour, Ns)


@C1.fn("calculate_significant_wave_height_Hs_failure", dom=D)
def c1d(W, M, rho_water, rho_armour, Ns=3.5):
    return _c1h(M, rho_water, rho_armour, Ns)


# ------------------------------------------------------------------ Xbloc / XblocPlus
def xb(mod, ns, freeboard, perm):
    m = Mod(P_ + mod, "concrete")

    @m.fn("check_validity_range", out="none")
    def chk(W):
        return None

    @m.fn("calculate_wave_height_Hs_from_V", dom=D)
    def hv(W, V, rho_water, rho_armour, total_correction_factor=1.0):
        return ns * delta_(rho_armour, rho_water) * pw(V / total_correction_factor, 1 / 3)

    @m.fn("calculate_wave_height_Hs_from_M", dom=D)
    def hm(W, M, rho_water, rho_armour, total_correction_factor=1.0):
        return hv(W, M / rho_armour, rho_water, rho_armour, total_correction_factor)

    @m.fn("calculate_unit_volume_V", dom=D)
    def vol(W, Hs, rho_water, rho_armour, total_correction_factor=1.0):
        return total_correction_factor * (Hs / (ns * delta_(rho_armour, rho_water))) ** 3

    @m.fn("calculate_unit_mass_M", dom=D)
    def mass(W, Hs, rho_water, rho_armour, total_correction_factor=1.0):
        return vol(W, Hs, rho_water, rho_armour, total_correction_factor) * rho_armour

    @m.fn("calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", dom={"cot_alpha": ("u", 3, 50)},
          exact=("cot_alpha",))
    def cot(W, cot_alpha):
        for lim, f in ((10, 2.0), (15, 1.5), (20, 1.25), (30, 1.1)):
            if cot_alpha <= lim:
                return f
        return 1.0

    @m.fn("calculate_correctionfactor_unit_mass_M_by_percslope_seabed", dom=D)
    def perc(W, perc_slope):
        return cot(W, 100 / perc_slope)

    @m.fn("calculate_correctionfactor_unit_mass_M_by_relative_freeboard", dom=D, exact=("rel_freeboard",))
    def fb(W, rel_freeboard):
        return freeboard[0] if rel_freeboard < 0.5 else freeboard[1] if rel_freeboard < 1.0 else 1.0

    @m.fn("switch_correctionfactor_unit_mass_M_by_core_permeability", dom=D, noarray=True,
          bools=("low_core_permeability", "core_impermeable"))
    def pm(W, low_core_permeability=False, core_impermeable=False):
        return perm[1] if core_impermeable else perm[0] if low_core_permeability else 1.0

    return m


X = xb("xbloc", 2.77, (2.0, 1.5), (1.5, 2.0))
xb("xblocplus", 2.5, (1.5, 1.25), (1.25, 1.5))


@X.fn("calculate_correctionfactor_unit_mass_M_by_rel_depth", dom=D, exact=("rel_depth",))
def x_depth(W, rel_depth):
    return 2.0 if rel_depth > 3.5 else 1.5 if rel_depth > 2.5 else 1.0


@X.fn("switch_correction_factor_unit_mass_M_near_design_event_frequency", dom=D, noarray=True,
      bools=("design_event_occurs_frequently",))
def x_freq(W, design_event_occurs_frequently=False):
    return 1.25 if design_event_occurs_frequently else 1.0


@X.fn("calculate_correctionfactor_unit_mass_M_by_structure_slope", dom={"cot_alpha": ("u", 0.2, 4)}, exact=("cot_alpha",))
def x_slope(W, cot_alpha):
    # recorded behaviour (known finding): the limits of the published table, which are tangents, are applied to the cotangent
    if cot_alpha in (2 / 3, 0.5):
        raise Skip()
    return 1.25 if cot_alpha > 2 / 3 else 1.5 if cot_alpha > 0.5 else 1.0
