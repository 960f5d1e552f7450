"""Core physics and the validity-range helper."""
import math
from ..model import *  # noqa: F401,F403
from ..model import Mod, Reject, Skip, nan, isn, given, pw, sq, ln, ex, dv, steep, irib, delta_, wavelength

M = Mod("core_physics", "core")


@M.fn()
def calculate_wave_steepness_s(W, H, T, g=9.81):
    return H * 2 * math.pi / (g * T ** 2)


@M.fn()
def calculate_Iribarren_number_ksi(W, H, T, cot_alpha):
    return (1 / cot_alpha) / sq(H / (9.81 * T ** 2 / (2 * math.pi)))


@M.fn(dom={"c_pl": ("u", 3, 10), "c_s": ("u", 0.5, 2)})
def calculate_critical_Iribarren_number_ksi_mc(W, c_pl, c_s, P, cot_alpha):
    return pw(c_pl / c_s * pw(P, 0.31) / sq(cot_alpha), 1 / (0.5 + P))


@M.fn(dom={"D": ("l", 0.05, 4)})
def calculate_stability_number_Ns(W, H, D, rho_rock, rho_water):
    return H / (D * delta_(rho_rock, rho_water))


@M.fn()
def calculate_buoyant_density_Delta(W, rho_rock, rho_water):
    return rho_rock / rho_water - 1


@M.fn()
def calculate_M50_from_Dn50(W, Dn50, rho_rock=2650):
    return rho_rock * Dn50 ** 3


@M.fn()
def calculate_Dn50_from_M50(W, M50, rho_rock=2650):
    return math.exp(math.log(M50 / rho_rock) / 3)


def _dn_fix(rng, a):
    r = rng.random()
    if r < 0.15:
        a["Dn50"] = nan
        a["M50"] = nan
    elif r < 0.45:
        a["M50"] = nan
    elif r < 0.85:
        a["Dn50"] = nan
    if rng.random() < 0.25:
        a["rho_rock"] = nan
    return a


@M.fn(fix=_dn_fix)
def check_usage_Dn50_or_M50(W, Dn50, M50, rho_rock):
    if isn(Dn50) and isn(M50):
        raise Reject()
    if not isn(Dn50):
        return Dn50
    if isn(rho_rock):
        W.note("2650")
        rho_rock = 2650
    return calculate_Dn50_from_M50(W, M50, rho_rock)


_G = {"G": ("u", 0.8, 2.0), "nv": ("u", 0.2, 0.6)}


@M.fn(dom=_G)
def calculate_S_from_Nod(W, Nod, G, nv):
    return Nod / (G * (1 - nv))


@M.fn(dom=_G)
def calculate_Nod_from_S(W, S, G, nv):
    return S * G * (1 - nv)


def _sn_fix(rng, a):
    a = {k: a.get(k, float(rng.uniform(0.5, 3))) for k in ("Hs", "Dn", "Delta", "Ns")}
    r = rng.random()
    ks = list(a)
    if r < 0.1:
        return a
    n = 1 if r < 0.85 else int(rng.integers(2, 5))
    for k in rng.permutation(ks)[:n]:
        if rng.random() < 0.5:
            a[str(k)] = None
        else:
            del a[str(k)]
    return a


@M.fn(fix=_sn_fix, out="tuple")
def check_usage_stabilitynumber(W, Hs=None, Dn=None, Delta=None, Ns=None):
    if sum(x is None for x in (Hs, Dn, Delta, Ns)) != 1:
        raise Reject()
    if Hs is None:
        return Ns * Delta * Dn, "Hs"
    if Dn is None:
        return Hs / (Ns * Delta), "Dn"
    if Delta is None:
        return Hs / (Ns * Dn), "Delta"
    return Hs / (Delta * Dn), "Ns"


@M.fn(dom={"h": ("l", 0.2, 200), "g": ("u", 1.5, 15)}, rtol=2e-4, weight=0.5)
def calculate_local_wavelength(W, T, h, g=9.81):
    # the dispersion solver documents an approximation; the exact relation is the
    # oracle of the core-physics check
    return wavelength(T, h, g)
