"""Registry of the reference model.

The reference model is a second, scalar implementation of the published design
formulas, written from the documentation of the toolbox and the publications it
cites.  It never imports the code under test.  Each reference function computes,
for one set of scalar arguments, the value a user may rely on, the validity-range
warnings that have to be given, and whether the input has to be rejected.
"""

import inspect
import math

import numpy as np

nan = float("nan")


class Skip(Exception):
    """The model makes no statement about this input."""


class Reject(Exception):
    """The input has to be rejected with this exception type (default ValueError)."""

    def __init__(self, types=(ValueError,)):
        self.types = types


class Warn:
    """Collects the validity statements the model makes about one evaluation."""

    def __init__(self, raw=()):
        # raw: the values the caller passed; a checked value equal to one of these
        # is not the result of arithmetic, so the inclusive bound is decided exactly
        self.raw = set(raw)
        self.out = []  # (label, formula, lo, hi, value)
        self.tie = []  # (label, formula, lo, hi)
        self.inside = 0
        self.notes = []
        self.may = set()  # keys that may or may not be reported (intermediate iterates)
        self.margin = 0.0  # relative margin around a bound that is left undecided
        self._opt = 0
        self.log = None  # every checked value, for steering the workload to the limits

    def optional(self):
        return _Optional(self)

    def __call__(self, formula, label, value, lo, hi, exact=True):
        value = float(value)
        if math.isnan(value):
            return
        lo_f, hi_f = float(lo), float(hi)
        key = (label, formula, lo_f, hi_f)
        if self.log is not None:
            self.log.append(key + (value,))
        if self._opt:
            self.may.add(key)
            return
        if not exact or value not in self.raw:
            for b in (lo_f, hi_f):
                if math.isfinite(b) and abs(value - b) <= max(1e-9, self.margin) * max(abs(b), abs(value), 1e-30) + 1e-13:
                    self.tie.append(key)
                    return
        if value < lo_f or value > hi_f:
            self.out.append(key + (value,))
        else:
            self.inside += 1

    def note(self, text):
        self.notes.append(text)

    def flag(self, label, formula="Goda (2000)"):
        """a condition that is reported as a warning when it is met"""
        key = (label, formula, 0.0, 0.0)
        if self._opt:
            self.may.add(key)
        else:
            self.out.append(key + (1.0,))


class _Optional:
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.w._opt += 1

    def __exit__(self, *a):
        self.w._opt -= 1


# MODE 0: iterate as documented (to the documented tolerance); MODE 1: iterate to
# convergence.  The two results bound what a tolerance-respecting solver may return.
MODE = [0]


def near(a, b, r=1e-9):
    return abs(a - b) <= r * max(abs(a), abs(b), 1e-300)


class Fn:
    def __init__(self, module, name, func, **kw):
        self.module = module
        self.name = name
        self.func = func
        sig = inspect.signature(func)
        self.params = [p for p in list(sig.parameters)[1:]]
        self.defaults = {
            p: sig.parameters[p].default
            for p in self.params
            if sig.parameters[p].default is not inspect._empty
        }
        self.dom = kw.pop("dom", {})
        self.noarray = kw.pop("noarray", ())  # True or tuple of parameter names
        self.out = kw.pop("out", "value")  # value | tuple | dict | none
        self.rtol = kw.pop("rtol", 1e-9)
        self.atol = kw.pop("atol", 0.0)
        self.warn = kw.pop("warn", "exact")  # exact | superset | none
        self.groups = kw.pop("groups", None)  # alternative required combinations
        self.fix = kw.pop("fix", None)  # post-processing of sampled arguments
        self.bools = kw.pop("bools", ())
        self.kind = kw.pop("kind", "closed")  # closed | iterative | special
        self.scal = kw.pop("scal", ())  # parameters documented as scalars only
        self.weight = kw.pop("weight", 1.0)
        self.near = kw.pop("near", None)  # near-tie predicate: True -> do not compare
        self.flat = kw.pop("flat", ())
        # parameters on which the model is discontinuous exactly at a documented value
        self.exact = kw.pop("exact", ())
        assert not kw, kw

    @property
    def key(self):
        return self.module + "." + self.name

    @property
    def required(self):
        return [p for p in self.params if p not in self.defaults]


REG = {}
PROPS = {}  # published unit properties, by module


class Mod:
    def __init__(self, path, group):
        self.path = path
        self.group = group

    def fn(self, name=None, **kw):
        def deco(f):
            e = Fn(self.path, name or f.__name__, f, **kw)
            e.group = self.group
            assert e.key not in REG, e.key
            REG[e.key] = e
            f.entry = e
            return f

        return deco


# --- small numeric helpers shared by the references (scalars) -------------------
def isn(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def given(*xs):
    return not any(isn(x) for x in xs)


def pw(a, b):
    """power that is nan instead of complex / an exception outside its domain"""
    try:
        r = math.pow(a, b)
    except (ValueError, OverflowError, ZeroDivisionError):
        return nan
    return r


def sq(a):
    return math.sqrt(a) if a >= 0 else nan


def ex(a):
    if math.isnan(a):
        return nan
    if a > 700:
        return float("inf")
    return math.exp(a)


def ln(a):
    return math.log(a) if a > 0 else nan


def dv(a, b):
    return a / b if b != 0 else nan


def steep(H, T, g=9.81):
    return dv(2 * math.pi * H, g * T * T)


def irib(H, T, cot):
    s = steep(H, T)
    return dv(1.0, cot * sq(s)) if s > 0 else nan


def cosd(x):
    return math.cos(math.radians(x))


def sind(x):
    return math.sin(math.radians(x))


def delta_(rho_rock, rho_water):
    return dv(rho_rock - rho_water, rho_water)


def wavenumber(T, h, g=9.81):
    """solution of w^2 = g k tanh(k h), by bisection/Newton to machine precision"""
    w2 = (2 * math.pi / T) ** 2
    x0 = w2 * h / g
    lo, hi = 0.0, max(x0, math.sqrt(x0)) * 2 + 1
    x = x0 / math.sqrt(math.tanh(x0)) if x0 > 1e-12 else math.sqrt(x0)
    for _ in range(60):
        t = math.tanh(x)
        f = x * t - x0
        d = t + x * (1 - t * t)
        nx = x - f / d
        if not (lo < nx < hi):
            nx = 0.5 * (lo + hi)
        if abs(nx - x) <= 1e-15 * x:
            x = nx
            break
        x = nx
    return x / h


def wavelength(T, h, g=9.81):
    return 2 * math.pi / wavenumber(T, h, g)


# --- default parameter domains, by name ------------------------------------------
# ("l", lo, hi) log-uniform, ("u", lo, hi) uniform, ("c", [..]) choice
DOM = {
    "H": ("l", 0.05, 12.0), "T": ("l", 1.0, 25.0),
    "Hm0": ("l", 0.05, 12.0), "Hs": ("l", 0.05, 12.0), "H2p": ("l", 0.05, 15.0),
    "Tmm10": ("l", 1.0, 25.0), "Tm": ("l", 1.0, 25.0), "Tp": ("l", 1.0, 25.0), "Tm02": ("l", 1.0, 25.0),
    "cot_alpha": ("l", 1.0, 12.0), "cot_alpha_down": ("l", 1.0, 12.0), "cot_alpha_up": ("l", 1.0, 12.0),
    "Rc": ("l", 0.05, 15.0), "q": ("l", 1e-7, 1.0),
    "gamma_f": ("u", 0.3, 1.0), "gamma_beta": ("u", 0.4, 1.0), "gamma_b": ("u", 0.5, 1.0),
    "gamma_v": ("u", 0.4, 1.0), "gamma_p": ("u", 0.4, 1.0), "gamma_star": ("u", 0.3, 1.0),
    "beta": ("u", 0.0, 89.0), "theta": ("u", -80.0, 80.0),
    "g": ("u", 1.5, 15.0), "rho_water": ("u", 950.0, 1100.0), "rho_rock": ("u", 1800.0, 3300.0),
    "rho_armour": ("u", 1800.0, 3300.0), "rho_concrete": ("u", 1900.0, 2900.0), "rho_c": ("u", 1900.0, 2900.0),
    "Dn50": ("l", 0.05, 4.0), "M50": ("l", 1.0, 40000.0), "Dn": ("l", 0.2, 5.0),
    "P": ("u", 0.05, 0.65), "N_waves": ("l", 100.0, 12000.0), "S": ("l", 0.5, 25.0), "Nod": ("l", 0.02, 6.0),
    "h": ("l", 0.3, 40.0), "Delta": ("u", 0.5, 2.5), "Ns": ("l", 0.3, 6.0),
}
