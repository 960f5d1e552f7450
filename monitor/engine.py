"""Runs the real code and observes it: calls, warnings, exceptions, results."""
import ast
import importlib
import inspect
import math
import os
import pkgutil
import re
import signal
import sys
import threading
import time
import types
import warnings

import numpy as np

from . import model
from .model import REG, Reject, Skip, Warn

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "deltares_coastal_structures_toolbox"
BASE = PKG + ".functions."


class CheckError(Exception):
    """the check itself cannot give an answer"""


# Documented limits that are compared with an argument as it is given: the side on which the limit itself lies is part of
# the published formula, so these arguments are not perturbed when a deviation is examined for ill conditioning.
_EXACT = {
    "structural.stability_rock_armour.vandermeer1988.": ("cot_alpha", "N_waves"),
    "structural.stability_rock_armour.vandermeer1988_modified.": ("cot_alpha", "N_waves"),
    "structural.stability_rock_armour.hudson1959.": ("damage_percentage",),
    "hydraulic.wave_overtopping.taw2002.calculate_influence_crest_wall_gamma_v": ("alpha_wall_deg",),
    "hydraulic.wave_overtopping.eurotop2018.": ("gamma_f",),
    "hydraulic.wave_runup.eurotop2018.": ("gamma_f",),
}


def mark_exact():
    for k, e in model.REG.items():
        if e.exact == "all":
            continue
        names = set(e.exact)
        for p, ns in _EXACT.items():
            if k.startswith(p):
                names |= {n for n in ns if n in e.params}
        names |= {n for n in e.params if e.dom.get(n, model.DOM.get(n, "?"))[0] == "c"}  # listed choices
        e.exact = tuple(sorted(names))


def load_refs():
    from . import refs
    for m in sorted(pkgutil.iter_modules(refs.__path__), key=lambda m: m.name):
        importlib.import_module("monitor.refs." + m.name)
    mark_exact()
    return REG


def load_code():
    """import every module of the package from REPO's working tree"""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pkg = importlib.import_module(PKG)
        f = os.path.realpath(pkg.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise CheckError("package imported from %s" % f)
        mods = {}
        for m in pkgutil.walk_packages(pkg.__path__, PKG + "."):
            try:
                mods[m.name] = importlib.import_module(m.name)
            except Exception as e:  # a module that no longer imports
                raise CheckError("cannot import %s: %r" % (m.name, e))
    return mods


def resolve(entry):
    mod = sys.modules.get(BASE + entry.module)
    if mod is None:
        return None
    return getattr(mod, entry.name, None)


# ---------------------------------------------------------------- observing a call
WRE = re.compile(r"^Value of (.*) \(([^()]*(?:\([^()]*\))?)\) is outside of the validity range \((\S+) - (\S+)\) for the (.*) formula\.$", re.S)


def _num(t):
    t = t.strip()
    if t in ("True", "False"):
        return float(t == "True")
    m = re.match(r"^np\.\w+\((.*)\)$", t)
    if m:
        t = m.group(1)
    return float(t)


class Obs:
    __slots__ = ("value", "exc", "warns", "other", "secs")


class NotTerminated(Exception):
    """the call did not return within the time allowed for one call"""


LIMIT = [20.0]  # seconds for one call; observed calls take milliseconds


def _alarm(sig, frame):
    raise NotTerminated("no result after %g s" % LIMIT[0])


def observe(fn, args, copy=True):
    o = Obs()
    o.value = o.exc = None
    o.warns, o.other = [], []
    t = time.perf_counter()
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            timed = threading.current_thread() is threading.main_thread()
            if timed:
                signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, LIMIT[0])
            try:
                o.value = fn(**args)
            except Exception as e:
                o.exc = e
            finally:
                if timed:
                    signal.setitimer(signal.ITIMER_REAL, 0)
    o.secs = time.perf_counter() - t
    for w in rec:
        if issubclass(w.category, (RuntimeWarning, DeprecationWarning)) and not str(w.message).startswith("Value of"):
            continue
        s = str(w.message)
        m = WRE.match(s)
        if m:
            try:
                o.warns.append((m.group(1), m.group(5), _num(m.group(3)), _num(m.group(4)), _num(m.group(2))))
                continue
            except ValueError:
                pass
        o.other.append(s)
    return o


# ---------------------------------------------------------------- reference evaluation
class Ref:
    __slots__ = ("kind", "value", "value2", "W", "types")


def _eval(entry, args, raw):
    w = Warn(raw)
    try:
        v = entry.func(w, **args)
    except Reject as r:
        return "reject", r.types, w
    except Skip:
        return "skip", None, w
    except (ZeroDivisionError, OverflowError, ValueError, TypeError) as e:
        return "skip", e, w
    return "value", v, w


def scalarise(x):
    if isinstance(x, np.ndarray):
        return x.item()
    if isinstance(x, np.generic):
        return x.item()
    return x


def reference(entry, args):
    """reference outcome for one set of scalar arguments"""
    a = {k: scalarise(v) for k, v in args.items()}
    # the model works on floats; booleans, strings and None pass through
    a = {k: float(v) if isinstance(v, int) and not isinstance(v, bool) else v for k, v in a.items()}
    raw = [v for v in a.values() if isinstance(v, float)]
    r = Ref()
    r.types = None
    model.MODE[0] = 0
    r.kind, r.value, r.W = _eval(entry, a, raw)
    r.value2 = None
    if r.kind == "reject":
        r.types, r.value = r.value, None
    elif r.kind == "value" and entry.kind == "iterative":
        model.MODE[0] = 1
        k, r.value2, _ = _eval(entry, a, raw)
        model.MODE[0] = 0
        if k != "value":
            r.kind = "skip"
    return r


def finite(v):
    if isinstance(v, (tuple, list)):
        return all(finite(x) for x in v)
    if isinstance(v, dict):
        return all(finite(x) for x in v.values())
    if isinstance(v, (bool, str)) or v is None:
        return True
    return math.isfinite(v)


# ---------------------------------------------------------------- comparing
def close(obs, a, b, rtol, atol):
    """obs within the band spanned by the two admissible results a, b"""
    slack = rtol * max(abs(a), abs(b) if b is not None else 0) + atol
    if b is not None:
        slack += 2.2 * abs(a - b)
    return abs(obs - a) <= slack


def same(obs, exp, exp2, rtol, atol):
    """None if equal, else text; obs is a scalar-like result"""
    if exp is None:
        return None  # undecided by the model
    if isinstance(exp, bool):
        try:
            ob = bool(np.asarray(obs).item())
        except Exception:
            return "expected %r, got %r" % (exp, obs)
        return None if ob == exp else "expected %r, got %r" % (exp, obs)
    if isinstance(exp, str):
        return None if obs == exp else "expected %r, got %r" % (exp, obs)
    if isinstance(exp, tuple):
        if not isinstance(obs, (tuple, list)) or len(obs) != len(exp):
            return "expected %d results, got %r" % (len(exp), obs)
        for i, (o, e) in enumerate(zip(obs, exp)):
            t = same(o, e, None if exp2 is None else exp2[i], rtol, atol)
            if t:
                return "result %d: %s" % (i, t)
        return None
    if isinstance(exp, dict):
        if not isinstance(obs, dict):
            return "expected a dictionary, got %r" % (obs,)
        for k, e in exp.items():
            if k not in obs:
                return "result %r missing" % k
            t = same(obs[k], e, None if exp2 is None else exp2[k], rtol, atol)
            if t:
                return "result %r: %s" % (k, t)
        return None
    e = float(exp)
    if not math.isfinite(e):
        return None
    if obs is None:
        return "expected %r, got None" % e
    try:
        ob = np.asarray(obs, dtype=float)
    except (TypeError, ValueError):
        return "expected %r, got %r" % (e, obs)
    if ob.size != 1:
        return "expected a single value %r, got shape %s" % (e, ob.shape)
    ob = float(ob.reshape(-1)[0])
    e2 = None if exp2 is None else float(exp2)
    if math.isnan(ob) or not close(ob, e, e2, rtol, atol):
        return "expected %r%s, got %r" % (e, "" if e2 is None else " (converged: %r)" % e2, ob)
    return None


def warnings_diff(observed, expected, ties, may, rtol=1e-7, margin=0.0):
    """compare reported validity warnings with the model's; text or None"""
    tol = max(rtol, margin)
    used = set()
    for key in expected:
        hit = False
        for i, ob in enumerate(observed):
            if ob[:4] == key[:4] and (abs(ob[4] - key[4]) <= tol * max(abs(key[4]), 1e-12) + 1e-12
                                      or (math.isinf(ob[4]) and math.isinf(key[4]))):
                hit = True
                used.add(i)
        if not hit:
            return "no warning for %s = %r outside %r - %r (%s)" % (key[0], key[4], key[2], key[3], key[1])
    allowed = set(ties) | set(may)
    for i, ob in enumerate(observed):
        if i not in used and ob[:4] not in allowed:
            return "warning for %s = %r outside %r - %r (%s) that the range does not call for" % (ob[0], ob[4], ob[2], ob[3], ob[1])
    for ob in observed:
        if not (ob[4] < ob[2] or ob[4] > ob[3]):
            return "warning for %s = %r although inside %r - %r (%s)" % (ob[0], ob[4], ob[2], ob[3], ob[1])
    return None


class Case:
    """one call with scalars and/or 1-d arrays"""

    def __init__(self, entry, args):
        self.entry = entry
        self.args = args
        self.n = None
        for v in args.values():
            if isinstance(v, np.ndarray) and v.ndim == 1:
                self.n = len(v)

    def element(self, i):
        return {k: (v[i].item() if isinstance(v, np.ndarray) and v.ndim == 1 else v) for k, v in self.args.items()}

    def refs(self):
        if self.n is None:
            return [reference(self.entry, self.args)]
        return [reference(self.entry, self.element(i)) for i in range(self.n)]


def pick(v, i, n):
    """element i of an observed result"""
    if isinstance(v, tuple):
        return tuple(pick(x, i, n) for x in v)
    if isinstance(v, dict):
        return {k: pick(x, i, n) for k, x in v.items()}
    if isinstance(v, np.ndarray) and v.ndim == 1 and len(v) == n:
        return v[i]
    return v


VAR = 1e-11


def perturbed(case):
    """references for inputs that differ by rounding only (not for exactly documented limits)"""
    e = case.entry
    keys = [k for k, v in case.args.items() if k not in e.exact and not isinstance(v, (bool, str)) and v is not None]
    out = []
    for sgn in (1, -1):
        for ks in [[k] for k in keys] + [keys]:
            a = dict(case.args)
            for k in ks:
                a[k] = a[k] * (1 + sgn * VAR) if np.all(np.asarray(a[k]) != 0) else a[k] + sgn * 1e-13
            c = Case(e, a)
            out.append(c.refs())
    return out


def judge(case, obs, what=("value", "warn", "reject")):
    """list of (aspect, text); [] if the observation agrees; None if the model does not decide"""
    e = case.entry
    rs = case.last = case.refs()
    kinds = {r.kind for r in rs}
    if "skip" in kinds:
        return None
    if "reject" in kinds:
        if kinds != {"reject"} or "reject" not in what:
            return None
        if obs.exc is None:
            return [("reject", "input has to be rejected, got %r" % (obs.value,))]
        if not isinstance(obs.exc, rs[0].types):
            return [("reject", "input has to be rejected with %s, got %r" % ("/".join(t.__name__ for t in rs[0].types), obs.exc))]
        return []
    if not all(finite(r.value) for r in rs if e.out != "none"):
        return None
    if obs.exc is not None:
        return [("value", "raised %r" % (obs.exc,))]
    out = []
    if "value" in what and e.out != "none":
        t = _value(case, obs, rs)
        if t and not _ill(case, obs, rs):
            out.append(("value", t))
    if "warn" in what and e.warn != "none":
        t = _warns(e, obs, rs)
        if t and e.exact != "all":
            for p in perturbed(case):
                if all(r.kind == "value" for r in p) and _warns(e, obs, p) is None:
                    t = None
                    break
        if t and e.kind == "iterative":
            t = _warns_band(case, obs, rs)
        if t:
            out.append(("warn", t))
    return out


def _element(e, o, r):
    if e.name.startswith("calculate_KD_breaking") and r.value2 is not None:
        # a floor on a grid: either neighbour where rounding decides, nothing between them
        return same(o, r.value, None, e.rtol, e.atol) and same(o, r.value2, None, e.rtol, e.atol)
    return same(o, r.value, r.value2, e.rtol, e.atol)


def _value(case, obs, rs):
    e = case.entry
    for i, r in enumerate(rs):
        o = obs.value if case.n is None else pick(obs.value, i, case.n)
        t = _element(e, o, r)
        if t:
            return t if case.n is None else "element %d: %s" % (i, t)
    return None


def stopping_band(entry, a, eps=1e-3):
    """the model for inputs within a band wider than the documented stopping
    tolerance: the elements of an array stop iterating together, so that an element
    may stop at any iterate within its tolerance, on either side of a limit"""
    for k in a:
        if k in entry.exact or not isinstance(a[k], (float, int, np.generic)) or isinstance(a[k], (bool, np.bool_)):
            continue
        for s in (1, -1):
            b = dict(a)
            b[k] = float(a[k]) * (1 + s * eps)
            yield reference(entry, b)


def _joint(case, obs, rs):
    """every deviating element of an array: numbers within their band and flags of the band"""
    e = case.entry
    if e.kind != "iterative" or case.n is None:
        return False
    for i, r in enumerate(rs):
        o = pick(obs.value, i, case.n)
        if _element(e, o, r) is None:
            continue
        got, want = leaves(o), leaves(r.value)
        want2 = leaves(r.value2) if r.value2 is not None else [None] * len(want)
        if len(got) != len(want):
            return False
        flags = []
        for j, (g, w) in enumerate(zip(got, want)):
            if same(g, w, want2[j], e.rtol, e.atol) is None:
                continue
            if not isinstance(w, bool):
                return False
            flags.append(j)
        for j in flags:
            if not any(p.kind == "value" and same(got[j], leaves(p.value)[j], None, e.rtol, e.atol) is None
                       for p in stopping_band(e, case.element(i))):
                return False
    return True


def _ill(case, obs, rs):
    """the observation agrees with the model for inputs equal up to rounding"""
    if _joint(case, obs, rs):
        return True
    ps = []
    for p in perturbed(case):
        if any(r.kind != "value" or not finite(r.value) for r in p):
            return True
        if _value(case, obs, p) is None:
            return True
        ps.append(p)
    # element by element, within the band the model spans for such inputs
    e = case.entry
    for i, r in enumerate(rs):
        o = obs.value if case.n is None else pick(obs.value, i, case.n)
        if _element(e, o, r) is None:
            continue
        band = [leaves(r.value)] + [leaves(p[i].value) for p in ps]
        if isinstance(r.value, dict) and isinstance(o, dict):
            o = {k: o[k] for k in r.value if k in o}
        got = leaves(o)
        if any(len(b) != len(got) for b in band):
            return False
        for j, v in enumerate(got):
            col = [b[j] for b in band]
            if isinstance(v, (str, bool, np.bool_)) or v is None or any(isinstance(c, (str, bool)) or c is None for c in col):
                if not any(c is None or same(v, c, None, e.rtol, e.atol) is None for c in col):
                    return False
                continue
            try:
                v = float(np.asarray(v, dtype=float).reshape(-1)[0])
            except (TypeError, ValueError, IndexError):
                return False
            lo, hi = min(col), max(col)
            if not lo - e.rtol * abs(lo) - e.atol <= v <= hi + e.rtol * abs(hi) + e.atol:
                return False
    return True


def leaves(v):
    if isinstance(v, (tuple, list)):
        return [y for x in v for y in leaves(x)]
    if isinstance(v, dict):
        return [y for k in sorted(v, key=str) for y in leaves(v[k])]
    return [v]


def _warns(e, obs, rs):
    exp = [k for r in rs for k in r.W.out]
    ties = [k for r in rs for k in r.W.tie]
    may = [k for r in rs for k in r.W.may]
    margin = max(r.W.margin for r in rs)
    t = warnings_diff(obs.warns, exp, ties, may, margin=2 * margin)
    if t:
        return t
    # the remaining announcements (an ignored argument, an assumed density)
    notes = {n.lower() for r in rs for n in r.W.notes}
    said = [s.lower() for s in obs.other]
    for n in notes:
        if not any(n in s for s in said):
            return "no warning about %s" % n
    for s in said:
        if not any(n in s for n in notes) and not re.search("iteration|converge|precision", s):
            return "warning that nothing calls for: %s" % s[:200]
    return None


def _warns_band(case, obs, rs):
    """as _warns for results of an iteration: quantities that pass a limit, or whose value is only known, within the
    stopping tolerance"""
    e = case.entry
    exp, may, W = [], set(), []
    for i, r in enumerate(rs):
        band = [x for x in stopping_band(e, case.args if case.n is None else case.element(i)) if x.kind == "value"]
        for k in {k[:4] for x in band + [r] for k in x.W.out} | {k[:4] for x in band + [r] for k in x.W.tie}:
            vals = [[k2[4] for k2 in x.W.out if k2[:4] == k] for x in band + [r]]
            if len({len(v) for v in vals}) > 1:
                may.add(k)
                continue
            for j, v in enumerate(vals[-1]):
                lo, hi = min(v[j] for v in vals), max(v[j] for v in vals)
                near = [o[4] for o in obs.warns if o[:4] == k and lo - (hi - lo) <= o[4] <= hi + (hi - lo)]
                exp.append(k + (near[0] if near else v,))
    ties = [k for r in rs for k in r.W.tie]
    may |= {k for r in rs for k in r.W.may}
    return warnings_diff(obs.warns, [k for k in exp if k[:4] not in may], ties, may, margin=2 * max(r.W.margin for r in rs))


# ---------------------------------------------------------------- workload generation
def harvest():
    """numeric literals in the current source, by module: thresholds worth standing next to"""
    lits = {}
    root = os.path.join(REPO, PKG)
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, os.path.join(root, "functions"))[:-3].replace(os.sep, ".")
            vals = set()
            try:
                tree = ast.parse(open(p, encoding="utf8").read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    v = float(n.value)
                    if math.isfinite(v) and abs(v) < 1e9:
                        vals.add(v)
                        vals.add(-v)
            lits[rel] = sorted(vals)
    return lits


LITS = {}


def draw(rng, dom):
    k = dom[0]
    if k == "l":
        return float(math.exp(rng.uniform(math.log(dom[1]), math.log(dom[2]))))
    if k == "u":
        return float(rng.uniform(dom[1], dom[2]))
    v = dom[1][int(rng.integers(len(dom[1])))]
    return v


def domain(entry, p):
    d = entry.dom.get(p) or model.DOM.get(p)
    if d is None and p in entry.bools:
        return ("c", [True, False])
    if d is None:
        raise KeyError("no domain for %s of %s" % (p, entry.key))
    return d


def special(entry, rng, p):
    """a value on or beside a threshold that occurs in the code"""
    d = domain(entry, p)
    if d[0] == "c":
        return draw(rng, d)
    lits = LITS.get(entry.module, ())
    lo, hi = d[1], d[2]
    c = [v for v in lits if lo <= v <= hi]
    if lo == 0 or (lo < 0 < hi):
        c = c + [0.0]
    if not c:
        return draw(rng, d)
    v = c[int(rng.integers(len(c)))]
    r = rng.random()
    if r < 0.55:
        return v
    if r < 0.7:
        return float(np.nextafter(v, math.inf if rng.random() < 0.5 else -math.inf))
    return float(v * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -1.3)))


def sample(entry, rng, prev=None, p_opt=None, fix=True):
    """one set of scalar arguments"""
    if p_opt is None:
        p_opt = 0.55 if entry.out == "none" else 0.3
    sp = 0.08
    if prev is not None:
        a = dict(prev)
        keys = entry.params
        k = keys[int(rng.integers(len(keys)))] if keys else None
        for p in [k] if (rng.random() < 0.75 or k is None) else list(rng.choice(keys, size=min(2, len(keys)), replace=False)):
            if p is None:
                break
            p = str(p)
            if p not in entry.required and p in a and rng.random() < 0.4:
                del a[p]
            elif p in a and isinstance(a[p], float) and math.isfinite(a[p]) and rng.random() < 0.4:
                a[p] = a[p] * float(rng.uniform(0.7, 1.4))
            else:
                a[p] = special(entry, rng, p) if rng.random() < 0.3 else draw(rng, domain(entry, p))
        return a
    a = {}
    for p in entry.params:
        if p in entry.required or rng.random() < p_opt:
            a[p] = special(entry, rng, p) if rng.random() < sp else draw(rng, domain(entry, p))
    if entry.fix and fix:
        a = entry.fix(rng, a)
    if rng.random() < 0.12 and a:
        p = list(a)[int(rng.integers(len(a)))]
        if isinstance(a[p], float) and p in entry.params:
            a[p] = special(entry, rng, p)
    if rng.random() < 0.04 and len(a) > 1:
        fl = [k for k, v in a.items() if isinstance(v, float)]
        if len(fl) > 1:
            i, j = rng.choice(len(fl), 2, replace=False)
            d = domain(entry, fl[i])
            if d[0] != "c" and d[1] <= a[fl[j]] <= d[2]:
                a[fl[i]] = a[fl[j]]
    return a


def arrayable(entry):
    if entry.noarray is True:
        return []
    return [p for p in entry.params if p not in entry.noarray and p not in entry.scal and p not in entry.bools
            and p not in ("tolerance", "max_iterations", "max_iter", "return_dict")]


def to_array(entry, rng, base, n=None, keys=None):
    """turn some arguments into arrays of one length"""
    cand = [p for p in arrayable(entry) if p in base and isinstance(base[p], (int, float)) and not isinstance(base[p], bool)
            and base[p] == base[p]]
    if not cand:
        return base
    n = n or int(rng.choice([1, 2, 3, 3, 4, 6]))
    if n == 6 and rng.random() < 0.03 and entry.kind == "closed":
        n = int(rng.integers(20, 260))
    if keys is None:
        r = rng.random()
        if r < 0.35:
            keys = [cand[int(rng.integers(len(cand)))]]
        elif r < 0.6:
            keys = cand
        else:
            keys = [p for p in cand if rng.random() < 0.4] or [cand[0]]
    a = dict(base)
    rows = [base]
    for _ in range(4 * n):
        if len(rows) >= n:
            break
        s = sample(entry, rng, p_opt=1.0)
        if all(k in s and isinstance(s[k], (int, float)) and s[k] == s[k] for k in keys):
            rows.append(s)
    while len(rows) < n:
        rows.append(base)
    rng.shuffle(rows)
    for k in keys:
        a[k] = np.array([float(r[k]) for r in rows])
        if rng.random() < 0.06 and np.all(a[k] >= 1) and np.all(a[k] < 1e9):
            a[k] = np.round(a[k]).astype(int)
    return a


NUMS = (int, int, int, np.int64)


def dress(entry, rng, a):
    """vary the representation of numbers"""
    r = rng.random()
    if r > 0.2:
        return a
    a = dict(a)
    for k, v in a.items():
        if isinstance(v, float) and math.isfinite(v):
            if r < 0.1:
                if abs(v) >= 1 and rng.random() < 0.6 and k not in ("tolerance",):
                    a[k] = NUMS[int(rng.integers(len(NUMS)))](round(v))
            else:
                a[k] = np.float64(v)
    return a


class Workload:
    def __init__(self, entries, seed, p_array=0.25, p_prev=0.4):
        self.rng = np.random.default_rng(seed)
        self.entries = entries
        self.p_array, self.p_prev = p_array, p_prev
        from .steer import Explorer
        self.ex = Explorer(self.rng)

    def scalar(self, entry):
        """fresh arguments, a variation of a case kept for its branches, or a case beside a decision of the model"""
        rng = self.rng
        r = rng.random()
        a = self.ex.edge(entry) if r < 0.08 else None
        if a is None:
            a = sample(entry, rng, self.ex.pick(entry) if r < 0.08 + self.p_prev else None)
        if rng.random() < 0.5:
            self.ex.offer(entry, a)
        return a

    def next(self, entry):
        rng = self.rng
        a = self.scalar(entry)
        if rng.random() < self.p_array:
            b = self.ex.straddle(entry, a) if rng.random() < 0.2 else None
            return Case(entry, b or to_array(entry, rng, a))
        return Case(entry, dress(entry, rng, a))


# ---------------------------------------------------------------- events
class Tracer:
    """counts the calls of every public function, at top level and nested"""

    def __init__(self, mods):
        self.calls = {}
        self.edges = {}
        self.stack = []
        self.hooks = []
        for name, m in mods.items():
            if not name.startswith(BASE):
                continue
            for k, f in list(vars(m).items()):
                if isinstance(f, types.FunctionType) and f.__module__ == name and not k.startswith("_"):
                    setattr(m, k, self.wrap(name[len(BASE):] + "." + k, f))

    def wrap(self, key, f):
        calls, edges, stack = self.calls, self.edges, self.stack
        calls[key] = 0

        def w(*a, **kw):
            calls[key] += 1
            if stack:
                e = (stack[-1], key)
                edges[e] = edges.get(e, 0) + 1
            stack.append(key)
            try:
                return f(*a, **kw)
            finally:
                stack.pop()
        w.__wrapped__ = f
        w.__name__ = f.__name__
        w.__doc__ = f.__doc__
        w.__module__ = f.__module__
        return w


def real(fn):
    while hasattr(fn, "__wrapped__"):
        fn = fn.__wrapped__
    return fn
