"""Takahashi's searches for a wave height and a depth: their result has to give the requested stability again."""
import math

import numpy as np

from . import engine as E
from .model import REG
from .relations import CP, TB, num

TK = TB + "takahashi1990_caisson."


class Searches:
    # ------------------------------------------------------------ ending
    def awaited(self, rec, key, a, tag):
        e = REG.get(key)
        f = E.resolve(e) if e else getattr(self.mods.get(E.BASE + key.rpartition(".")[0]), key.rpartition(".")[2], None)
        if f is None:
            return None
        o = E.observe(f, a)
        rec.ok((tag, key, tuple(sorted(a)), type(o.exc).__name__), key)
        rec.add("endings_awaited")
        rec.count["slowest_call_ms"] = rec.count.get("slowest_call_ms", set()) | {int(o.secs * 1000) // 250}
        if isinstance(o.exc, E.NotTerminated):
            rec.violation("does not end", key, a)
        return o

    # ------------------------------------------------------------ Takahashi searches
    def tk(self, rng):
        Hs = float(10 ** rng.uniform(-1, 0.95))
        hacc = Hs * float(rng.uniform(0.3, 3.0))
        Tp = float(rng.uniform(3.2, 12)) * math.sqrt(max(hacc, 0.3 * Hs) / 2)  # k hacc below about 3
        return dict(Dn50=Hs / float(rng.uniform(2.0, 9.0)), Tp=Tp, Hs=Hs, hacc=hacc, Bt=Hs * float(rng.uniform(0.2, 3)),
                    rho_rock=float(rng.uniform(2300, 3000)), rho_water=float(rng.uniform(990, 1040)),
                    beta=float(rng.uniform(0, 60)) if rng.random() < 0.6 else 0.0)

    def ns(self, a):
        f = E.resolve(REG[TK + "calculate_stability_number_Ns"])
        if f is None:
            return None
        o = E.observe(f, a)
        return None if o.exc is not None else num(o.value)

    def takahashi_H(self, rec, rng):
        key = TK + "calculate_significant_wave_height_Hs"
        a = self.tk(rng)
        a.pop("Hs")
        if rng.random() < 0.3:
            a["g"] = float(rng.uniform(3, 12))
        k = E.reference(REG[CP + "calculate_local_wavelength"], dict(T=a["Tp"], h=a["hacc"], g=a.get("g", 9.81))).value
        if 2 * math.pi / k * a["hacc"] > 4:
            return
        o = self.awaited(rec, key, a, "search")
        if o is None:
            return
        if o.exc is not None:
            if not isinstance(o.exc, E.NotTerminated):
                rec.violation("raised %r" % o.exc, key, a)
            return
        if any("precision" in s for s in o.other):
            rec.undecided += 1
            return
        H = float(num(o.value).reshape(-1)[0])
        dD = (a["rho_rock"] - a["rho_water"]) / a["rho_water"] * a["Dn50"]
        b = {k: v for k, v in a.items() if k in ("Tp", "hacc", "Bt", "beta", "g")}
        if not (math.isfinite(H) and H > 0):
            rec.violation("wave height %r" % H, key, a)
            return
        hs = H + 0.002 * np.array([-1, -0.5, 0, 0.5, 1])
        if hs[0] <= 0:
            return
        N = self.ns(dict(b, Hs=hs))
        if N is None or not np.all(np.isfinite(N)):
            return
        F = dD * N
        rec.ok(("H", round(math.log10(H)), bool(F[2] > 1.81 * dD)), key)
        rec.add("residuals_judged")
        if not abs(F[2] - H) <= 0.001 + 3 * np.max(np.abs(F - F[2])) + 1e-9 * H:
            rec.violation("wave height %r: the stability number there gives %r" % (H, F[2]), key, a)

    def takahashi_h(self, rec, rng):
        key = TK + "calculate_significant_depth_above_toe_hacc"
        a = self.tk(rng)
        a.pop("hacc")
        if rng.random() < 0.3:
            a["g"] = float(rng.uniform(3, 12))
        o = self.awaited(rec, key, a, "search")
        if o is None or isinstance(o.exc, E.NotTerminated):
            return
        need = a["Hs"] / ((a["rho_rock"] - a["rho_water"]) / a["rho_water"] * a["Dn50"])
        b = {k: v for k, v in a.items() if k in ("Tp", "Hs", "Bt", "beta", "g")}
        if o.exc is not None:
            # no depth: then none may exist
            grid = np.linspace(a["Hs"] / 20, 60 * a["Hs"], 402)
            N = self.ns(dict(b, hacc=grid))
            if N is None:
                return
            if not np.all(np.isfinite(N[:302])):
                return
            rec.ok(("h", "none"), key)
            # neighbouring grid points on both sides of the requested value, clear of rounding
            s = np.sign(N - need) * (np.abs(N - need) > 1e-4 * need)
            # (several in a row: next to a resonance of the toe width a single one may be missed by any search)
            other = s == -s[0] if len(s) else s
            if len(s) > 302 and s[0] != 0 and np.any(other[:300] & other[1:301] & other[2:302]):
                rec.violation("raised %r although depths between %r and %r give the stability" % (o.exc, grid[0], grid[-1]), key, a)
            return
        h = float(num(o.value).reshape(-1)[0])
        step = min(0.001, a["Hs"] / 20)
        if not (math.isfinite(h) and h > 0):
            rec.violation("depth %r" % h, key, a)
            return
        N = self.ns(dict(b, hacc=np.linspace(max(h - 1.5 * step, h * 0.3), h + 0.5 * step, 9)))
        if N is None or not np.all(np.isfinite(N)) or np.max(N) > 1.3 * np.min(N):
            return  # next to a resonance of the toe width the stability number jumps
        rec.ok(("h", round(math.log10(h)), bool(N[4] > need)), key)
        rec.add("residuals_judged")
        if (np.all(N > need * (1 + 1e-6)) or np.all(N < need * (1 - 1e-6))):
            rec.violation("depth %r: the stability number around it is %r, requested %r" % (h, N.tolist(), need), key, a)
