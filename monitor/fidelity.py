"""C01-C07, C12, C16: every call is judged against the reference model."""
import itertools
import time

import numpy as np

from . import engine as E
from .model import REG, PROPS
from .runner import Check, show

RULE = ("one evaluation = one call of a public function of the current tree whose outcome (result, exception, validity warnings) was "
        "compared with the independent reference model; distinct = different combinations of function, supplied parameters, "
        "array layout, limit/branch outcome and reported ranges among the judged calls")


def signature(case, rs, obs):
    e = case.entry
    flags = ()
    v = rs[0].value
    if isinstance(v, (tuple, dict)):
        flags = tuple(x for x in (v.values() if isinstance(v, dict) else v) if isinstance(x, (bool, str)))
    return (e.key, tuple(sorted(case.args)), tuple(k for k, x in case.args.items() if isinstance(x, np.ndarray)), case.n,
            tuple(sorted({w[:2] for w in obs.warns})), flags, type(obs.exc).__name__)


def entries(groups, code=True):
    out = []
    for e in REG.values():
        if groups is None or e.group in groups:
            f = E.resolve(e)
            if f is not None:
                out.append(e)
    return out


class Fidelity(Check):
    groups = ()
    what = ("value",)
    rule = RULE
    p_array = 0.2
    assumptions = ["results closer than the stated tolerance (1e-9 relative for closed formulas, the documented stopping tolerance for "
                   "iterations) count as equal", "inputs for which the published formula is undefined (NaN, complex) are not judged"]

    def pool(self):
        es = entries(self.groups)
        return es

    def prepare(self, tier):
        super().prepare(tier)
        self.es = self.pool()
        self.missing = [e.key for e in REG.values() if (self.groups is None or e.group in self.groups) and E.resolve(e) is None]

    def extra(self, rec, wid):
        pass

    def work(self, rec, wid, nw, ss, deadline):
        tr = E.Tracer(self.mods)
        wl = E.Workload(self.es, ss, p_array=self.p_array)
        fns = {e.key: E.resolve(e) for e in self.es}
        self.extra(rec, wid)
        order = list(self.es)
        rng = wl.rng
        while time.monotonic() < deadline and len(rec.viol) < 10:
            rng.shuffle(order)
            for e in order:
                if time.monotonic() > deadline:
                    break
                for _ in range(self.burst(e)):
                    self.one(rec, wl.next(e), fns[e.key])
        rec.calls = sum(tr.calls.values())
        rec.count["call_edges"] = set(tr.edges)
        rec.count["functions_called"] = {k for k, v in tr.calls.items() if v}

    def burst(self, e):
        return 3

    def one(self, rec, case, fn):
        obs = E.observe(fn, case.args)
        j = E.judge(case, obs, self.what)
        if j is None:
            rec.undecided += 1
            return
        rec.ok(signature(case, case.last, obs), case.entry.key)
        rec.add("validity_warnings_seen", len(obs.warns))
        if rec.n % 997 == 5:
            rec.sample("%s(%s) -> %r" % (case.entry.name, show(case.args)[:160], obs.value))
        for aspect, text in j:
            if aspect in self.what:
                rec.violation(text, case.entry.key, case.args, aspect=aspect)


class C01(Fidelity):
    pid, groups = "C01", ("overtopping",)


class C02(Fidelity):
    pid, groups = "C02", ("runup",)


class C03(Fidelity):
    pid, groups = "C03", ("rock",)


class C04(Fidelity):
    pid, groups = "C04", ("concrete",)

    def extra(self, rec, wid):
        """published unit properties"""
        if wid:
            return
        import sys
        f = getattr(sys.modules.get(E.BASE + "structural.stability_concrete_armour.xbloc"), "calculate_correctionfactor_unit_mass_M_by_structure_slope", None)
        if f is not None and f(cot_alpha=4 / 3) == 1.25:
            rec.add("known_xbloc_slope")
        for m, props in PROPS.items():
            mod = sys.modules.get(E.BASE + m)
            got = getattr(mod, "unit_properties", None)
            if got is None:
                continue
            self.cmp(rec, m, "unit_properties", props, got)

    def cmp(self, rec, m, path, exp, got):
        if isinstance(exp, dict):
            for k, v in exp.items():
                if not isinstance(got, dict) or k not in got:
                    rec.violation("%s[%r] missing" % (path, k), m, {})
                else:
                    self.cmp(rec, m, "%s[%r]" % (path, k), v, got[k])
            return
        rec.ok((m, path), m)
        if exp is None or got is None:
            bad = got is not exp
        else:
            bad = list(np.atleast_1d(exp)) != list(np.atleast_1d(got))
        if bad:
            rec.violation("%s is %r, published value %r" % (path, got, exp), m, {})


    def known(self, tot):
        if tot.count.get("known_xbloc_slope"):
            return ["xbloc.calculate_correctionfactor_unit_mass_M_by_structure_slope gives 1.25 for the standard slope of 1:1.33 (cot_alpha=1.333), "
                    "the published table gives 1.0: limits meant for the tangent are applied to the cotangent (known_findings.txt)"]
        return []


class C05(Fidelity):
    pid, groups = "C05", ("toe",)


class C06(Fidelity):
    pid, groups = "C06", ("forces",)


class C07(Fidelity):
    pid, groups = "C07", ("core",)
    what = ("value", "reject")


CHECKS = {c.pid: c for c in (C01, C02, C03, C04, C05, C06, C07)}
