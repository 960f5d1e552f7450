import importlib

CHECKS = {}
for m in ("fidelity", "ranges", "inverses", "equivalence", "iterations", "arrays", "purity", "exports", "equilibrium"):
    CHECKS.update(importlib.import_module("monitor." + m).CHECKS)
