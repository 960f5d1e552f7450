"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
F = "deltares_coastal_structures_toolbox/functions/"
HO, HR, HT = F + "hydraulic/wave_overtopping/", F + "hydraulic/wave_runup/", F + "hydraulic/wave_transmission/"
SR, SC, ST, SB = F + "structural/stability_rock_armour/", F + "structural/stability_concrete_armour/", F + "structural/stability_toe_berm/", F + "structural/stability_rock_rear/"
FCA, FCW = F + "structural/forces_caisson/", F + "structural/forces_crestwall/"
SAMPLED = ("The tests evaluate each function at a handful of fixed arguments and compare with stored numbers; ")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None,
         "observe_at": observe or ["results, exceptions and warnings of the public functions"]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Wave overtopping results equal the published formulas",
     "For every input for which the published formula is defined, each overtopping function (TAW 2002, EurOtop 2007 and 2018, Van Gent 2002, 2021 and 2025, De Ridder 2024 and 2026) returns the value that the published formula gives for that input, including every limit, branch, influence factor and documented default. This holds for discharges, freeboards, influence factors, flow velocities and layer thicknesses, for scalars and for arrays.",
     ["inputs", "configurations"], "all admissible wave, geometry and coefficient values, all combinations of optional arguments, scalar or array",
     SAMPLED + "branches (breaking/non-breaking, berm above/below water, oblique, vertical wall, wind) and optional-argument combinations are mostly not reached, and the stored numbers do not constrain the values in between.",
     [HO], [("closed formulas and influence factors", HO + "taw2002.py"), ("EurOtop branches", HO + "eurotop2018.py"), ("wind influence", HO + "vangent2025.py"), ("caisson overtopping", HO + "vangent2021_caisson.py"), ("wall overtopping under infragravity waves", HO + "deridder2026.py")])
prop("C02", "Run-up, transmission and set-up results equal the published formulas",
     "For every input for which the published formula is defined, each wave run-up, run-down, wave transmission and wave set-up function returns the value the published formula gives, including lower and upper limits, berm and slope averaging, obliqueness and documented defaults.",
     ["inputs", "configurations"], "all admissible inputs and optional-argument combinations, scalar or array",
     SAMPLED + "limits of the transmission coefficient, narrow/wide crest transitions and averaged slopes with berms are sampled at few points only.",
     [HR, HT], [("run-up formulas", HR + "taw2002.py"), ("run-up formulas", HR + "eurotop2018.py"), ("run-up, run-down", HR + "vangent2001.py"), ("transmission limits", HT + "dangremond1996.py"), ("transmission transition", HT + "briganti2003.py"), ("set-up", HT + "vangent2024_setup.py")])
prop("C03", "Rock armour stability results equal the published formulas",
     "For every input for which the published formula is defined, each rock armour function (Hudson, Van der Meer and its variants, Etemad-Shahidi, Scaravaglione, Jumelet, Kramer-Burcharth) returns the damage, rock size, wave height, stability or auxiliary value that the published formula gives, on the correct side of every plunging/surging or wave-height-ratio transition.",
     ["inputs", "configurations"], "all admissible wave, rock and slope values and optional-argument combinations, scalar or array",
     SAMPLED + "the transition between wave regimes depends on several inputs at once, and the tests stay away from it.",
     [SR], [("plunging/surging choice", SR + "vandermeer1988.py"), ("deep/shallow choice", SR + "scaravaglione2025.py"), ("coefficients", SR + "etemadshahidi2020.py"), ("oblique wave, current", SR + "jumelet2024.py")])
prop("C04", "Concrete armour stability results equal the published formulas",
     "For every input, each concrete armour function (cubes, tetrapods, cubipods, Accropode, Core-Loc, Xbloc, XblocPlus) returns the unit size, mass, volume, wave height, damage or layer quantity that the published formula, unit properties and correction factors give, with the published unit properties unchanged.",
     ["inputs", "configurations"], "all admissible wave, concrete, slope and damage values and all correction-factor situations",
     SAMPLED + "the correction factors of interlocking units have many conditions that combine, and the tests take each at one or two points.",
     [SC], [("correction factors", SC + "xbloc.py"), ("correction factors", SC + "xblocplus.py"), ("Hudson-type sizing", SC + "accropode_hudson1959.py"), ("Nod formulas", SC + "cubes_double_layer_vandermeer1988.py")])
prop("C05", "Toe, berm and rear-side stability results equal the published formulas",
     "For every input for which the published formula is defined, each toe or berm stability function (Gerding, Van der Meer, Van Gent & Van der Werf, Etemad-Shahidi, Takahashi) and each rear-side stability function (Van Gent & Pozueta, Van Gent) returns the damage, rock size, wave height or intermediate velocity and run-up that the published formula gives.",
     ["inputs", "configurations"], "all admissible inputs and optional-argument combinations, scalar or array",
     SAMPLED + "rear-side results depend on seven or more inputs and on iterated run-up; the tests sample single points.",
     [ST, SB], [("toe stability", ST + "vangentvanderwerf2014.py"), ("caisson toe", ST + "takahashi1990_caisson.py"), ("rear side", SB + "vangent2007.py"), ("rear side", SB + "vangentpozueta2004.py")])
prop("C06", "Caisson and crest-wall forces equal the published formulas",
     "For every input for which the method is defined, each caisson pressure, force, moment, bearing pressure, safety factor and impulsive-pressure coefficient, and each crest-wall force, equals the value of the published method, including the situations of overtopped walls, negative pressures and oblique waves.",
     ["inputs", "configurations"], "all admissible wave, depth, wall and obliqueness values",
     SAMPLED + "a full caisson computation has several regimes (overtopped or not, triangular or trapezoidal bearing pressure, impulsive or not) of which the tests reach a few.",
     [FCA, FCW], [("Goda method", FCA + "goda1985.py"), ("crest wall method", FCW + "vangentvanderwerf2019.py")])
prop("C07", "Wave and rock conversions are exact for every input",
     "Every basic conversion (steepness, Iribarren number, deep-water and local wavelength, wave-period and slope conversions, storm duration and number of waves, buoyant density, nominal diameter and mass, stability number) returns its defining expression for every input, and conversions that undo each other return the original value.",
     ["inputs"], "all positive wave, depth, slope and density values, scalar or array, including extreme ratios of depth to wavelength",
     SAMPLED + "the local wavelength in particular is the root of an implicit equation, checked at a few depths only.",
     [F + "core_physics.py"], [("definitions", F + "core_physics.py")])
prop("C08", "Overtopping discharge and crest freeboard are inverse",
     "Wherever a method offers both, the crest freeboard computed for an allowed discharge yields that discharge again when fed back, and the discharge computed for a freeboard yields that freeboard again, unless the method's documented maximum or minimum governs, in which case the governing limit is reported consistently by both directions. This holds with every optional influence factor, coefficient set and acceleration of gravity in use.",
     ["inputs", "configurations"], "all admissible inputs and optional-argument combinations of the discharge/freeboard pairs",
     "The tests check the two directions separately with unrelated numbers, so an argument used in one direction and forgotten in the other is invisible.",
     [HO], [("pairs of explicit inverses", HO + "taw2002.py"), ("pairs", HO + "eurotop2018.py"), ("pairs with wind iteration", HO + "vangent2025.py"), ("pairs", HO + "vangent2021_caisson.py"), ("pairs", HO + "deridder2026.py")])
prop("C09", "Damage, unit size and wave height are mutual inverses",
     "Wherever a stability method offers two or three of damage, required unit size and allowed wave height (or another pair of complementary quantities such as transmission, freeboard or run-up), solving for one and feeding it into another returns the starting value. This holds in every wave regime and with every optional argument in use, outside documented caps.",
     ["inputs", "configurations"], "all admissible inputs of the inverse pairs, in each wave regime",
     "The tests evaluate each direction at stored numbers and never compose them; regimes in which only one direction changes branch are not composed at all.",
     [SR, SC, ST, SB, HT], [("trios S, Dn50, Hs", SR + "vandermeer1988.py"), ("trios", SR + "vandermeer1988_modified.py"), ("pairs", SC + "cubes_double_layer_vandermeer1988.py"), ("toe", ST + "gerding1993.py"), ("rear", SB + "vangent2007.py")])
prop("C10", "Iterative solutions terminate and satisfy their governing equation",
     "Every result obtained by iteration (local wavelength, run-up with a berm, freeboard with wind, rear-side wave height, toe and rock sizes of implicit formulas, caisson toe depth and wave height) satisfies its governing equation to within the documented stopping tolerance, for every tolerance a caller may choose, or the documented non-convergence warning is given. Every such computation ends for every input, also where no solution exists.",
     ["inputs", "configurations"], "all inputs including extreme and unsolvable ones, all tolerances and iteration limits",
     SAMPLED + "the residual of the governing equation is never evaluated, and inputs that converge slowly or not at all are not in the tests.",
     [F + "core_physics.py", HR, HO + "vangent2025.py", SB, ST, SR], [("dispersion relation", F + "core_physics.py"), ("run-up with berm", HR + "taw2002.py"), ("freeboard with wind", HO + "vangent2025.py"), ("rear-side wave height", SB + "vangent2007.py"), ("toe depth search", ST + "takahashi1990_caisson.py"), ("toe wave height", ST + "etemadshahidi2021.py")])
prop("C11", "Arrays are evaluated element by element",
     "Calling a function with arrays, with arrays mixed with single values, or with whole-number arrays gives for every element exactly the result and the warnings that a call with that element's single values gives, in the same order and shape, also for arrays of more than one dimension. The result of one element never depends on the other elements of the call.",
     ["inputs", "configurations"], "all subsets of array-valued arguments, lengths, element values and element orders of the functions documented for arrays",
     "The tests use arrays in few functions, mostly with elements in the same branch, so mixing of branches, limits or integer truncation between elements is not seen.",
     [HO, HR, HT, SR, SC, ST, SB, F + "core_physics.py"], [("element-wise selection of branches and limits", HO + "taw2002.py"), ("boolean masks", HO + "vangent2025.py"), ("masks", SR + "vandermeer1988.py"), ("iteration over arrays", F + "core_physics.py")])
prop("C12", "Validity warnings are complete, exact and truthful",
     "A call reports a validity-range warning exactly for those quantities that the method restricts, that can be computed from the given input and that lie outside the published range, with the limits themselves counting as inside. The warning names the right quantity, formula, limits and actual value, for every element of an array, and never changes the result.",
     ["inputs", "configurations"], "all inputs, in particular those at and beside a limit, all optional-argument combinations, scalar or array",
     "The tests hardly ever assert warnings: one value per function at most, never the quantities, limits or the value reported, and never the absence of a warning.",
     [F], [("range test", F + "core_utility.py"), ("per-method checks", "check_validity_range in every module under " + F)])
prop("C13", "Functions are pure: no side effects, no memory of earlier calls",
     "A call changes nothing the caller can observe: not its arguments (arrays included), not the published unit properties or other module data, not numerical error handling, warning filters, random state or working directory. The result and warnings of a call depend on its arguments only, whatever was called before it, how often, in which order or from which thread.",
     ["histories", "schedules", "inputs"], "all sequences and interleavings of calls of public functions, with shared argument objects",
     "Each test calls one function on fresh arguments; sequences, shared arrays and concurrent callers are not tested.",
     [F], [("functions without state", F), ("module data", SC + "xbloc.py")],
     state=[("unit properties", "published constants read by all sizing functions", SC + "xbloc.py")])
prop("C14", "Results are dimensionally homogeneous",
     "Expressing the same physical case at another geometric scale with Froude-scaled times, with all densities multiplied by one factor, or with another acceleration of gravity and correspondingly scaled times, scales every result by the power that its dimension demands and leaves dimensionless results and limit flags unchanged. Constants that the methods fix in SI units are the documented exceptions.",
     ["inputs", "configurations"], "all admissible inputs and scale factors",
     "The tests use prototype-scale inputs with standard gravity and water density, so a hard-coded constant or a forgotten argument goes unnoticed.",
     [F], [("gravity and density arguments passed on", HO + "taw2002.py"), ("densities", SB + "vangent2007.py"), ("Goda pressures", FCA + "goda1985.py")])
prop("C15", "Results move in the physical direction and stay within their bounds",
     "More severe loading never gives less overtopping, run-up, damage, force or required unit size, and more resistance never gives more of them; influence factors, coefficients and pressure ratios stay within their published bounds. Mirroring the wave direction changes nothing.",
     ["inputs", "configurations"], "all pairs of admissible inputs that differ in one argument",
     "The tests compare single points with stored numbers; monotonicity and bounds relate pairs and whole ranges of inputs.",
     [F], [("influence factors and caps", HO + "eurotop2018.py"), ("factors", HR + "taw2002.py"), ("coefficient limits", HT + "dangremond1996.py"), ("pressure coefficients", FCA + "goda1985.py")])
prop("C16", "Incomplete input is rejected; equivalent input gives equal results",
     "A call that lacks a required alternative (for example both rock size and rock mass, or all influence factors of one group) or contradicts itself is rejected with an error instead of returning a number. Where the same case can be described in two ways (diameter or mass, factor or its components, given or derived quantity), both descriptions give the same result.",
     ["inputs", "configurations"], "all combinations of optional alternatives of the public functions",
     "The tests choose one way of describing a case per function and rarely omit arguments.",
     [F], [("alternatives for Dn50 and M50", SR + "vandermeer1988.py"), ("influence factors from geometry", HO + "taw2002.py"), ("influence factors from geometry", HO + "eurotop2018.py"), ("rejected input", F + "core_physics.py")])
prop("C17", "Exported calculation files contain exactly the given cases",
     "The input files written for the external overtopping tools hold one row per case, in order, with every given quantity at full precision in its documented column, whatever mix of single values and arrays is supplied. Writing affects the named file only and completely replaces earlier content; cases that cannot be written, or quantities of unequal length, are reported as an error.",
     ["inputs", "histories"], "all mixes of single values and arrays, integer or floating, lengths, file names and previous file contents",
     "The tests do not write these files.",
     [HO + "denbieman2021.py", HO + "vangent2007.py"], [("table of cases", HO + "denbieman2021.py"), ("fixed-order rows", HO + "vangent2007.py")], ["the written files"])
prop("C18", "Wall forces are the resultants of their pressure distribution",
     "The horizontal and uplift forces and their moments on a caisson equal the integrals of the reported pressure distribution over the wall and base, the weight, bearing pressures and safety factors are in static equilibrium with them, and the combined computations report the same numbers as the separate ones. Crest-wall forces for oblique waves reduce to the perpendicular forces at normal incidence and agree with their own run-up based form.",
     ["inputs", "configurations"], "all admissible caissons, wave conditions and directions",
     "The tests compare the parts and the combined results with stored numbers for a few caissons; equilibrium between them is never evaluated.",
     [FCA + "goda1985.py", FCW + "vangentvanderwerf2019.py"], [("forces and moments", FCA + "goda1985.py"), ("composition", FCW + "vangentvanderwerf2019.py")])
prop("C19", "Omitted arguments take their documented default; order is as documented",
     "Leaving an optional argument out gives exactly the result and warnings of passing its documented default, also through functions that call each other. Passing arguments by position in the documented order equals passing them by name.",
     ["inputs", "configurations"], "all subsets of optional arguments of all public functions",
     "The tests pass most arguments in one fixed form; a default that differs between a function and the function it calls is not exercised.",
     [F], [("defaults forwarded between functions", HO + "taw2002.py"), ("defaults", HO + "vangent2025.py"), ("defaults", SB + "vangentpozueta2004.py")])
prop("C20", "Dimensional and dimensionless variants agree, with truthful limit flags",
     "Where a method offers a result both in dimensional and in dimensionless form, the dimensional result is the dimensionless one times its scale for every input; where it offers the same results as a tuple and as a dictionary, they are equal. Where a method returns whether its maximum governs, the flag is true exactly when the unlimited value exceeds the maximum, and the returned value (before a design margin is applied) never exceeds it.",
     ["inputs", "configurations"], "all admissible inputs and optional-argument combinations, scalar or array",
     "The tests check values of either form at stored numbers, and the flags hardly at all.",
     [HO, FCW, HR], [("maximum governs", HO + "taw2002.py"), ("maximum governs", HO + "eurotop2018.py"), ("maximum governs", HO + "vangent2025.py")])

TECH = {
    "fid": ("online oracle: every observed call compared with an independent reference model",
            "Exploration: real executions under random, boundary-seeking and array workloads, each judged by a second implementation of the published formulas; assumes that model, which was written from the documentation and publications and agrees with the repository's tests."),
    "rel": ("online relation monitor over recorded executions (metamorphic), filtered by a reference model",
            "Exploration: relations between results of real executions; inputs where the published formula itself does not satisfy the relation are not judged."),
    "mon": ("runtime monitor over recorded executions", "Exploration: monitored executions of the real code under random, hostile and stress workloads."),
}
KIND = {**{"C%02d" % i: "fid" for i in range(1, 8)}, "C12": "fid", **{c: "rel" for c in ("C08", "C09", "C10", "C14", "C15", "C16", "C18", "C19", "C20")},
        "C11": "mon", "C13": "mon", "C17": "mon"}
OWN = {
    "C10": ("residual and termination monitor on every iterative computation",
            "Exploration: the governing equation is evaluated with the code's own forward functions on real executions, and every call is timed by an alarm; inputs where the model does not converge either are not judged for the residual."),
    "C11": ("differential monitor: array execution against per-element executions of the same code",
            "Exploration: real executions of array calls compared with single-value calls of the same code; iterations that stop jointly are allowed the documented tolerance."),
    "C13": ("state-snapshot, replay and thread-interleaving monitor",
            "Exploration: arguments, module data, numpy/warnings/random state and cwd are snapshotted around calls; recorded batches are replayed in other orders, in fresh processes and from threads, and compared bit by bit."),
    "C17": ("file-effect monitor in a scratch directory, files parsed and compared",
            "Exploration: the written files are parsed independently and compared with the given cases; all effects are kept in a scratch directory."),
    "C12": ("online oracle on the recorded warning stream against an independent table of ranges",
            "Exploration: every warning of real executions is compared with the reference model's ranges, with inputs steered to the limits."),
}


def main():
    from monitor.registry import CHECKS
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i not in CHECKS:
            na.append({"property": i, "reason": "check not built yet"})
            continue
        t, n = OWN.get(i) or TECH[KIND[i]]
        checks.append({"property": i, "quick_cmd": "./check.sh %s --tier quick" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the monitors wrap the functions from outside. Known and fixed findings: known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
