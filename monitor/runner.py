"""Runs one check: workers observe executions in parallel, the parent decides and writes the evidence."""
import argparse
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import numpy as np  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")


def plain(x):
    if isinstance(x, np.ndarray):
        return {"array": x.tolist(), "dtype": str(x.dtype)}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def show(args):
    return ", ".join("%s=%s" % (k, np.array2string(v, separator=",", precision=17, max_line_width=10 ** 6)
                                if isinstance(v, np.ndarray) else repr(v)) for k, v in args.items())


class Rec:
    """what one worker observed"""

    def __init__(self):
        self.n = 0  # executions judged
        self.undecided = 0
        self.sigs = set()  # distinct situations among the judged executions
        self.by = {}  # per function
        self.viol = []
        self.samples = []
        self.count = {}  # further measured counters
        self.calls = 0

    def ok(self, sig, fn=None):
        self.n += 1
        self.sigs.add(hash_sig(sig))
        if fn:
            self.by[fn] = self.by.get(fn, 0) + 1

    def add(self, k, v=1):
        self.count[k] = self.count.get(k, 0) + v

    def violation(self, what, fn, args, **more):
        if len(self.viol) < 25:
            d = {"function": fn, "what": what, "arguments": plain(args), "call": show(args) if isinstance(args, dict) else str(args)}
            d.update(plain(more))
            self.viol.append(d)

    def sample(self, text):
        if len(self.samples) < 4:
            self.samples.append(text)


def hash_sig(sig):
    return int.from_bytes(hashlib.blake2b(repr(sig).encode(), digest_size=8).digest(), "big")


def _worker(check, wid, nw, seed, secs, conn):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        rec = Rec()
        np.seterr(all="ignore")
        check.work(rec, wid, nw, np.random.SeedSequence([seed, check.number, wid]), time.monotonic() + secs)
        conn.send(("ok", rec))
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError) as e:
        # the comparison itself failed on what a function returned: not a result of the documented kind
        if not rec.viol:
            rec.violation("an outcome could not be interpreted: %r" % e, check.pid, {}, traceback=traceback.format_exc())
        conn.send(("ok", rec))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()


def run(check, tier, seed):
    t0 = time.monotonic()
    secs = check.secs[tier]
    nw = check.workers or max(2, min(8, os.cpu_count() or 2))
    check.prepare(tier)
    ctx = mp.get_context("fork")
    procs = []
    for w in range(nw):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(check, w, nw, seed, secs, b), daemon=False)
        p.start()
        b.close()
        procs.append((p, a))
    recs, errors = [], []
    limit = time.monotonic() + secs * 2 + 120
    for p, a in procs:
        try:
            if a.poll(max(1.0, limit - time.monotonic())):
                k, v = a.recv()
                (recs if k == "ok" else errors).append(v)
            else:
                errors.append("worker did not finish in time")
                p.kill()
        except EOFError:
            errors.append("worker died")
    for p, a in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    tot = Rec()
    for r in recs:
        tot.n += r.n
        tot.undecided += r.undecided
        tot.calls += r.calls
        tot.sigs |= r.sigs
        tot.viol += r.viol
        tot.samples += r.samples
        for k, v in r.by.items():
            tot.by[k] = tot.by.get(k, 0) + v
        for k, v in r.count.items():
            if isinstance(v, (int, float)):
                tot.count[k] = tot.count.get(k, 0) + v
            else:
                tot.count.setdefault(k, set()).update(v)
    check.finish(tot, tier)
    wall = time.monotonic() - t0
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "evaluations": tot.n,
        "distinct_nontrivial": len(tot.sigs),
        "rule": check.rule,
        "samples": tot.samples[:8],
        "undecided": tot.undecided,
        "calls_observed": tot.calls,
        "functions_judged": len(tot.by),
        "least_judged": dict(sorted(tot.by.items(), key=lambda kv: kv[1])[:5]),
        "counters": {k: (v if isinstance(v, (int, float)) else len(v)) for k, v in sorted(tot.count.items())},
        "workers": len(recs),
    }
    ev = {"property": check.pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
          "violations": len(tot.viol), "assumptions": check.assumptions}
    with open(os.path.join(EVID, check.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_DEBUG"):
        for k, v in tot.count.items():
            if isinstance(v, set) and "not" in k:
                print(k, sorted(v))
    for k in check.known(tot):
        print("KNOWN-FINDING: property=%s %s" % (check.pid, k))
    if tot.viol:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        path = os.path.join(EVID, "replay", check.pid + ".json")
        with open(path, "w") as f:
            json.dump({"property": check.pid, "seed": seed, "tier": tier, "violations": tot.viol}, f, indent=1)
        seen = set()
        for v in tot.viol:
            if v["function"] in seen or len(seen) >= 5:
                continue
            seen.add(v["function"])
            print("  %s: %s\n    with %s" % (v["function"], v["what"], v["call"][:600]))
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        return 1
    if errors:
        print("check %s could not complete:\n%s" % (check.pid, errors[0]))
        return 2
    few = check.enough(tot, tier)
    if few:
        print("check %s is inconclusive: %s" % (check.pid, few))
        return 2
    print("%s held on %d judged executions (%d distinct situations, %d functions, %d undecided) in %.1f s"
          % (check.pid, tot.n, len(tot.sigs), len(tot.by), tot.undecided, wall))
    return 0


class Check:
    pid = "C00"
    secs = {"quick": 45, "thorough": 240}
    workers = None
    rule = ""
    assumptions = []
    min_eval = 2000

    @property
    def number(self):
        return int(self.pid[1:])

    def prepare(self, tier):
        from . import engine
        engine.load_refs()
        self.mods = engine.load_code()
        engine.LITS.update(engine.harvest())

    def work(self, rec, wid, nw, ss, deadline):
        raise NotImplementedError

    def finish(self, tot, tier):
        pass

    def known(self, tot):
        return []

    def enough(self, tot, tier):
        if tot.n < self.min_eval:
            return "only %d executions judged" % tot.n
        return None


def main(registry):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--secs", type=float)
    a = ap.parse_args()
    c = registry[a.property]()
    if a.secs:
        c.secs = {"quick": a.secs, "thorough": a.secs}
    try:
        rc = run(c, a.tier, a.seed)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
