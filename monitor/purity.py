"""C13: calls leave no trace and remember nothing.

Monitors: (1) a snapshot of everything a caller can observe, before and after each call; (2) recorded batches of calls
replayed in other orders, each in a process forked from the same pristine state, and compared call by call; (3) the
same batches run by threads that are made to switch inside and between the functions; (4) results overwritten by the
caller before the call is repeated.
"""
import decimal
import gc
import io
import locale
import logging
import math
import os
import pickle
import random
import select
import signal
import sys
import threading
import time
import traceback
import types
import warnings

import numpy as np

from . import engine as E
from .model import REG
from .relations import num
from .runner import Check, Rec, show


def copy_args(a):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()}


def freeze(v):
    """a comparable form of a result"""
    if isinstance(v, tuple):
        return ("t",) + tuple(freeze(x) for x in v)
    if isinstance(v, list):
        return ("l",) + tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return ("d",) + tuple((str(k), freeze(x)) for k, x in v.items())
    if isinstance(v, (np.ndarray, np.generic)):
        v = np.asarray(v)
        if v.dtype == object:
            return ("o", repr(v))
        return ("a", v.shape, v.dtype.kind, tuple(v.reshape(-1).tolist()))
    if isinstance(v, (bool, int, float, str)) or v is None:
        return ("s", v)
    return ("o", type(v).__name__)


def alike(a, b):
    """equal up to the last bits (vector units may round differently)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (math.isnan(a) and math.isnan(b)):
            return True
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, complex) or isinstance(b, complex):
        return isinstance(a, complex) and isinstance(b, complex)
    return type(a) is type(b) and a == b


def outcome(o):
    ws = sorted((repr(w[:4]), float(w[4]) if math.isfinite(w[4]) else 1e308) for w in o.warns)
    return (freeze(o.value) if o.exc is None else ("raised", type(o.exc).__name__), tuple(ws), tuple(sorted(o.other)))


def square(v):
    n = v.size
    k = max(d for d in range(1, int(n ** 0.5) + 1) if n % d == 0)
    return v.reshape((k, n // k)).copy()


def deep(v, d=0):
    """comparable copy of module data"""
    if isinstance(v, dict) and d < 6:
        return ("d", tuple(sorted((repr(k), deep(x, d + 1)) for k, x in v.items())))
    if isinstance(v, (list, tuple)) and d < 6:
        return ("l", tuple(deep(x, d + 1) for x in v))
    if isinstance(v, np.ndarray):
        return ("a", v.tobytes(), str(v.dtype), v.shape)
    if isinstance(v, (int, float, str, bool, complex)) or v is None:
        return ("s", repr(v))
    return ("x",)


class World:
    """everything outside the arguments that a caller can observe"""

    def __init__(self, mods):
        self.data = []
        for n, m in mods.items():
            for k, v in vars(m).items():
                if k.startswith("_") or isinstance(v, (types.ModuleType, types.FunctionType, type)) or callable(v):
                    continue
                if isinstance(v, (dict, list, tuple, np.ndarray, int, float, str)):
                    self.data.append((n, k, m))
        self.defaults = []
        for n, m in mods.items():
            for k, v in vars(m).items():
                f = E.real(v) if isinstance(v, types.FunctionType) else None
                if f is not None and f.__module__ == n and f.__defaults__ and any(isinstance(x, (dict, list, np.ndarray)) for x in f.__defaults__):
                    self.defaults.append(f)

    def snap(self):
        return {
            "module data": tuple((n, k, deep(getattr(m, k, None))) for n, k, m in self.data),
            "default arguments": tuple(deep(f.__defaults__) for f in self.defaults),
            "numpy error handling": tuple(sorted(np.geterr().items())),
            "numpy print options": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
            "warning filters": tuple(repr(f) for f in warnings.filters),
            "warning display": id(warnings.showwarning),
            "random state": (hash(random.getstate()), hash(np.random.get_state()[1].tobytes()), np.random.get_state()[2]),
            "working directory": os.getcwd(),
            "environment": hash(tuple(sorted(os.environ.items()))),
            "threads": threading.active_count(),
            "umask": umask(),
            "recursion limit": sys.getrecursionlimit(),
            "signal handlers": signal.getsignal(signal.SIGINT) is signal.SIG_IGN,
            "numpy error callback": id(np.geterrcall()),
            "import path": tuple(sys.path),
            "logging": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
            "locale": locale.setlocale(locale.LC_NUMERIC),
            "interpreter settings": (gc.isenabled(), sys.getswitchinterval(), repr(decimal.getcontext())),
        }


    def compare(self, rec, s0, when, calls):
        """what only the first of many calls changes"""
        s1 = self.snap()
        bad = [k for k in s0 if s0[k] != s1[k]]
        if not bad:
            return
        for k, a in calls:  # the call that does it is found in the process of the calls of one function
            rec.ok((k, "surroundings"), k)
        rec.violation("%s changed during %s" % (" and ".join(bad), when), " ".join(sorted({k for k, _ in calls}))[:300], {})


def umask():
    u = os.umask(0o022)
    os.umask(u)
    return u


def fds():
    try:
        return len(os.listdir("/proc/self/fd"))
    except OSError:
        return 0


class C13(Check):
    pid = "C13"
    secs = {"quick": 45, "thorough": 240}
    rule = ("one evaluation = one call whose arguments and surroundings were compared before and after it, or one recorded call whose "
            "outcome was compared between two histories, processes or threads; distinct = different combinations of function, supplied "
            "arguments, array layout, kind of history and outcome")
    assumptions = ["private caches are allowed as long as no outcome depends on them", "results may differ in the last bits (1e-12)"]

    def prepare(self, tier):
        super().prepare(tier)
        self.es = [e for e in REG.values() if E.resolve(e) is not None]
        self.scratch = None

    # ------------------------------------------------------------ workload
    def call_args(self, e, rng, prev=None):
        a = E.sample(e, rng, prev, p_opt=0.5)
        for k in ("max_iterations", "max_iter"):
            if k in a:
                a[k] = min(int(a[k]), 500)
        r = rng.random()
        if r < 0.4:
            a = E.to_array(e, rng, a)
        elif r < 0.45:
            a = E.to_array(e, rng, a, n=int(rng.integers(7, 70)))
        elif r < 0.6:
            a = E.dress(e, rng, a)
        return a

    def family(self, e, rng):
        """a call and near relatives of it: what a memory keyed on part of the arguments would confuse"""
        a = self.call_args(e, rng)
        out = [a]
        for k in list(a):
            b = copy_args(a)
            v = b[k]
            if isinstance(v, bool):
                b[k] = not v
            elif isinstance(v, np.ndarray):
                i = int(rng.integers(len(v)))
                b[k] = v.astype(float).copy()
                b[k][i] *= 1 + float(rng.choice([1e-9, 1e-6, 1e-3, 0.1, 0.5]))
                if rng.random() < 0.3:
                    b[k] = b[k][::-1].copy()
            elif isinstance(v, float):
                b[k] = v * (1 + float(rng.choice([1e-9, 1e-6, 1e-3, 0.1, 0.5])))
            elif isinstance(v, int):
                b[k] = v + 1 if k not in ("max_iter", "max_iterations") else v
            else:
                s = E.sample(e, rng, p_opt=1.0)
                b[k] = s.get(k, v)
            out.append(b)
        for k in e.params:
            if k not in e.required:
                b = copy_args(a)
                if k in b:
                    del b[k]
                else:
                    s = E.sample(e, rng, p_opt=1.0)
                    if k not in s:
                        continue
                    b[k] = s[k] if k not in ("max_iter", "max_iterations") else 200
                out.append(b)
        if len(out) > 12:
            keep = rng.choice(len(out) - 1, 11, replace=False) + 1
            out = [out[0]] + [out[i] for i in keep]
        return [(e.key, x) for x in out]

    def batch(self, rng, size):
        calls = []
        e = self.es[int(rng.integers(len(self.es)))]
        near = self.near(e) if rng.random() < 0.6 else self.es  # functions that could share a memory
        calls += self.family(e, rng)
        while len(calls) < size:
            calls += self.family(near[int(rng.integers(len(near)))], rng)
        # argument objects are shared between the calls of a batch, as a caller would
        return calls

    def near(self, e):
        """functions of the modules that use, or are used by, the function's module"""
        if not hasattr(self, "uses"):
            self.uses = {}
            for n, m in self.mods.items():
                self.uses[n] = {v.__name__ for v in vars(m).values() if isinstance(v, types.ModuleType) and v.__name__ in self.mods}
        m = E.BASE + e.module
        ms = {m} | self.uses.get(m, set()) | {k for k, v in self.uses.items() if m in v}
        return [x for x in self.es if E.BASE + x.module in ms]

    # ------------------------------------------------------------ work
    def work(self, rec, wid, nw, ss, deadline):
        self.world = World(self.mods)
        rng = np.random.default_rng(ss)
        t0 = time.monotonic()
        span = deadline - t0
        k = 0
        while time.monotonic() < deadline and len(rec.viol) < 10:
            self.histories(rec, rng, 60 if span < 60 else 120)
            if time.monotonic() > deadline:
                break
            if k % 2 == 0:
                self.threads(rec, rng)
            self.long_history(rec, rng, 2.5 if span < 60 else 6.0)
            k += 1
        rec.count["functions_called"] = {REG[x].key for x in rec.by if x in REG}

    def long_history(self, rec, rng, secs):
        """thousands of snapshotted calls in one process; a set of probes is asked before and after them"""
        seed = int(rng.integers(1 << 62))
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 0
            try:
                os.close(r)
                rng = np.random.default_rng(seed)
                sub = Rec()
                probes = self.batch(rng, 50)
                first = self.world.snap()
                before = [outcome(E.observe(E.resolve(REG[k]), a)) for k, a in probes]
                self.world.compare(sub, first, "the first %d calls" % len(probes), probes)
                self.traces(sub, rng, time.monotonic() + secs)
                for (k, a), o in zip(probes, before):
                    n = outcome(E.observe(E.resolve(REG[k]), a))
                    sub.ok((k, tuple(sorted(a)), "long history"), k)
                    sub.add("probes_after_long_histories")
                    if not alike(n, o):
                        sub.violation("outcome %s at first, %s after %d other calls" % (repr(o)[:300], repr(n)[:300], sub.n), k, a)
                        break
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(sub))
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        os.close(w)
        sub = self.collect((pid, r), secs + 60)
        if sub is None:
            raise E.CheckError("a monitored process ended unexpectedly")
        rec.n += sub.n
        rec.calls += sub.calls
        rec.sigs |= sub.sigs
        rec.viol += sub.viol
        rec.samples += sub.samples[:2]
        for a, b in ((rec.by, sub.by), (rec.count, sub.count)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v

    # ------------------------------------------------------------ 1. traces of a call
    def traces(self, rec, rng, until):
        out, err = sys.stdout, sys.stderr
        while time.monotonic() < until and len(rec.viol) < 10:
            e = self.es[int(rng.integers(len(self.es)))]
            f = E.resolve(e)
            a = self.call_args(e, rng)
            if rng.random() < 0.12:  # a call that fails has to leave nothing behind either
                k, a = self.nasty(rng)
                e = REG[k]
                f = E.resolve(e)
                if rng.random() < 0.4:
                    a = E.to_array(e, rng, a)
            mode = int(rng.integers(5))
            if mode == 4:
                a = {k: square(v) if isinstance(v, np.ndarray) else v for k, v in a.items()}
            b = copy_args(a)
            if mode == 1:
                for v in b.values():
                    if isinstance(v, np.ndarray):
                        v.flags.writeable = False
            elif mode == 2:  # strided views of a larger array
                for k, v in b.items():
                    if isinstance(v, np.ndarray):
                        big = np.full(2 * len(v) + 3, 7, dtype=v.dtype)
                        big[1:1 + 2 * len(v):2] = v
                        b[k] = big[1:1 + 2 * len(v):2]
            elif mode == 3:  # the same object for equal arguments
                arrs = [k for k, v in b.items() if isinstance(v, np.ndarray)]
                if len(arrs) > 1 and rng.random() < 0.7:
                    b[arrs[1]] = b[arrs[0]]
                    a[arrs[1]] = a[arrs[0]].copy()
            held = dict(b)
            form = {k: (v.flags.writeable, v.strides) for k, v in b.items() if isinstance(v, np.ndarray)}
            base = {k: (v.base.copy() if isinstance(v, np.ndarray) and v.base is not None and isinstance(v.base, np.ndarray) else None) for k, v in b.items()}
            s0, n0 = self.world.snap(), fds()
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            try:
                # observed without the usual catch of warnings, so that changed filters are seen
                with np.errstate(**dict(zip(("divide", "over", "under", "invalid"), rng.choice(["warn", "warn", "warn", "ignore"], 4).tolist()))):
                    inner0 = np.geterr()
                    filt0 = list(warnings.filters)
                    with warnings.catch_warnings(record=True):
                        warnings.simplefilter("always")
                        f0 = list(warnings.filters)
                        signal.signal(signal.SIGALRM, E._alarm)
                        signal.setitimer(signal.ITIMER_REAL, E.LIMIT[0])
                        try:
                            v = f(**b)
                            exc = None
                        except Exception as x:
                            v, exc = None, x
                        finally:
                            signal.setitimer(signal.ITIMER_REAL, 0)
                        filters_changed = list(warnings.filters) != f0
                    errstate_changed = np.geterr() != inner0
                printed = sys.stdout.getvalue() + sys.stderr.getvalue()
            finally:
                sys.stdout, sys.stderr = out, err
            s1, n1 = self.world.snap(), fds()
            rec.ok((e.key, tuple(sorted(a)), tuple(k for k, x in a.items() if isinstance(x, np.ndarray)), mode, type(exc).__name__), e.key)
            rec.add("calls_snapshotted")
            rec.calls += 1
            if rec.n % 499 == 5:
                rec.sample("%s(%s): arguments and surroundings unchanged" % (e.name, show(a)[:150]))
            bad = []
            for k, x in a.items():
                y = held[k]
                if isinstance(x, np.ndarray):
                    if y.shape != x.shape or y.dtype != x.dtype or not np.array_equal(x, y, equal_nan=True):
                        bad.append("argument %s was changed from %s to %s" % (k, x.tolist(), y.tolist()))
                    if (y.flags.writeable, y.strides) != form[k]:
                        bad.append("the layout or write access of argument %s was changed" % k)
                    if base[k] is not None and isinstance(y.base, np.ndarray) and not np.array_equal(base[k], y.base, equal_nan=True):
                        bad.append("memory beside argument %s was changed" % k)
            if set(b) != set(a):
                bad.append("the dictionary of arguments was changed")
            for k in s0:
                if s0[k] != s1[k]:
                    bad.append("%s changed%s" % (k, self.detail(s0[k], s1[k])))
            if filters_changed:
                bad.append("warning filters changed during the call")
            if errstate_changed:
                bad.append("numpy error handling changed during the call")
            if n1 > n0:
                bad.append("%d files left open" % (n1 - n0))
            if printed:
                bad.append("printed %r" % printed[:80])
            if exc is not None and mode in (1, 2) and not bad:
                # only a plain copy tells whether the input itself is at fault
                o = E.observe(f, copy_args(a))
                if o.exc is None:
                    bad.append("raised %r for %s arrays only" % (exc, "read-only" if mode == 1 else "strided"))
            if exc is None and not bad:
                self.again(rec, rng, e, f, a, v, bad)
                if mode == 0 and rng.random() < 0.3:
                    self.reused(rec, rng, f, held, bad)
            for t in bad:
                rec.violation(t, e.key, a)

    def detail(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            d = [x[:2] if isinstance(x, tuple) else x for x, y in zip(a, b) if x != y]
            return ": %s" % repr(d[:2])[:300]
        return ""

    def reused(self, rec, rng, f, held, bad):
        """the caller refills the same array objects and calls again"""
        arrs = [k for k, x in held.items() if isinstance(x, np.ndarray) and x.dtype.kind == "f"]
        if not arrs:
            return
        for k in arrs:
            held[k] *= float(rng.uniform(0.8, 1.2))
        fresh = outcome(E.observe(f, copy_args(held)))
        same = outcome(E.observe(f, held))
        rec.add("calls_with_refilled_arrays")
        if not alike(fresh, same):
            bad.append("refilled argument arrays give %s, fresh ones %s" % (repr(same)[:200], repr(fresh)[:200]))

    def again(self, rec, rng, e, f, a, v, bad):
        """the caller overwrites what was returned, then asks again"""
        first = freeze(v)
        if rng.random() > 0.35:
            return
        for x in ([v] if isinstance(v, np.ndarray) else list(v) if isinstance(v, tuple) else list(v.values()) if isinstance(v, dict) else []):
            if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
                x[...] = -77.0
        if isinstance(v, dict):
            for k in list(v):
                v[k] = "overwritten"
        o = E.observe(f, copy_args(a))
        rec.add("calls_repeated_after_overwriting")
        if o.exc is not None or not alike(freeze(o.value), first):
            bad.append("repeated call gives %r instead of %r" % (o.value if o.exc is None else o.exc, first))

    # ------------------------------------------------------------ 2. histories
    def histories(self, rec, rng, size):
        calls = self.batch(rng, size)
        n = len(calls)
        orders = [list(range(n)), list(range(n))[::-1], list(rng.permutation(n)), [int(i) for i in rng.permutation(n) for _ in (0, 1)]]
        hostile = [self.nasty(rng) for _ in range(12)]
        kids = []
        for j, od in enumerate(orders):
            kids.append(self.child(calls, od, hostile if j == 2 else None))
        # and a few calls each in a process of its own
        alone = [int(i) for i in rng.choice(n, min(6, n), replace=False)]
        for i in alone:
            kids.append(self.child(calls, [i], None))
        got = [self.collect(k) for k in kids]
        if any(g is None for g in got):
            rec.undecided += n
            return
        ref = got[0]
        rec.calls += sum(len(x) for g in got for x in g.values())
        rec.add("histories_replayed", len(orders))
        rec.add("pristine_processes", len(kids))
        for j, g in enumerate(got[1:], 1):
            for i, res in g.items():
                for o in res:
                    key, a = calls[i]
                    rec.ok((key, tuple(sorted(a)), tuple(k for k, x in a.items() if isinstance(x, np.ndarray)), "history", min(j, 4), o[0][0] == "raised"), key)
                    if not alike(o, ref[i][0]):
                        what = "reverse order" if j == 1 else "shuffled order after failing calls" if j == 2 else "repeated twice, shuffled" if j == 3 else "a fresh process"
                        rec.violation("outcome %s in one history, %s in another (%s)" % (repr(ref[i][0])[:300], repr(o)[:300], what), key, a)
                        return

    def nasty(self, rng):
        e = self.es[int(rng.integers(len(self.es)))]
        a = E.sample(e, rng, p_opt=0.6)
        for k in list(a):
            if isinstance(a[k], float) and rng.random() < 0.4:
                a[k] = float(rng.choice([0.0, math.nan, -1.0, 1e9]))
        if a and rng.random() < 0.3:
            a.pop(list(a)[int(rng.integers(len(a)))])
        for k in ("max_iterations", "max_iter"):
            if k in a and isinstance(a[k], (int, float)):
                a[k] = 50
        return (e.key, a)

    def child(self, calls, order, hostile):
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        code = 0
        try:
            os.close(r)
            fns = {k: E.resolve(REG[k]) for k, _ in calls}
            res = {}
            for c, i in enumerate(order):
                if hostile and c % 5 == 0:
                    k, a = hostile[(c // 5) % len(hostile)]
                    E.observe(E.resolve(REG[k]), copy_args(a))
                k, a = calls[i]
                res.setdefault(i, []).append(outcome(E.observe(fns[k], a)))
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        os._exit(code)

    def collect(self, kid, limit=60):
        pid, r = kid
        data = []
        end = time.monotonic() + limit
        while True:
            ok, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
            if not ok:
                os.kill(pid, signal.SIGKILL)
                break
            x = os.read(r, 1 << 16)
            if not x:
                break
            data.append(x)
        os.close(r)
        os.waitpid(pid, 0)
        try:
            return pickle.loads(b"".join(data))
        except Exception:
            return None

    # ------------------------------------------------------------ 3. threads
    def threads(self, rec, rng):
        """the same functions at the same time from several threads, switching at every function boundary"""
        calls = self.batch(rng, 36)
        calls = [c for c in calls if REG[c[0]].kind != "iterative" or rng.random() < 0.5]
        kid = self.threaded(calls, int(rng.integers(1 << 30)))
        g = self.collect(kid, 60)
        if g is None:
            rec.undecided += 1
            return
        rec.add("thread_switch_points", g["switches"])
        rec.add("distinct_interleavings", g["inter"])
        for i, (key, a) in enumerate(calls):
            for o in g["par"].get(i, []):
                rec.ok((key, tuple(sorted(a)), tuple(k for k, x in a.items() if isinstance(x, np.ndarray)), "threads"), key)
                if not alike(o, g["seq"][i]):
                    rec.violation("from several threads %s, otherwise %s" % (repr(o)[:300], repr(g["seq"][i])[:300]), key, a)
                    return

    def threaded(self, calls, seed):
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        code = 0
        try:
            os.close(r)
            signal.alarm(50)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            warnings.simplefilter("ignore")
            np.seterr(all="ignore")
            log = []
            rnd = random.Random(seed)
            yielding = [False]
            for name, m in self.mods.items():
                if not name.startswith(E.BASE):
                    continue
                for k, f in list(vars(m).items()):
                    if isinstance(f, types.FunctionType) and f.__module__ == name:
                        setattr(m, k, self.switching(f, log, rnd, yielding))
            fns = {k: E.resolve(REG[k]) for k, _ in calls}

            def run(i):
                k, a = calls[i]
                try:
                    return freeze(fns[k](**a))
                except Exception as e:
                    return ("raised", type(e).__name__)
            seq = [run(i) for i in range(len(calls))]
            yielding[0] = True
            sys.setswitchinterval(1e-6)
            par = {}
            lock = threading.Lock()
            nt = 6
            bar = threading.Barrier(nt)

            def body(t):
                order = list(range(len(calls)))
                random.Random(seed + t).shuffle(order)
                if t % 2:
                    order = sorted(order)  # the same function in neighbouring threads
                bar.wait()
                for i in order:
                    v = run(i)
                    with lock:
                        par.setdefault(i, []).append(v)
            ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(nt)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(45)
            sys.setswitchinterval(0.005)
            if any(t.is_alive() for t in ts):
                os._exit(1)
            ids = {}
            sw = 0
            inter = set()
            last = None
            for th, fn in log:
                if last is not None and last[0] != th:
                    sw += 1
                    inter.add((last[1], fn))
                last = (th, fn)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps({"seq": seq, "par": par, "switches": sw, "inter": len(inter)}))
        except BaseException:
            code = 1
        os._exit(code)

    def switching(self, f, log, rnd, on):
        def w(*a, **kw):
            if on[0]:
                log.append((threading.get_ident(), f.__name__))
                if rnd.random() < 0.5:
                    time.sleep(0)
            v = f(*a, **kw)
            if on[0] and rnd.random() < 0.3:
                time.sleep(0)
            return v
        w.__wrapped__ = f
        return w


CHECKS = {"C13": C13}
