"""C17: the files written for the external overtopping tools.

The writers run in a scratch directory; the monitor compares the directory tree before and after each call, reads the
file back as the external tool would, and watches (audit events) which paths are opened for writing.  Faults are
injected: a missing directory, a directory in the place of the file, a full device behind the file.
"""
import os
import shutil
import sys
import tempfile
import threading
import time

import numpy as np

from . import engine as E
from .runner import Check

XGB = ("hydraulic.wave_overtopping.denbieman2021", "write_input_file_XGB_Overtopping", "input_XGB_Overtopping", ".csv")
NN = ("hydraulic.wave_overtopping.vangent2007", "write_input_file_NN_Overtopping", "input_NN_Overtopping", ".inp")
XGB_COLS = [("b", "beta"), ("h", "h"), ("Hm0 toe", "Hm0"), ("Tm-1,0 toe", "Tmm10"), ("ht", "ht"), ("Bt", "Bt"), ("hb", "db"), ("B", "B_berm"),
            ("Rc", "Rc"), ("Ac", "Ac"), ("Gc", "Gc"), ("cotad", "cot_alpha_down"), ("cotau", "cot_alpha_up"), ("gf_d", "gamma_f_down"),
            ("gf_u", "gamma_f_up"), ("tanaf", "tan_alpha_f")]
NN_COLS = ["beta", "h", "Hm0", "Tmm10", "ht", "Bt", "gamma_f", "cot_alpha_down", "cot_alpha_up", "Rc", "B_berm", "db", "tan_alpha_B", "Ac", "Gc"]
NN_WORDS = ["angle of wave attack", "depth in front", "wave height", "wave period", "depth at the toe", "width of toe", "roughness", "down slope",
            "upper slope", "crest freeboard", "berm width", "depth at the berm", "berm slope", "armour freeboard", "armour width"]
XGB_ORDER = ["beta", "h", "Hm0", "Tmm10", "Bt", "ht", "B_berm", "db", "Rc", "Ac", "Gc", "cot_alpha_down", "cot_alpha_up", "gamma_f_down",
             "gamma_f_up", "tan_alpha_f"]
NN_ORDER = XGB_ORDER[:13] + ["gamma_f", "tan_alpha_B"]
SEP = ";"

RANGE = {"beta": (0, 80), "h": (0.5, 30), "Hm0": (0.1, 10), "Tmm10": (1, 20), "Bt": (0, 15), "ht": (0.3, 25), "B_berm": (0, 20), "db": (-3, 5),
         "Rc": (-1, 15), "Ac": (-1, 15), "Gc": (0, 12), "cot_alpha_down": (0, 7), "cot_alpha_up": (-2, 7), "gamma_f": (0.3, 1),
         "gamma_f_down": (0.3, 1), "gamma_f_up": (0.3, 1), "tan_alpha_f": (0, 1), "tan_alpha_B": (0, 0.1)}

WATCH = threading.local()


def hook(event, args):
    log = getattr(WATCH, "log", None)
    if log is None:
        return
    if event == "open":
        p, mode, flags = args
        if isinstance(p, (str, bytes)) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            log.append(os.path.abspath(os.fsdecode(p)))
    elif event in ("os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate"):
        for p in args:
            if isinstance(p, (str, bytes)):
                log.append(os.path.abspath(os.fsdecode(p)))
    elif event == "os.chdir":
        log.append("chdir")


def value(rng, k):
    lo, hi = RANGE[k]
    u = rng.random()
    if u < 0.08:
        return 0.0
    if u < 0.2:
        if rng.random() < 0.06:
            return float(rng.choice([np.nan, np.nan, np.inf, -np.inf]))
        return float(rng.choice([1e-7, 1e-5, 12345.678901234567, 0.1 + 0.2, 1 / 3, 1e16 / 7, -1e-3, 100000.0, 1e-300, 123456789.123, 5e-324]))
    if u < 0.3:
        return float(np.round(rng.uniform(lo, hi), int(rng.integers(0, 4))))
    return float(rng.uniform(lo, hi))


def column(rng, k, n, layout):
    """a column of n cases; n is None for single values"""
    if n is None or (layout == "mixed" and rng.random() < 0.5):
        v = value(rng, k)
        u = rng.random()
        return int(v) if u < 0.12 and abs(v) < 1e9 else (np.float64(v) if u < 0.25 else v)
    v = np.array([value(rng, k) for _ in range(n)])
    u = rng.random()
    if u < 0.15:
        return np.where(np.abs(v) < 1e9, v, 0.0).astype(int)
    if u < 0.25 and n > 1:
        return np.repeat(v, 2)[::2]  # not contiguous
    if u < 0.3:
        return np.sort(v)[::-1]
    if u < 0.35:
        v.setflags(write=False)
    return v


def cases(a, names):
    """(number of cases, values per name)"""
    n = max((v.size for k, v in a.items() if k in names and isinstance(v, np.ndarray)), default=1)
    return n, {k: [float(x) for x in (a[k] if isinstance(a[k], np.ndarray) else [a[k]] * n)] for k in names}


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            p = os.path.join(r, x)
            out[p] = "link" if os.path.islink(p) else "dir"
        for x in fs:
            p = os.path.join(r, x)
            if os.path.islink(p):
                out[p] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as f:
                    out[p] = f.read()
    return out


def number(t):
    t = t.strip().strip('"')
    return float(t) if t else float("nan")  # an empty field of the file with separators: undefined


def other(x, w):
    return x != w and not (x != x and w != w)


def read_xgb(text, a):
    """what is wrong with the file, if anything"""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    lines = [x.rstrip("\r") for x in lines]
    if not lines:
        return "the file is empty"
    head = [x.strip().strip('"') for x in lines[0].split(SEP)]
    names = [c for c, _ in XGB_COLS]
    if head[1:] != names:
        return "the header is %r" % (lines[0],)
    n, want = cases(a, XGB_ORDER)
    if len(lines) - 1 != n:
        return "%d rows for %d cases" % (len(lines) - 1, n)
    for i, line in enumerate(lines[1:]):
        f = line.split(SEP)
        if len(f) != len(names) + 1:
            return "row %d has %d fields" % (i, len(f))
        try:
            f = [number(x) for x in f]
        except ValueError:
            return "row %d is %r" % (i, line)
        if f[0] != i:
            return "row %d is numbered %r" % (i, f[0])
        for (c, k), x in zip(XGB_COLS, f[1:]):
            if other(x, want[k][i]):
                return "column %r of row %d holds %r, %s is %r" % (c, i, x, k, want[k][i])
    return None


def read_nn(text, a):
    lines = [x.rstrip("\r") for x in text.split("\n")]
    if lines and lines[-1] == "":
        lines.pop()
    k = 0
    while k < len(lines) and lines[k].lstrip()[:1] in ("!", "*"):
        k += 1
    head, rows = lines[:k], lines[k:]
    cols = [x for x in head if "COLUMN#" in x.upper()]
    if len(cols) != 15:
        return "the header describes %d columns" % len(cols)
    for i, (x, w) in enumerate(zip(cols, NN_WORDS)):
        if "#%02d" % (i + 1) not in x or w not in x.lower():
            return "the header describes column %d as %r" % (i + 1, x)
    n, want = cases(a, NN_ORDER)
    if len(rows) != n:
        return "%d rows for %d cases" % (len(rows), n)
    for i, line in enumerate(rows):
        f = line.split()
        if len(f) != 15:
            return "row %d has %d fields: %r" % (i, len(f), line[:80])
        try:
            f = [number(x) for x in f]
        except ValueError:
            return "row %d is %r" % (i, line[:80])
        for j, (name, x) in enumerate(zip(NN_COLS, f)):
            if other(x, want[name][i]):
                return "column %d of row %d holds %r, %s is %r" % (j + 1, i, x, name, want[name][i])
    return None


class C17(Check):
    pid = "C17"
    secs = {"quick": 30, "thorough": 240}
    workers = 4
    min_eval = 300
    rule = ("one evaluation = one file written by the current tree in a scratch directory and read back, with the directory tree compared before "
            "and after, or one call under an injected fault; distinct = different combinations of writer, layout of single values and arrays, "
            "number of cases, earlier content, kind of name and outcome")
    assumptions = ["an undefined value (nan) is an empty field or nan in its own column"]

    def prepare(self, tier):
        self.mods = E.load_code()
        sys.addaudithook(hook)

    def writer(self, w):
        m = next((m for n, m in self.mods.items() if n.endswith(w[0])), None)
        return getattr(m, w[1], None)

    def work(self, rec, wid, nw, ss, deadline):
        rng = np.random.default_rng(ss)
        back = os.getcwd()
        top = tempfile.mkdtemp(prefix="verif_exports_")
        try:
            os.makedirs(os.path.join(top, "cwd"))
            os.chdir(os.path.join(top, "cwd"))
            while time.monotonic() < deadline and len(rec.viol) < 10:
                base = os.path.join(top, "out")
                os.makedirs(base)
                self.history(rec, rng, top, base)
                os.chdir(os.path.join(top, "cwd"))
                shutil.rmtree(base)
        finally:
            os.chdir(back)
            shutil.rmtree(top, ignore_errors=True)

    def arguments(self, rng, order):
        u = rng.random()
        if u < 0.25:
            n, layout = None, "single"
        elif u < 0.6:
            n, layout = int(rng.choice([1, 2, 3, 5, 11, 30, 200, 1200])), "mixed"
        else:
            n, layout = int(rng.choice([1, 2, 3, 7, 10, 101, 300, 1500])), "arrays"
        a = {k: column(rng, k, n, layout) for k in order}
        u = rng.random()
        if n is not None and n > 1 and u < 0.3:  # the same case more than once: beside each other, apart, or nothing else
            i = np.arange(n)
            if u < 0.06:
                i[:] = int(rng.integers(n))
            elif u < 0.18:
                i = np.sort(rng.integers(0, max(1, n // 2), n))
            else:
                i = rng.integers(0, max(2, n // 2), n)
            a = {k: v[i] if isinstance(v, np.ndarray) else v for k, v in a.items()}
            layout += " with repeated cases"
        if rng.random() < 0.08:  # distinct small whole numbers everywhere: exchanged columns cannot agree
            for j, k in enumerate(order):
                if not isinstance(a[k], np.ndarray):
                    a[k] = float(j + 1)
        return a, n, layout

    def history(self, rec, rng, top, base):
        """several writes to the same few names"""
        names = [None, "a", "case 1", "v1.2", "run.csv", "x" * 40, "input_NN_Overtopping", "input-1_b", " lead", "trail ", "UPPER"]
        chosen = [names[i] for i in rng.choice(len(names), 3, replace=False)]
        sub = os.path.join(base, *[("deep", "er"), ("my runs",), ("ends ",), (" starts", "v1.0"), ("UP", "low")][int(rng.integers(5))]) if rng.random() < 0.5 else base
        os.makedirs(sub, exist_ok=True)
        for _ in range(int(rng.integers(2, 6))):
            w = (XGB, NN)[int(rng.integers(2))]
            f = self.writer(w)
            if f is None:
                rec.undecided += 1
                continue
            u = rng.random()
            if u < 0.12:
                self.fault(rec, rng, w, f, sub)
            elif u < 0.2:
                self.parallel(rec, rng, w, f, sub)
            else:
                self.write(rec, rng, w, f, top, sub, chosen[int(rng.integers(3))])

    def write(self, rec, rng, w, f, top, sub, name):
        order = XGB_ORDER if w is XGB else NN_ORDER
        a, n, layout = self.arguments(rng, order)
        path = os.path.join(sub, (name or w[2]) + w[3])
        earlier = "none"
        if os.path.exists(path):
            earlier = "written"
        if rng.random() < 0.4:
            earlier = str(rng.choice(["long", "short", "empty"]))
            with open(path, "w") as g:
                g.write({"long": "1;2;3 4 5\n" * 5000, "short": "x", "empty": ""}[earlier])
        for extra in ("other.csv", "input.inp"):
            if rng.random() < 0.3 and not os.path.exists(os.path.join(sub, extra)):
                with open(os.path.join(sub, extra), "w") as g:
                    g.write("keep")
        keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()}
        before = tree(top)
        cwd = os.getcwd()
        d = sub
        form = "absolute"
        u = rng.random()
        if u < 0.15:
            d, form = sub + os.sep, "slash"
        elif u < 0.3:
            d, form = os.path.relpath(sub), "relative"
        args = {**a, "output_dir": d}
        if name is not None:
            args["file_name"] = name
        positional = rng.random() < 0.25
        WATCH.log = log = []
        try:
            if positional:
                v = f(*[args[k] for k in order], args["output_dir"], *([name] if name is not None else []))
            else:
                v = f(**args)
        except Exception as e:
            WATCH.log = None
            rec.ok((w[3], layout, n, earlier, "raised"), w[1])
            rec.violation("raised %r" % e, w[1], args)
            return
        finally:
            WATCH.log = None
        rec.calls += 1
        what = None
        if os.getcwd() != cwd:
            os.chdir(cwd)
            what = "changed the working directory"
        after = tree(top)
        if path not in after:
            what = "did not write %s" % path
        else:
            for p in set(before) | set(after):
                if p != path and before.get(p) != after.get(p):
                    what = "changed %s, which is not the named file" % p
                    break
        if what is None:
            for p in set(log):
                if not p.startswith(top) and p != "chdir" and os.path.isfile(p) and "__pycache__" not in p and not p.startswith("/dev/"):
                    what = "wrote %s, which is not the named file" % p
                    break
        if what is None:
            for k in order:
                if isinstance(a[k], np.ndarray) and not (np.array_equal(a[k], keep[k], equal_nan=True) and a[k].dtype == keep[k].dtype):
                    what = "changed the argument %s" % k
        if what is None:
            try:
                text = after[path].decode()
            except UnicodeDecodeError:
                what = "the file is not text"
            else:
                what = (read_xgb if w is XGB else read_nn)(text, keep)
        rec.ok((w[3], layout, n, earlier, name, form, positional, tuple(isinstance(x, np.ndarray) for x in a.values())), w[1])
        rec.add("rows_compared", cases(keep, order)[0])
        rec.add("replaced earlier content", int(earlier != "none"))
        rec.count.setdefault("paths_opened_for_writing", set()).update(os.path.basename(p) for p in log)
        if what:
            rec.violation(what, w[1], args, earlier_content=earlier)
        elif rec.n % 97 == 3:
            rec.sample("%s: %s cases, earlier content %s, read back equal" % (os.path.basename(path), n or 1, earlier))
        if what is None and rng.random() < 0.3:
            f(**args)
            if tree(top) != after:
                rec.violation("writing the same cases again gives another file", w[1], args)
            rec.ok((w[3], "again", layout, n), w[1])

    def fault(self, rec, rng, w, f, sub):
        order = XGB_ORDER if w is XGB else NN_ORDER
        a, n, layout = self.arguments(rng, order)
        kind = str(rng.choice(["missing directory", "directory in place", "full device", "unequal lengths"]))
        d, name = sub, "fault"
        path = os.path.join(sub, name + w[3])
        if os.path.lexists(path):
            return
        if kind == "missing directory":
            d = os.path.join(sub, "not_there")
            path = os.path.join(d, name + w[3])
        elif kind == "directory in place":
            os.mkdir(path)
        elif kind == "full device":
            if not os.path.exists("/dev/full"):
                return
            os.symlink("/dev/full", path)
        else:
            k1, k2 = rng.choice(order, 2, replace=False)
            n1, n2 = [(3, 2), (4, 7), (2, 6)][int(rng.integers(3))]
            a[k1], a[k2] = np.arange(1.0, n1 + 1), np.arange(1.0, n2 + 1)
        args = {**a, "output_dir": d, "file_name": name}
        what = None
        try:
            f(**args)
        except OSError:
            if kind == "unequal lengths":
                pass
        except Exception as e:
            if kind != "unequal lengths":
                what = "raised %r instead of an input/output error" % e
        else:
            good = False
            if kind == "missing directory" and os.path.isfile(path):
                with open(path) as g:
                    good = (read_xgb if w is XGB else read_nn)(g.read(), a) is None
            if not good:
                what = "returned as if the file had been written (%s)" % kind
        rec.ok((w[3], kind, layout, n), w[1] + " under a fault")
        rec.add("faults_injected")
        if what:
            rec.violation(what, w[1], args)
        if os.path.islink(path):
            os.unlink(path)
        elif os.path.isdir(path):
            shutil.rmtree(path)
        elif os.path.isfile(path):
            os.unlink(path)
        shutil.rmtree(os.path.join(sub, "not_there"), ignore_errors=True)

    def parallel(self, rec, rng, w, f, sub):
        """several threads write different files at once"""
        order = XGB_ORDER if w is XGB else NN_ORDER
        jobs = []
        for t in range(4):
            ww = (XGB, NN)[t % 2]
            g = self.writer(ww)
            if g is not None:
                jobs.append((ww, g, self.arguments(rng, XGB_ORDER if ww is XGB else NN_ORDER)[0], "t%d" % t))
        bad = []
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)

        def go(ww, g, a, name):
            try:
                g(**a, output_dir=sub, file_name=name)
                with open(os.path.join(sub, name + ww[3])) as h:
                    e = (read_xgb if ww is XGB else read_nn)(h.read(), a)
                if e:
                    bad.append((ww, a, e))
            except Exception as e:
                bad.append((ww, a, "raised %r" % e))
        ts = [threading.Thread(target=go, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.setswitchinterval(old)
        for ww, g, a, name in jobs:
            rec.ok((ww[3], "threads", tuple(np.ndim(x) for x in a.values())), ww[1] + " in threads")
            p = os.path.join(sub, name + ww[3])
            if os.path.exists(p):
                os.unlink(p)
        for ww, a, e in bad:
            rec.violation("written beside other files by threads: " + e, ww[1], a)


CHECKS = {"C17": C17}
