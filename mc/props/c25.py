"""C25: what the programs print about a computation is what was computed."""
import io, os, re, tempfile, shutil, threading, itertools, contextlib
from copy import deepcopy
import numpy as np
import matplotlib.pyplot as plt
from ..target import BandStructure, bs
from ..models import model
from .. import core, fitlib as fl
from .c23 import Patched, Pool

PID = "C25"
LEVEL = "model_checking"
RULE = ("reports: every band list (one to three bands) x grid x doping level, every printed filling, doping and chemical potential against "
        "the quantity itself.  Counters: every interleaving of two workers (and of three, up to two preemptions) at the operations of the "
        "shared counter and its lock, the numbers printed are 1 to N.  Progress: every sequence of up to four candidates handed to the "
        "callback, a new best is announced exactly when the candidate changed.  Evaluations: every sequence of up to three parameter points, "
        "printed names, values and call numbers.  State = schedule prefix; non-trivial = distinct printed text.")
ASSUME = ["fillings and dopings are printed with three decimals, parameters with six significant digits",
          "a generation has popsize times the number of free parameters members"]
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf")


def numbers(s):
    return [float(x) for x in NUM.findall(s.replace("float64", ""))]


def cases(tier):
    T = tier == "thorough"
    out = []
    lists = [["tet"], ["ortho"], ["af"], ["electron", "tet"], ["tet", "electron"], ["lowsym", "q1d", "tet"]]
    for l in lists:
        for grid in [(20, 18, 8), (7, 31, 3)]:
            for mu in (0.0, 0.4, -0.7, 1.5, -1.6):
                out.append({"kind": "report", "bands": l, "grid": grid, "dmu": mu})
    for l in lists:
        for p in (0.2, -0.15 if l != ["af"] else 0.35, 0.0):
            out.append({"kind": "solve", "bands": l, "p": p})
    for n, bound in [(2, 99), (3, 2)] + ([(3, 3), (4, 1)] if T else []):
        for pop in (1, 2):
            out.append({"kind": "counter", "workers": n, "preemptions": bound, "popsize": pop})
    for f in ("parallel1", "parallelT"):
        for first in range(3):
            out.append({"kind": "progress", "fitter": f, "first": first})
            out.append({"kind": "progress", "fitter": f, "first": first, "wide": 1})
    for f in ("series1", "seriesT"):
        for free in (["tz", "gamma_0"], ["Bamp", "mu", "power"], ["c"]):
            for first in range(3):
                out.append({"kind": "evaluation", "fitter": f, "free": free, "first": first, "depth": 4 if T else 3})
    return out


def run_case(case, res):
    d = tempfile.mkdtemp(prefix="c25_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        globals()["_" + case["kind"]](case, res, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
        plt.close("all")


@contextlib.contextmanager
def printed():
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        yield f


def says(res, text, label, value, what, tol=5.01e-4):
    """One line with the label, and the number after it is the value."""
    hits = [l for l in text.split("\n") if label in l]
    if res.check(len(hits) == 1, what, lambda: "%d lines with %r in %r" % (len(hits), label, text[:300])):
        n = numbers(hits[0].split(label, 1)[1])
        res.check(bool(n) and abs(n[-1] - value) <= tol, what, lambda: "printed %r, the value is %r" % (hits[0], value))


def bands(names, dmu):
    out = []
    for i, n in enumerate(names):
        m = model(n, resolution=[5, 5, 3], band_name="Sheet_%s" % "abc"[i])
        m["band_params"]["mu"] += dmu * (1 if i == 0 else -0.5)
        out.append(BandStructure(**m))
    return out


def _report(case, res, d):
    bl = bands(case["bands"], case["dmu"])
    for b in bl:
        with printed() as f:
            b.filling(*case["grid"])
        says(res, f.getvalue(), "n =", b.n, "filling")
        res.saw(f.getvalue())
        with printed() as f:
            b.doping(*case["grid"], printDoping=True)
        says(res, f.getvalue(), b.band_name, b.p, "doping")
        with printed() as f:
            b.doping(*case["grid"])
            b.update_filling(*case["grid"])
        res.check(f.getvalue() == "", "silence", lambda: f.getvalue())
        with printed() as f:
            try:
                b.runBandStructure(printDoping=True)
            except (ValueError, RuntimeError):      # no surface there
                continue
        says(res, f.getvalue(), b.band_name, b.p, "doping of a run")
        res.saw(f.getvalue())
    with printed() as f:
        p = bs.doping(bl, printDoping=True)
    for b in bl:
        says(res, f.getvalue(), b.band_name, b.n, "filling of a band")
    says(res, f.getvalue(), "total", p, "total doping")
    res.close(p, 1 - sum(b.n for b in bl), "total doping", rtol=0, atol=1e-12)
    res.saw(f.getvalue())
    with printed() as f:
        res.close(bs.doping(bl), p, "total doping", rtol=0, atol=1e-12)
    res.check(f.getvalue() == "", "silence", lambda: f.getvalue())
    for b in bl:
        with printed() as f:
            got = b["nosuch_name"]
            b["nosuch_name"] = 1.0
        res.check(got is None and f.getvalue().count("nosuch_name") == 2, "unknown parameter", lambda: "%r: %r" % (got, f.getvalue()))


def _solve(case, res, d):
    bl = bands(case["bands"], 0.0)
    tried = []

    class Seen(type(bl[0])):
        def update_filling(self, *a, **k):
            tried.append(self["mu"])
            return super().update_filling(*a, **k)
    first = bl[0]
    first.__class__ = Seen
    with printed() as f:
        bs.set_mu_to_doping(bl, case["p"])
    lines = [l for l in f.getvalue().split("\n") if l]
    says(res, f.getvalue(), "doping", case["p"], "doping aimed at")
    got = [numbers(l.split("=", 1)[1])[-1] for l in lines if l.split("=")[0].strip() == "mu"]
    if res.check(len(got) == len(tried), "chemical potentials tried", lambda: "%d printed, %d tried" % (len(got), len(tried))):
        res.close(got, tried, "chemical potentials tried", rtol=0, atol=5.01e-4)
    res.saw(f.getvalue())


# ------------------------------------------------------- members of a fit
class Schedule:
    """Runs threads one at a time; a choice at every operation of the shared
    counter.  prefix: choices to replay, then the first enabled thread."""
    def __init__(self, prefix):
        self.prefix, self.trace = list(prefix), []
        self.cv = threading.Condition()
        self.turn = None
        self.waiting = {}       # thread -> what it is about to do
        self.done = set()
        self.owner = None

    def point(self, op):
        me = threading.current_thread().idx
        with self.cv:
            self.waiting[me] = op
            self.turn = None
            self.cv.notify_all()
            while self.turn != me:
                self.cv.wait()
            del self.waiting[me]

    def finish(self, me):
        with self.cv:
            self.done.add(me)
            self.turn = None
            self.cv.notify_all()

    def run(self, jobs):
        ts = []
        for i, job in enumerate(jobs):
            def body(i=i, job=job):
                try:
                    self.point("start")
                    job()
                finally:
                    self.finish(i)
            t = threading.Thread(target=body, daemon=True)
            t.idx = i
            ts.append(t)
        for t in ts:
            t.start()
        last = None
        while True:
            with self.cv:
                while self.turn is not None or len(self.waiting) + len(self.done) < len(ts):
                    if not self.cv.wait(60):
                        raise core.HarnessError("a worker does not come back")
                if len(self.done) == len(ts):
                    break
                on = sorted(i for i, op in self.waiting.items() if op != "lock" or self.owner is None)
                if not on:
                    self.trace.append((None, [], last))
                    return False        # dead-lock
                k = len(self.trace)
                pick = self.prefix[k] if k < len(self.prefix) else (last if last in on else on[0])
                self.trace.append((pick, on, last))
                last = pick
                self.turn = pick
                self.cv.notify_all()
        for t in ts:
            t.join()
        return True


class Counter:
    def __init__(self, s):
        self.s, self.v = s, 0

    def get_lock(self):
        return self

    def acquire(self, *a, **k):
        self.s.point("lock")
        self.s.owner = threading.current_thread().idx
        return True

    def release(self):
        self.s.owner = None
        self.s.point("released")

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    @property
    def value(self):
        self.s.point("read")
        return self.v

    @value.setter
    def value(self, v):
        self.s.point("write")
        self.v = v


def _counter(case, res, d):
    dd, _ = fl.data(d)
    free = {"tz": (0.05, 0.3), "gamma_0": (5, 20)}
    o = fl.parallel1(fl.member(resolution=[3, 3, 3], N_time=4, Btheta_max=40), free, dd, popsize=case["popsize"])
    o.init_time = 0
    n = case["workers"]
    x = [[0.1 + 0.05 * i, 9.0 + i] if list(o.free_pars_name)[0] == "tz" else [9.0 + i, 0.1 + 0.05 * i] for i in range(n)]
    want = [deepcopy(o).compute_diff2(p) for p in x]
    per = case["popsize"] * 2
    stack = [[]]
    runs = 0
    while stack:
        prefix = stack.pop()
        s = Schedule(prefix)
        fl.p1.init(Counter(s))
        val = [None] * n
        objs = [deepcopy(o) for _ in range(n)]

        def job(i):
            val[i] = objs[i].compute_diff(x[i])
        with printed() as f:
            alive = s.run([lambda i=i: job(i) for i in range(n)])
        runs += 1
        res.transitions += len(s.trace)
        what = "schedule %s" % [t[0] for t in s.trace]
        if not res.check(alive, "dead-lock", what):
            return
        for k in range(len(s.trace) + 1):
            res.state([t[0] for t in s.trace[:k]])
        text = [l for l in f.getvalue().split("\n") if "Member" in l]
        nums = sorted(int(l.split("Member")[1].split()[0]) for l in text)
        res.check(nums == list(range(1, n + 1)), "members are numbered once", lambda: "%s: %s" % (what, nums))
        for l in text:
            k, g = int(l.split("Member")[1].split()[0]), int(l.split("Gen")[1].split()[0])
            res.check(g == (k - 1) // per + 1, "generation of a member", lambda: "member %d of generations of %d: %r" % (k, per, l))
        res.close(sorted(numbers(l.split("Diff:")[1])[0] for l in text), sorted(want), "value of a member", what, rtol=1e-7)
        res.close(val, want, "value returned", what, rtol=1e-12)
        res.saw([re.sub("elapsed.*seconds", "", l) for l in text])
        if res.fails:
            return
        # every other choice after the prefix
        for k in range(len(prefix), len(s.trace)):
            pick, on, last = s.trace[k]
            used = sum(1 for p, q, l in s.trace[:k] if l in q and p != l)
            for alt in on:
                if alt != pick and used + (last in on and alt != last) <= case["preemptions"]:
                    stack.append([t[0] for t in s.trace[:k]] + [alt])
    res.traces += runs
    res.note_max("schedules of a case", runs)


# --------------------------------------------------------------- progress
def _progress(case, res, d):
    names = ["tz", "gamma_0"]
    bd = {"tz": [0.05, 0.3], "gamma_0": [5, 20]}
    if "wide" in case:      # many free parameters
        V = {"tz": [0.05, 0.3], "gamma_0": [5, 20], "gamma_k": [30, 90], "mu": [-0.9, -0.4], "power": [2, 14], "t": [0.9, 1.2], "Bamp": [12, 55], "c": [7, 19], "energy_scale": [110, 1400.5]}
        names, bd = list(V), V
    C = [np.array([0.11, 9.25]), np.array([0.11, 12.5]), np.array([0.23, 12.5])]     # neighbours share a coordinate
    if "wide" in case:
        C = [np.array([lo + (0.31 + 0.17 * i) * (hi - lo) for lo, hi in V.values()]) for i in range(3)]
    seqs = [(case["first"],) + s for k in range(2 if "wide" in case else 4) for s in itertools.product(range(3), repeat=k)]
    for seq in seqs:
        def de(func, bounds, callback=None, **kw):
            x0 = [float(b[0]) + 0.3 * (float(b[1]) - float(b[0])) for b in bounds]
            for j, i in enumerate(seq):
                buf = C[i].copy()
                callback(buf, convergence=0.125 * (j + 1))
            return type("R", (), dict(x=np.array(x0), fun=0.0))()
        with Patched(differential_evolution=de, Pool=Pool), printed() as f, no_figures():
            if case["fitter"] == "parallel1":
                dd, _ = fl.data(d)
                fl.p1.fit_admr_parallel(fl.member(resolution=[3, 3, 3], N_time=3, Btheta_max=40), {k: list(v) for k, v in bd.items()}, dd, filename="x", num_cpu=1)
            else:
                dd, _ = fl.data_multi(d)
                m = fl.member(resolution=[3, 3, 3], N_time=3)
                fl.pm.fit_admr_parallel({25: {"A": m}}, {"all": {"A": {n: tuple(bd[n]) for n in names}}}, dd, num_cpu=1)
        text = [l for l in f.getvalue().split("\n") if "onvergence" in l]
        if not res.check(len(text) == len(seq), "a line for each iteration", lambda: f.getvalue()[:400]):
            return
        for j, i in enumerate(seq):
            l = text[j]
            nums = numbers(l.split("New best")[0])
            res.check(nums[0] == j + 1, "iteration number", lambda: "%r is iteration %d" % (l, j + 1))
            res.check(0.125 * (j + 1) in nums, "convergence", lambda: l)
            new = j == 0 or seq[j - 1] != i
            if res.check(("New best" in l) == new, "new best candidate", lambda: "candidates %s, line %d: %r" % (seq, j, l)) and new:
                got = numbers(l.split("New best")[1])
                res.check(len(got) == len(C[i]) and np.abs(np.array(got) - C[i]).max() <= 0.00501, "coordinates of the best", lambda: "%s: %r" % (C[i], l))
        res.transitions += len(seq)
        res.state(case["fitter"], seq)
        res.saw([re.sub(r"time: *[\d.]+|[\d.]+ s", "", l) for l in text])
        if res.fails:
            return
    res.traces += len(seqs)


@contextlib.contextmanager
def no_figures():
    old = fl.p1.FittingADMRParallel.fig_compare
    fl.p1.FittingADMRParallel.fig_compare = lambda self, *a, **k: None
    try:
        yield
    finally:
        fl.p1.FittingADMRParallel.fig_compare = old


# ------------------------------------------------------------- evaluations
PTS = {"tz": [0.1234567, 0.07, 0.2], "gamma_0": [12.5, 9.0, 1e-1], "Bamp": [45, 12.25, 33.3333], "mu": [-0.7, -0.55, -1e-3],
       "power": [4.0, 2.0, 11.75], "c": [9.0, 8.125, 10.0]}


def _evaluation(case, res, d):
    free = case["free"]
    sc = ("gamma_0", "gamma_k", "power")
    multi = case["fitter"] == "seriesT"

    def make():
        kw = dict(resolution=[3, 3, 3], N_time=3, Btheta_max=40)
        if multi:
            dd, _ = fl.data(d, (25, 6))
            m = fl.member(data_T=[25, 6], **kw)
            m["scattering_params"] = {T: dict(m["scattering_params"]) for T in (25, 6)}
            b = {n: [min(PTS[n]) - 1, max(PTS[n]) + 2] for n in free}
            return fl.seriesT(m, {n: ({25: b[n], 6: b[n]} if n in sc else b[n]) for n in free}, dd, True, folder=d)
        dd, _ = fl.data(d)
        return fl.series1(fl.member(**kw), {n: [min(PTS[n]) - 1, max(PTS[n]) + 2] for n in free}, dd, True, folder=d)

    for k in range(case["depth"]):
        for tail in itertools.product(range(3), repeat=k):
            o = make()
            for j, i in enumerate((case["first"],) + tail):
                vals = {}
                for n in free:
                    if multi and n in sc:
                        vals[n + "_25"], vals[n + "_6"] = PTS[n][i], PTS[n][i] * 1.1
                    else:
                        vals[n] = PTS[n][i]
                with printed() as f:
                    o.compute_diff(fl.pars(o, vals))
                t = f.getvalue()
                for n, v in vals.items():
                    says(res, t, n + " ", v, "value of a parameter", tol=abs(v) * 1e-5)
                says(res, t.replace("seconds", "").split(" in ")[0], "call #", j + 1, "call number", tol=0)
                res.transitions += 1
                res.saw(re.sub(r"in .* seconds", "", t))
            res.state(case["fitter"], free, case["first"], tail)
            res.traces += 1
            if res.fails:
                return
