"""C23: what a fit returns and saves is the best candidate, and reloads to it."""
import os, json, tempfile, shutil, multiprocessing
from copy import deepcopy
from types import SimpleNamespace
import numpy as np
import scipy.optimize
import lmfit
import matplotlib.pyplot as plt
from .. import core, fitlib as fl

PID = "C23"
LEVEL = "exploration"
RULE = ("the optimizer and the process pool are replaced by ones the explorer controls: the optimizer evaluates a grid of candidates in "
        "every cyclic order and declares each of them the best in turn (so the last evaluated is not the best), through workers that "
        "hold their own copies, in every chunk size; for each fitter, free-parameter set (band, scattering, field, lattice; doping held "
        "or not) and method name.  Bounds, settings and objective handed over, the returned parameters, the files "
        "written, and a reload into a new object are judged.  Non-trivial = distinct file contents.")
ASSUME = ["the optimizer itself (scipy, lmfit) is not under test"]

SETS = [["tz", "gamma_0"], ["Bamp", "mu"], ["power", "c", "energy_scale"]]
LO = {"tz": 0.08, "gamma_0": 8.0, "Bamp": 20.0, "mu": -0.9, "power": 2.0, "c": 8.0, "energy_scale": 120.0, "t": 0.9}
HI = {"tz": 0.25, "gamma_0": 16.0, "Bamp": 50.0, "mu": -0.5, "power": 6.0, "c": 10.0, "energy_scale": 200.0, "t": 1.2}


NAMES = ["best", "best", "fit_p0.24_T=25 K", "a.json", "b.tar.v2"]      # of the files, by the candidate declared best


def cases(tier):
    T = tier == "thorough"
    out = []
    n = 5 if T else 3
    for f in fl.FITTERS:
        for s in SETS:
            for best in range(n):
                for rot in (range(n) if T else [0]):
                    for fix in ([2, 0.23] if f != "parallelT" and "mu" not in s else [2]):
                        out.append({"fitter": f, "free": s, "best": best, "rot": rot, "n": n, "fix": fix, "norm": (best + rot) % 2 == 0, "chunk": 1 + best})
    for f, ms in (("series1", ["least_square", "shgo", "differential_evolution", "ampgo"]),
                  ("seriesT", ["least_square", "shgo", "ampgo", "dual_annealing", "differential_evolution"])):
        for m in ms + ["nonsense"]:
            out.append({"fitter": f, "free": SETS[0], "best": 1, "rot": 0, "n": 3, "fix": 2, "norm": True, "method": m, "chunk": 1})
    return out


def name(case):
    return NAMES[case["best"]]


class Pool:
    """Workers: each holds its own copy of what it is sent, chunk by chunk."""
    log = []
    chunk = 1

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        Pool.log.append(processes)
        if initializer:
            initializer(*initargs)

    def map(self, fun, xs, chunksize=None):
        xs = list(xs)
        out = []
        for i in range(0, len(xs), Pool.chunk):
            f = deepcopy(fun)
            out += [f(x) for x in xs[i:i + Pool.chunk]]
        return out

    def imap(self, fun, xs, chunksize=1):
        return iter(self.map(fun, xs))

    def close(self): pass
    terminate = join = close

    def __enter__(self): return self
    def __exit__(self, *a): pass


class Patched:
    """Names replaced in the modules of the fitters and where they come from."""
    def __init__(self, **names):
        self.names = names

    def __enter__(self):
        self.old = []
        mods = [fl.p1, fl.pm, fl.s1, fl.sm, scipy.optimize, multiprocessing, lmfit]
        for m in mods:
            for n, v in self.names.items():
                if hasattr(m, n):
                    self.old.append((m, n, getattr(m, n)))
                    setattr(m, n, v)

    def __exit__(self, *a):
        for m, n, v in reversed(self.old):
            setattr(m, n, v)


def points(names, n, rot, bounds):
    """n candidates inside the bounds, every coordinate different."""
    P = []
    for i in range(n):
        P.append([b[0] + (b[1] - b[0]) * (0.1 + 0.8 * ((i * (j + 1)) % n) / (n - 1 or 1) + 0.013 * j) for j, b in enumerate(bounds)])
    return P[rot:] + P[:rot]


def run_case(case, res):
    d = tempfile.mkdtemp(prefix="c23_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        if case["best"] == 1 and case.get("method") != "nonsense":     # files of an earlier, longer result
            old = {name(case) + ".json": json.dumps({str(i): [0.125] * 9 for i in range(900)}), name(case) + ".pdf": "x" * 10 ** 6}
            if case["fitter"] == "parallelT":
                old["fig.pdf"] = old.pop(name(case) + ".pdf")
            for n, t in old.items():
                with open(n, "w") as f:
                    f.write(t)
        globals()["_" + case["fitter"]](case, res, d)
        for n in os.listdir(d):
            if n.endswith(".pdf"):
                with open(n, "rb") as f:
                    t = f.read()
                res.check(t.startswith(b"%PDF") and t.rstrip().endswith(b"%%EOF"), "figures written", "%s is not readable: %r ... %r" % (n, t[:20], t[-20:]))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
        plt.close("all")


def optimizer(case, seen):
    def de(func, bounds, args=(), workers=1, callback=None, **kw):
        bounds = [tuple(map(float, b)) for b in bounds]
        seen.update(bounds=bounds, settings=kw)
        X = [np.array(x) for x in points(None, case["n"], case["rot"], bounds)]
        f = func if not args else (lambda x: func(x, *args))
        v = list(workers(f, X)) if callable(workers) else [f(x) for x in X]
        seen.update(X=X, values=v)
        b = case["best"]
        if callback:
            # the running best: its last improvement leaves one parameter as it was
            near = X[b - 1].copy()
            near[-1] = X[b][-1]
            for i, x in enumerate([near, X[b], X[b]]):
                callback(x.copy(), convergence=0.1 * i)
        return SimpleNamespace(x=X[b].copy(), fun=v[b], success=True, nit=1, nfev=len(X), message="")
    return de


KW = dict(N_epsilon=3)


def roughly(cls):
    """New objects get the coarse contour grid, to save time."""
    init = cls.__init__

    def wrapped(self, *a, **k):
        init(self, *a, **k)
        fl.fast(self)
    cls.__init__ = wrapped
    return init


def data_sq(raw, T, norm, rho, z, ths, n0=0.0):
    dz = np.array([fl.interp(ths, *raw[T, p][:2]) / fl.interp(n0, *raw[T, p][:2]) for p in (0, 45)])
    if norm:
        return dz - z
    return (dz * np.array([[raw[T, p][3]] for p in (0, 45)]) - rho) * 1e5


def _parallel1(case, res, d):
    dd, raw = fl.data(d)
    m = fl.member(fixdoping=case["fix"], **KW)
    bd = {n: [LO[n], HI[n]] for n in case["free"]}
    seen = {}
    Pool.log, Pool.chunk = [], case["chunk"]
    cls = fl.p1.FittingADMRParallel
    old = roughly(cls)
    try:
        with Patched(differential_evolution=optimizer(case, seen), Pool=Pool):
            out = fl.p1.fit_admr_parallel(m, bd, dd, normalized_data=case["norm"], filename=name(case), popsize=7, mutation=(0.4, 0.9), recombination=0.6,
                                          percent_workers=50, num_cpu=4)
        names = sorted(bd)
        handed(case, res, seen, bd, names, Pool.log)
        x = seen["X"][case["best"]]
        res.check(all(get(out, n) == x[i] for i, n in enumerate(names) if not (n == "mu" and case["fix"] != 2)), "returned parameters", lambda: "%s, best candidate %s" % ([get(out, n) for n in names], x))
        files(res, d, {name(case) + ".json", name(case) + ".pdf"})
        with open(name(case) + ".json") as f:
            j = json.load(f)
        res.check(all(get(j, n) == x[i] for i, n in enumerate(names)), "saved parameters", lambda: "%s, best candidate %s" % ([get(j, n) for n in names], x))
        expected(case, res, m, names, x, raw, lambda rho, z, ths: res.close(seen["values"][case["best"]], (data_sq(raw, 25, case["norm"], rho, z, ths) ** 2).sum(), "value handed to the optimizer", str(case), rtol=1e-6))
        # a new object that reloads the file simulates the best candidate
        o = cls(fl.member(fixdoping=case["fix"], **KW), bd, dd, folder=d)
        o.json_name = name(case) + ".json"
        o.load_member_from_json()
        same_member(res, o.member, out)
        o.generate_admr()
        o.admrObject.runADMR()
        expected(case, res, m, names, x, raw, lambda rho, z, ths: res.close(o.admrObject.rhozz_array, rho, "reloaded simulation", str(case), rtol=1e-6))
        expected(case, res, m, names, x, raw, lambda rho, z, ths: held(res, case, j, rho))
        res.saw(j)
    finally:
        cls.__init__ = old


def held(res, case, j, rho):
    """What is saved holds the chemical potential it was simulated with."""
    if case["fix"] != 2:
        res.close(fl.simulate([dict(j, fixdoping=2)], [0, 45], fl.grid(0, 80, 40))[0], rho, "chemical potential saved", str(case), rtol=1e-6)


def get(m, n):
    return m[n] if n in m else m["band_params"][n] if n in m["band_params"] else m["scattering_params"][n]


def same_member(res, a, b, what="reloaded member"):
    res.check(json.loads(json.dumps(a)) == json.loads(json.dumps(b)), what, lambda: "%s\n%s" % (a, b))


def files(res, d, want):
    got = {f for f in os.listdir(d) if not f.endswith(".dat")}
    res.check(got == want, "files written", "%s, expected %s" % (sorted(got), sorted(want)))


def handed(case, res, seen, bd, names, log):
    res.check(seen["bounds"] == [tuple(map(float, bd[n])) for n in names], "bounds handed to the optimizer", lambda: str(seen["bounds"]))
    s = seen["settings"]
    res.check((s.get("popsize"), tuple(s.get("mutation", ())), s.get("recombination")) == (7, (0.4, 0.9), 0.6), "settings handed to the optimizer", lambda: str(s))
    res.check(log == [2], "number of workers", log)


def expected(case, res, m, names, x, raw, judge, T=25):
    w = deepcopy(m)
    for n, v in zip(names, x):
        fl.put(w, n, float(v))
    ths = fl.grid(0, 80, 40)
    rho, z = fl.simulate([w], [0, 45], ths)
    judge(rho, z, ths)


def _parallelT(case, res, d):
    dd, raw = fl.data_multi(d, (25, 6), norm=0)
    p = {T: {"A": fl.member(**KW)} for T in (25, 6)}
    fr = case["free"]
    bd = {"all": {"A": {n: [LO[n], HI[n]] for n in fr[:1]}}, 25: {"A": {n: [LO[n], HI[n]] for n in fr[1:]}}, 6: {}}
    seen = {}
    Pool.log, Pool.chunk = [], case["chunk"]
    cls = fl.pm.Fitness
    old = roughly(cls)
    try:
        with Patched(differential_evolution=optimizer(case, seen), Pool=Pool):
            o = fl.pm.fit_admr_parallel(p, bd, dd, normalized_data=case["norm"], popsize=7, mutation=(0.4, 0.9), recombination=0.6, percent_workers=50, num_cpu=4)
        labels = [tuple(l) for l in o.free_params_labels]
        handed(case, res, seen, {n: [LO[n], HI[n]] for n in fr}, [l[2] for l in labels], Pool.log)
        x = seen["X"][case["best"]]
        want = deepcopy(p)
        for l, v in zip(labels, x):
            for T in ([l[0]] if l[0] != "all" else [25, 6]):
                fl.put(want[T][l[1]], l[2], float(v))
        res.check(o.params_dict == want, "returned parameters", lambda: "%s, expected %s" % (o.params_dict, want))
        ths = fl.grid(0, 80, 40)
        tot = 0
        for T in (25, 6):
            rho, z = fl.simulate([want[T]["A"]], [0, 45], ths)
            res.close(o.rhozz_sim_dict[T], rho, "simulation of the best candidate", str(case), rtol=1e-6)
            res.close(o.rzz_sim_dict[T], z, "normalized simulation of the best candidate", str(case), rtol=1e-6)
            dz = np.array([fl.interp(ths, *raw[T, q][:2]) for q in (0, 45)])
            tot += (((dz / dz[:, :1] - z) if case["norm"] else (dz - rho)) ** 2).sum()
        res.close(seen["values"][case["best"]], tot, "value handed to the optimizer", str(case), rtol=1e-6)
        o.save_member_to_json(filename=name(case), folder=d)
        o.fig_compare(fig_show=False, fig_save=True, folder=d, figname="fig")
        files(res, d, {name(case) + ".json", "fig.pdf"})
        with open(name(case) + ".json") as f:
            j = json.load(f)
        same_member(res, j, {str(k): v for k, v in want.items()}, "saved parameters")
        o2 = cls(dd, {int(k): v for k, v in j.items()}, bd, case["norm"])
        res.close(o2.compute_fitness(), tot, "fit value after reloading", str(case), rtol=1e-6)
        res.saw(j)
    finally:
        cls.__init__ = old


def minimizer(case, seen):
    def minimize(fcn, params, method="leastsq", **kw):
        seen.update(method=method, kw=kw)
        names = list(params)
        b = [(params[n].min, params[n].max) for n in names]
        seen["bounds"] = dict(zip(names, b))
        X, V = points(names, case["n"], case["rot"], b), []
        best = None
        for i, x in enumerate(X):
            p = deepcopy(params)
            for n, v in zip(names, x):
                p[n].set(value=v)
            V.append(np.array(fcn(p)))
            if i == case["best"]:
                best = deepcopy(p)
        seen.update(X=X, values=V, names=names, best=dict(zip(names, X[case["best"]])))
        return SimpleNamespace(params=best, residual=V[case["best"]])
    return minimize


def _series1(case, res, d):
    dd, raw = fl.data(d)
    m = fl.member(fixdoping=case["fix"], **KW)
    bd = {n: [LO[n], HI[n]] for n in case["free"]}
    o = fl.series1(m, bd, dd, case["norm"], folder=d, method=case.get("method", "differential_evolution"))
    if not run_series(case, res, o, d):
        return
    seen = run_series.seen
    names = case["free"]
    x = [seen["best"][n] for n in names]
    res.check(all(get(o.member, n) == v for n, v in zip(names, x)), "fitted parameters", lambda: str([get(o.member, n) for n in names]))
    with open(name(case) + ".json") as f:
        j = json.load(f)
    res.check(all(get(j, n) == v for n, v in zip(names, x)), "saved parameters", lambda: str(j))
    expected(case, res, m, names, x, raw, lambda rho, z, ths: res.close(seen["values"][case["best"]], data_sq(raw, 25, case["norm"], rho, z, ths).ravel(), "residual handed to the optimizer", str(case), rtol=1e-6))
    o2 = fl.series1(fl.member(fixdoping=case["fix"], **KW), bd, dd, folder=d)
    o2.json_name = name(case) + ".json"
    o2.load_and_interp_data()
    o2.load_member_from_json()
    same_member(res, o2.member, o.member)
    expected(case, res, m, names, x, raw, lambda rho, z, ths: held(res, case, j, rho))
    o2.produce_ADMR_object()
    o2.admrObject.runADMR()
    expected(case, res, m, names, x, raw, lambda rho, z, ths: res.close(o2.admrObject.rhozz_array, rho, "reloaded simulation", str(case), rtol=1e-6))
    res.saw(j)


def _names(case, res, d):
    """Default file names: results of other dopings and temperatures stay."""
    want = {}
    for i, (p, T) in enumerate([(0.24, 25), (0.21, 25), (0.24, 6), (0.24, 25.5), (0.24, 250), (0.12, 2.5)]):
        dd, _ = fl.data(d, [T])
        m = fl.member(data_T=T, data_p=p, Bamp=30 + i, **KW)
        if case["of"] == "seriesT":
            m = dict(m, data_T=[T], scattering_params={T: m["scattering_params"]})
            o = fl.seriesT(m, {}, dd, folder=d)
        else:
            o = getattr(fl, case["of"])(m, {"tz": (0.1, 0.2)}, dd, folder=d)
        before = set(os.listdir(d))
        o.save_member_to_json()
        new = set(os.listdir(d)) - before
        if res.check(len(new) == 1 and list(new)[0].endswith(".json"), "default file name", "%s at %g K, p = %g: new files %s" % (case["of"], T, p, sorted(new))):
            want[list(new)[0]] = 30 + i
    for n, B in want.items():
        with open(n) as f:
            j = json.load(f)
        res.check((j if "Bamp" in j else list(j.values())[0])["Bamp"] == B, "default file name", "%s was overwritten" % n)
        res.saw(n)


METHOD = {"least_square": "leastsq"}


def run_series(case, res, o, d):
    seen = run_series.seen = {}
    with Patched(minimize=minimizer(case, seen), report_fit=lambda *a, **k: None):
        if case.get("method") == "nonsense":
            try:
                o.runFit(filename=name(case))
            except ValueError:
                res.check(True, "")
            else:
                res.check(False, "unknown method accepted")
            files(res, d, set())
            res.saw("refused", case["fitter"])
            return False
        o.runFit(filename=name(case))
    m = case.get("method", "differential_evolution")
    res.check(seen["method"] == METHOD.get(m, m), "method handed over", seen["method"])
    files(res, d, {name(case) + ".json", name(case) + ".pdf"})
    return True


def _seriesT(case, res, d):
    Ts = [25, 6]
    dd, raw = fl.data(d, Ts)
    m = fl.member(data_T=list(Ts), fixdoping=case["fix"], **KW)
    m["scattering_params"] = {T: dict(m["scattering_params"]) for T in Ts}
    sc = ("gamma_0", "gamma_k", "power")
    bd = {n: ({T: [LO[n], HI[n]] for T in Ts} if n in sc else [LO[n], HI[n]]) for n in case["free"]}
    o = fl.seriesT(m, bd, dd, case["norm"], folder=d, method=case.get("method", "differential_evolution"))
    if not run_series(case, res, o, d):
        return
    seen = run_series.seen
    ths = fl.grid(0, 80, 40)
    with open(name(case) + ".json") as f:
        j = json.load(f)
    o2 = fl.seriesT(m, bd, dd, case["norm"], folder=d)
    o2.json_name = name(case) + ".json"
    o2.load_and_interp_data()
    o2.load_member_from_json()
    res.check(sorted(o2.member_dict, key=str) == sorted(Ts, key=str), "temperatures after reloading", lambda: str(list(o2.member_dict)))
    o2.produce_ADMR_object()
    w = []
    for T in Ts:
        val = {n: seen["best"][n + "_" + str(T) if n in sc else n] for n in case["free"]}
        res.check(all(get(o.member_dict[T], n) == v for n, v in val.items()), "fitted parameters", lambda: str(o.member_dict[T]))
        res.check(all(get(j[str(T)], n) == v for n, v in val.items()), "saved parameters", lambda: str(j))
        same_member(res, o2.member_dict[T], o.member_dict[T])
        wm = deepcopy(m)
        wm["scattering_params"] = dict(wm["scattering_params"][T])
        for n, v in val.items():
            fl.put(wm, n, float(v))
        rho, z = fl.simulate([wm], [0, 45], ths)
        held(res, case, j[str(T)], rho)
        o2.admrObject_dict[T].runADMR()
        res.close(o2.admrObject_dict[T].rhozz_array, rho, "reloaded simulation", str(case), rtol=1e-6)
        w.append(data_sq(raw, T, True, rho, z, ths).ravel())
        if not case["norm"]:
            w.append(np.zeros(2))
    res.close(seen["values"][case["best"]], np.concatenate(w), "residual handed to the optimizer", str(case), rtol=1e-6)
    res.saw(j)
