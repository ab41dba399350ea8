"""C22: the objective of a fit is a function of the parameters."""
import os, sys, json, subprocess, tempfile, shutil
from copy import deepcopy
import numpy as np
from .. import core, fitlib as fl, snap
from ..explore import explore

PID = "C22"
LEVEL = "model_checking"
RULE = ("explicit-state exploration of the real fit objects of all four fitters to the fixpoint: all orders of evaluating three "
        "parameter points (and a point without Fermi surface, which fails the same way each time), building the simulation, saving, reloading and "
        "re-evaluating the current point; every evaluation equals that of a new object.  Reached states are closed under evaluation, "
        "so every distribution of points over workers gives the same values; real process pools with 1-3 workers and chunks of 1, 2, "
        "3, 8 are run as conformance, against serial evaluations of new objects.")
ASSUME = ["states merged on everything the object holds except the call counter, which is reset"]

FREE = [["tz", "gamma_0"], ["mu", "power"], ["energy_scale", "Bamp"], ["T", "gamma_k"], ["a", "c"], ["t", "tz", "mu"]]
PTS = {"tz": [0.09, 0.2, 0.2, 0.13], "gamma_0": [8.0, 8.0, 15.0, 11.0], "mu": [-0.8, -0.5, -0.8, -0.61], "power": [2.0, 2.0, 6.0, 3.0],
       "energy_scale": [120.0, 200.0, 200.0, 150.0], "Bamp": [30.0, 30.0, 50.0, 22.0], "T": [0.0, 5.0, 9.0, 3.0], "gamma_k": [10.0, 50.0, 10.0, 22.0],
       "a": [3.5, 3.75, 3.9, 3.6], "c": [8.0, 8.0, 9.5, 8.8], "t": [1.0, 1.2, 1.0, 0.9]}


def cases(tier):
    T = tier == "thorough"
    out = [{"fitter": f, "free": fr, "fix": fix, "norm": norm, "npts": 4 if T else 3}
           for f in fl.FITTERS for fr in FREE for fix in ([2, 0.25] if f != "parallelT" else [2]) for norm in ((True, False) if T else ((True,) if fix == 2 else (False,)))]
    # points next to each other, as a simplex or a gradient visits them
    out += [{"fitter": f, "free": fr, "fix": 2, "norm": True, "npts": 3, "near": 1} for f in fl.FITTERS for fr in (FREE if T else FREE[:1] + FREE[2:5:2])]
    out += [{"pool": "parallel1", "fix": 2}, {"pool": "parallelT", "fix": 2}]
    if T:
        out += [{"pool": "parallel1", "fix": 0.2}]
    return out


def pool(case, res):
    env = dict(os.environ, NUMBA_DISABLE_JIT="0", NUMBA_NUM_THREADS="1", PYTHONPATH=core.VERIF)
    r = subprocess.run([sys.executable, "-m", "mc.pool_run", case["pool"], str(case["fix"])], cwd=core.VERIF, env=env, capture_output=True, text=True, timeout=380)
    line = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
    if not res.check(r.returncode == 0 and line, "pool of processes failed", lambda: r.stderr[-500:]):
        return
    o = json.loads(line[-1][7:])
    for k, v in o.items():
        res.close(v, o["serial"], "evaluations: " + k, str(case), rtol=1e-6)
        res.traces += len(v)
        res.saw(k, v)


def run_case(case, res):
    if "pool" in case:
        return pool(case, res)
    d = tempfile.mkdtemp(prefix="c22_")
    try:
        explore_fit(case, res, d)
    finally:
        shutil.rmtree(d)


def new(case, d):
    f = case["fitter"]
    fr = case["free"]
    b = {n: [min(PTS[n]) - 1, max(PTS[n]) + 1] for n in fr}
    kw = dict(N_epsilon=3)
    if f == "parallelT":
        dd, _ = fl.data_multi(d, (25, 6), norm=20)
        p = {T: {"A": fl.member(**kw)} for T in (25, 6)}
        bd = {"all": {"A": {n: b[n] for n in fr[:1]}}, 25: {"A": {n: b[n] for n in fr[1:]}}, 6: {}}
        o = fl.parallelT(p, bd, dd, case["norm"])
        run = lambda o, v: o.compute_fitness([v[l[2]] for l in o.free_params_labels])
    elif f == "seriesT":
        dd, _ = fl.data(d, (25, 6), (0, 45))
        m = fl.member(data_T=[25, 6], fixdoping=case["fix"], **kw)
        m["scattering_params"] = {T: dict(m["scattering_params"]) for T in (25, 6)}
        sc = ("gamma_0", "gamma_k", "power")
        o = fl.seriesT(m, {n: ({25: b[n], 6: b[n]} if n in sc else b[n]) for n in fr}, dd, case["norm"], folder=d)

        def run(o, v):
            vals = {}
            for n in fr:
                if n in sc:
                    vals[n + "_25"], vals[n + "_6"] = v[n], v[n] * 1.1
                else:
                    vals[n] = v[n]
            return o.compute_diff(fl.pars(o, vals))
    else:
        dd, _ = fl.data(d)
        o = getattr(fl, f)(fl.member(fixdoping=case["fix"], **kw), b, dd, case["norm"], folder=d)
        if f == "parallel1":
            run = lambda o, v: o.compute_diff2([v[n] for n in o.free_pars_name])
        else:
            run = lambda o, v: o.compute_diff(fl.pars(o, v))
    return o, run


def explore_fit(case, res, d):
    o0, run = new(case, d)
    if hasattr(o0, "init_time"):
        o0.init_time = 0
    pts = [{n: PTS[n][i] for n in case["free"]} for i in range(case["npts"])]
    if "near" in case:
        pts = [{n: PTS[n][3] * (1 + f) for n in case["free"]} for f in (0.0, 3e-5, -4e-4)]
    memo = {}

    def fresh(i):
        if i not in memo:
            memo[i] = np.array(run(new(case, d)[0], pts[i]))
        return memo[i]

    def outcome(o):
        """None: it fails."""
        try:
            return np.array(run(o, dict(pts[0], mu=-9.0)))
        except Exception:
            return None

    ops = [["eval", i] for i in range(len(pts))]
    if "mu" in case["free"]:
        ops.append(["bad"])
    if case["fitter"] == "parallelT":
        ops += [["again"], ["save"]]
    else:
        ops += [["build"], ["save"]]

    def apply(o, g, op):
        k = op[0]
        if k == "eval":
            got = np.array(run(o, pts[op[1]]))
            res.close(got, fresh(op[1]), "evaluation depends on the history", "point %s after %s" % (pts[op[1]], g), rtol=1e-7)
            res.saw(got)
            g = op[1]
        elif k == "bad":
            if "bad" not in memo:
                memo["bad"] = outcome(new(case, d)[0])
            got, want = outcome(o), memo["bad"]
            if res.check((got is None) == (want is None), "a point without Fermi surface", lambda: "%s after %s, %s for a new object" % (got, g, want)) and want is not None:
                res.close(got, want, "a point without Fermi surface", rtol=1e-7)
            g = "bad"
        elif k == "again":
            if g == "bad" or g is None:
                return None
            res.close(o.compute_fitness(), fresh(g), "re-evaluation of the current point", rtol=1e-7)
        else:
            if g == "bad" or g is None:
                return None
            if k == "build":
                (o.generate_admr if hasattr(o, "generate_admr") else o.produce_ADMR_object)()
            elif case["fitter"] == "parallelT":
                o.save_member_to_json("x", d)
            else:
                o.save_member_to_json("x")
        if hasattr(o, "nb_calls"):
            o.nb_calls = 0
        return g

    closed, n = explore(res, o0, ops, apply, lambda o, g, p: None, 12, None, max_states=300)
    res.note_max("cases cut by the depth bound", 0 if closed else 1)
    res.note_max("states of a case", n)
