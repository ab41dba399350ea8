"""C11: time window and survival exponent."""
import numpy as np
from .. import ref, core, trans
from ..models import NAMES

PID = "C11"
LEVEL = "exploration"
RULE = ("every band model x field x rate model x lifetime x number of time steps x discretization: the time samples start at "
        "0, are evenly spaced, number N_time and span 8 times the longest lifetime on the Fermi surface (N_time steps); the "
        "survival exponent starts at 0 and each increment is the step times a rate between the rates (independent evaluator) "
        "at its two ends; extreme rates of the surface are reported; a changed N_time redistributes the same window.  "
        "Non-trivial = distinct exponent array.")
ASSUME = []


def cases(tier):
    T = tier == "thorough"
    out = []
    for c in core.deviations(3 if T else 2, model=NAMES, field=trans.FIELDS if T else trans.FIELDS[:4], mods=["cos", "iso", "z", "sin", "dos", "all"],
                             N=[60, 1, 2, 7, 100, 333, 2500], g0=[12.0, 0.9, 55.0, 0.05, 3e4], msq=[False, True], lev=[0.0, 6.0]):
        if c["msq"] and c["model"] in ("lowsym", "linear"):
            continue
        out.append(dict(kind="run", **c))
    for n in NAMES:
        for mods in trans.MODS:
            out.append({"kind": "zero", "model": n, "mods": mods})
    for n in NAMES:
        for g0 in (1e-6, 1e-3, 0.02, 1e4, 1e8):
            out.append({"kind": "zero", "model": n, "mods": "iso", "g0": g0})
    for n in NAMES:
        for mods in ("cos", "sin", "dos", "all"):
            for g in ([41, 41, 31], [101, 9, 7], [9, 9, 81]) if T else ([41, 41, 31],):
                out.append({"kind": "zero", "model": n, "mods": mods, "res": g})
    for g in range(1, 61 if T else 25):
        out.append({"kind": "grid", "g": 0.37 * g + 0.1 / g})
    return out


def window(res, c, N, longest, what):
    t = np.asarray(c.time_array)
    if not res.check(t.shape == (N,), "number of samples", lambda: "%s: %s for N_time=%d" % (what, t.shape, N)):
        return None
    dt = 8 * longest / N
    res.close(t, dt * np.arange(N), "time samples", what, rtol=1e-9)
    res.close(c.time_max, 8 * longest, "time window", what, rtol=1e-8)
    res.close(c.dtime, dt, "time step", what, rtol=1e-8)
    return dt


def exponent_now(res, c, g, N):
    """The orbits and exponents computed from the redistributed samples,
    without a fresh window."""
    if N > 6:
        return
    c.solve_movement()
    c.t_o_tau_func()
    ex = np.asarray(c.t_o_tau)
    want = g * 8 / g / N * np.arange(N)
    if res.check(ex.shape[1] == N, "shape of the exponent after a change of N_time", lambda: "%s" % (ex.shape,)):
        res.close(ex, np.broadcast_to(want, ex.shape), "exponent after a change of N_time", "N=%d" % N, rtol=1e-8, atol=1e-12)


def run_case(case, res):
    if case["kind"] == "grid":
        # rounding must not add or lose a step
        m, bo, c, r, s = trans.setup("tet", res=(3, 3, 3), sp={"gamma_0": case["g"]}, mods="iso", run=False)
        for N in list(range(1, 130)) + [500, 999, 1000]:
            c.N_time = N
            c.reset_time()
            window(res, c, N, 1 / case["g"], "rate %g" % case["g"])
            c.N_time = N + 1
            window(res, c, N + 1, 1 / case["g"], "rate %g, changed N_time" % case["g"])
            exponent_now(res, c, case["g"], N + 1)
        res.saw(case["g"])
        return
    sp = {"gamma_0": case.get("g0", 12.0), "gamma_k": 31.0}
    try:
        m, bo, c, r, s = trans.setup(case["model"], msq=case.get("msq", False), eps=case.get("lev", 0.0), mods=case["mods"], sp=sp, res=case.get("res", (7, 7, 5)),
                                     field=case.get("field", (0, 0, 0)), N_time=case.get("N", 60), tight=False)
    except (ValueError, RuntimeError):
        return
    kf = np.asarray(bo.kf)
    gf = trans.rate(r, kf, case["mods"], s)
    g0 = gf(kf, r.velocity(*kf))
    res.close(c.gamma_tot_max, g0.max(), "largest rate", rtol=1e-8)
    res.close(c.gamma_tot_min, g0.min(), "smallest rate", rtol=1e-8)
    if case["kind"] == "zero":
        ex = np.asarray(c.t_o_tau)
        res.close(ex.ravel(), g0, "rate without a field", rtol=1e-8)
        window(res, c, case.get("N", 60), 1 / g0.min(), "run without a field")
        res.saw(g0)
        return
    dt = window(res, c, case["N"], 1 / g0.min(), "run")
    if dt is None:
        return
    k = np.asarray(c.kft)
    g = gf(k, r.velocity(k[0], k[1], k[2]))
    ex = np.asarray(c.t_o_tau)
    if not res.check(ex.shape == g.shape, "shape of the exponent", lambda: "%s, orbits %s" % (ex.shape, g.shape)):
        return
    tol = 1e-8 * ex.max()
    res.check(np.abs(ex[:, 0]).max() == 0, "exponent at t = 0", lambda: "%g" % ex[:, 0].max())
    if ex.shape[1] > 1:
        inc = np.diff(ex, axis=1)
        lo = np.minimum(g[:, 1:], g[:, :-1]) * dt
        hi = np.maximum(g[:, 1:], g[:, :-1]) * dt
        bad = (inc < lo * (1 - 1e-8) - tol) | (inc > hi * (1 + 1e-8) + tol)
        res.check(not bad.any(), "exponent", lambda: "increment %g outside [%g, %g]" % tuple(x[np.unravel_index(np.argmax(bad), bad.shape)] for x in (inc, lo, hi)))
        res.check((inc > 0).all(), "survival falls")
    res.close(np.asarray(c.tau_tot), 1 / g, "lifetime on the orbit", rtol=1e-8)
    res.saw(ex)
