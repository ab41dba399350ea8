"""C18: the angle sweep is the inverse of the summed conductivity, at every angle, after any history."""
import numpy as np, itertools
from ..target import BandStructure, Conductivity, ADMR
from ..models import model
from .. import ref, core, snap, trans
from ..explore import explore

PID = "C18"
LEVEL = "model_checking"
RULE = ("grids: every (first angle, last angle, step) of a table against exact integer arithmetic.  Sweeps: band lists of one to "
        "three bands (all ordered pairs and one triple of six models) x azimuth lists (every order of up to three angles) x field x temperature x normalization angle (on the grid, between, "
        "outside): each entry against new objects at that angle and against the reference integral, the normalization against a "
        "hand-written interpolation, totals against the bands.  History: all orders of changing field strength, angle lists, "
        "normalization, rates, temperature, a band parameter and sweeping, explored to the fixpoint, each sweep against a new object.")
ASSUME = ["the sweep keeps the conductivity objects it was given (documented), so their own edits are part of the history"]

GRID = [(lo, hi, st) for lo in (0, -30, 10, 2.5, -90) for hi in (20, 40, 60, 90, 110, 77.7, 180) for st in (5, 2.5, 10, 0.1, 0.3, 7, 1, 15, 0.7) if hi > lo]
GRID += [(lo, lo + w, st) for lo in (0, 89, -12.5) for w in (0.1, 0.375, 1) for st in (0.005, 0.001, 0.025, 0.0625)]
GRID += [(0, 3600, 0.5), (-720, 720, 0.25), (0, 90, 0.01), (-360, -300, 0.5), (0, 1, 40)]
BANDS = ["tet", "ortho", "electron", "free2d", "pockets", "lowsym"]


def cases(tier):
    T = tier == "thorough"
    out = [{"kind": "grid", "i": i} for i in range(0, len(GRID), 20)]
    lists = [["tet", "tet"]] + [[b] for b in BANDS if b != "free2d"] + [list(p) for p in itertools.permutations(BANDS, 2)] + [["tet", "ortho", "free2d"]]
    for i, l in enumerate(lists):
        combos = [dict(phis=[0, 22.25, 0.125], th=[0, 0.5, 0.25], norm=0.125, B=45, T=0)] * (len(l) == 1)
        combos += [dict(phis=[0, 40], th=[0, 60, 30], norm=0, B=45, T=0), dict(phis=[30], th=[-20, 55, 25], norm=10, B=30, T=0)]
        if len(l) == 1 or T:
            combos += [dict(phis=list(p), th=[10, 70, 30], norm=n, B=B, T=0) for p in itertools.permutations([0, 25, 110]) for n in (-50, 40, 33, 200) for B in (20,)]
            combos += [dict(phis=[15, 60], th=[0, 80, 40], norm=n, B=40, T=12) for n in (0, 50)]
            combos += [dict(phis=[15, 60], th=[0, 80, 40], norm=0, B=0, T=0)]
        out += [dict(c, kind="sweep", bands=l) for c in combos]
    # bands that were never given names of their own all have the default one
    for l in ([["tet", "ortho"], ["electron", "tet", "free2d"], ["tet", "tet"]]):
        out += [{"kind": "sweep", "bands": l, "noname": 1, "phis": [0, 40], "th": [0, 60, 30], "norm": 0, "B": 45, "T": 0}]
    for l in (["tet", "tet"], ["ortho", "tet", "ortho"], ["tet", "tet", "tet"]) if not T else itertools.product(["tet", "ortho", "cuprate"], repeat=3):
        out.append({"kind": "same", "bands": list(l)})
    out.append({"kind": "totals"})
    groups = [["amp", "theta", "norm"], ["amp", "phi", "rate"], ["band", "rate"], ["T", "amp"], ["theta", "phi"], ["band", "second"], ["rate", "second"]]
    if T:
        groups += [list(g) for g in itertools.combinations(["amp", "theta", "phi", "norm", "rate", "band", "T", "second"], 3)]
    out += [{"kind": "history", "dims": g} for g in groups]
    return out


RATES = {"gamma_0": 9.0, "gamma_k": 20.0, "power": 4.0}


def conds(bands, B, T, start=(0, 0), named=True):
    out = []
    for i, b in enumerate(bands):
        m = {k: v for k, v in model(b, resolution=[5, 5, 3]).items() if k != "band_name"}
        bo = BandStructure(**dict(m, band_name=b) if named else m)
        bo.runBandStructure(printDoping=False)
        out.append(Conductivity(bo, B, start[0], start[1], N_time=25, T=T, N_epsilon=3, rtol=1e-9, atol=1e-9,
                                scattering_models=["isotropic"], scattering_params={"gamma_0": 8.0 + 5 * i}))
    return out


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def run_case(case, res):
    globals()["_" + case["kind"]](case, res)


def _grid(case, res):
    c = conds(["tet"], 40, 0)
    for lo, hi, st in GRID[case["i"]:case["i"] + 20]:
        a = ADMR(c, Btheta_min=lo, Btheta_max=hi, Btheta_step=st, show_progress=False)
        n = -((round(lo * 10000) - round(hi * 10000)) // round(st * 10000))     # first grid angle at or beyond the last
        res.close(a.Btheta_array, lo + st * np.arange(n + 1), "angle grid", "from %s to %s by %s" % (lo, hi, st), rtol=1e-9)
        res.saw(lo, hi, st)


def _sweep(case, res):
    cs = conds(case["bands"], case["B"], case["T"], start=(77, 13), named="noname" not in case)
    a = ADMR(cs, Btheta_min=case["th"][0], Btheta_max=case["th"][1], Btheta_step=case["th"][2], Btheta_norm=case["norm"],
             Bphi_array=case["phis"], show_progress=False)
    if "noname" not in case:
        res.check(list(a.band_names) == case["bands"], "band names", a.band_names)
    a.runADMR()
    th = case["th"][0] + case["th"][2] * np.arange(int(np.ceil((case["th"][1] - case["th"][0]) / case["th"][2])) + 1)
    res.close(a.Btheta_array, th, "angle grid", rtol=1e-12)
    res.close(a.Bphi_array, case["phis"], "azimuth list", rtol=1e-12)
    want = np.empty((len(case["phis"]), len(th)))
    for i, phi in enumerate(case["phis"]):
        for j, t in enumerate(th):
            s = np.zeros((3, 3))
            own = {}
            for c in conds(case["bands"], case["B"], case["T"]):
                c.Bphi, c.Btheta = phi, t
                c.runTransport()
                s = s + np.array(c.sigma)
                own[c] = np.array(c.sigma)
            want[i, j] = (s[0, 0] * s[1, 1] - s[0, 1] * s[1, 0]) / np.linalg.det(s)
    if res.close(a.rhozz_array, want, "rho_zz of the sweep", str(case), rtol=1e-6):
        norm = np.array([interp(case["norm"], th, want[i]) for i in range(len(want))])
        res.close(a.rzz_array, want / norm[:, None], "normalized rho_zz", str(case), rtol=1e-6)
    for b, c, o in zip(case["bands"], cs, own.values()):
        res.close(c.sigma, o, "conductivity of one band after the sweep", "%s of %s" % (b, case), rtol=1e-6, atol=1e-9 * np.abs(o).max())
    first = (np.array(a.rhozz_array), np.array(a.rzz_array))
    res.saw(*first)
    if case["T"] == 0 and case["B"] != 0:
        i, j = len(case["phis"]) - 1, len(th) - 1
        s = np.zeros((3, 3))
        for k, b in enumerate(case["bands"]):
            m = model(b, resolution=[5, 5, 3])
            bo = cs[k].bandObject
            r = ref.Band(**m)
            g = 8.0 + 5 * k
            t = 8 / g / 25 * np.arange(25)
            s += ref.sigma_field(r, np.asarray(bo.kf), bo.dkf, ref.b_vector(case["B"], case["phis"][i], th[j]), t, lambda kk, v: g + 0 * kk[0], sub=8)[0]
        res.close(a.rhozz_array[i, j], np.linalg.inv(s)[2, 2], "rho_zz against the reference integral", str(case), rtol=1e-4)
    n = sum(c.bandObject.n for c in cs)
    res.close(a.total_filling, n, "total filling", rtol=1e-12)
    res.close(a.total_hole_doping, 1 - n, "total hole doping", rtol=1e-9, atol=1e-12)
    a.runADMR()
    res.close(a.rhozz_array, first[0], "second sweep", rtol=1e-9)
    res.close(a.rzz_array, first[1], "second sweep, normalized", rtol=1e-9)
    res.close(a.total_filling, n, "total filling of the second sweep", rtol=1e-12)


def _same(case, res):
    """One object may stand for several degenerate sheets: each entry of the
    list conducts."""
    one = {b: conds([b], 40, 0, start=(77, 13))[0] for b in set(case["bands"])}
    a = ADMR([one[b] for b in case["bands"]], Btheta_norm=0, Bphi_array=[0, 40], show_progress=False)
    a.Btheta_array = np.array([0.0, 30.0])
    a.runADMR()
    for i, phi in enumerate((0, 40)):
        for j, t in enumerate((0.0, 30.0)):
            s = np.zeros((3, 3))
            for b in case["bands"]:
                c = conds([b], 40, 0)[0]
                c.Bphi, c.Btheta = phi, t
                c.runTransport()
                s = s + np.array(c.sigma)
            res.close(a.rhozz_array[i, j], np.linalg.inv(s)[2, 2], "rho_zz of degenerate sheets", str(case), rtol=1e-6)
    n = sum(one[b].bandObject.n for b in case["bands"])
    res.close([a.total_filling, a.total_hole_doping], [n, 1 - n], "totals of degenerate sheets", str(case), rtol=1e-9)
    res.saw(a.rhozz_array)


def _totals(case, res):
    cs = conds(["tet", "ortho", "cuprate"], 40, 0)
    a = ADMR(cs, Btheta_norm=0, Bphi_array=[0], show_progress=False)
    for ns in itertools.product((0.0, 0.3, 1, 2.0), repeat=3):
        for c, n in zip(cs, ns):
            c.bandObject.n = n
        a.update_total_doping()
        res.close([a.total_filling, a.total_hole_doping], [sum(ns), 1 - sum(ns)], "totals", lambda: str(ns), rtol=1e-12, atol=1e-12)
        res.saw(ns)


DIMS = {
    "amp": [["cond", "Bamp", 40], ["cond", "Bamp", 15]],
    "theta": [["admr", "Btheta_array", [0.0, 35.0]], ["admr", "Btheta_array", [20.0, 50.0, 80.0]]],
    "phi": [["admr", "Bphi_array", [0.0]], ["admr", "Bphi_array", [30.0, 70.0]]],
    "norm": [["admr", "Btheta_norm", 0], ["admr", "Btheta_norm", 30]],
    "rate": [["rate", "gamma_0", 8.0], ["rate", "gamma_0", 25.0]],
    "T": [["cond", "T", 0], ["cond", "T", 10]],
    "band": [["band", "tz", 0.11], ["band", "tz", 0.25]],
    "second": [["band2", "tz", 0.13], ["band2", "tz", 0.3]],
}


def _history(case, res):
    bands = ["tet", "ortho"] if "second" in case["dims"] else ["tet"]
    a0 = ADMR(conds(bands, 40, 0), Btheta_norm=0, Bphi_array=[0.0], show_progress=False)
    a0.Btheta_array = np.array([0.0, 35.0])
    g0 = dict(Bamp=40, T=0, gamma_0=8.0, tz=0.11, tz2=0.13, th=[0.0, 35.0], phi=[0.0], norm=0)
    memo = {}

    def fresh(g):
        k = snap.state(g)
        if k not in memo:
            cs = conds(bands, g["Bamp"], g["T"])
            cs[0].gamma_0 = g["gamma_0"]
            for c, tz in zip(cs, (g["tz"], g["tz2"])):
                c.bandObject["tz"] = tz
                c.bandObject.runBandStructure(printDoping=False)
            a = ADMR(cs, Btheta_norm=g["norm"], Bphi_array=g["phi"], show_progress=False)
            a.Btheta_array = np.array(g["th"])
            a.runADMR()
            memo[k] = a
        return memo[k]

    def apply(a, g, op):
        g = dict(g)
        k = op[0]
        if k == "run":
            a.runADMR()
            f = fresh(g)
            res.close(a.rhozz_array, f.rhozz_array, "rho_zz depends on the history", str(g), rtol=1e-6)
            res.close(a.rzz_array, f.rzz_array, "normalized rho_zz depends on the history", str(g), rtol=1e-6)
            res.close(a.total_filling, f.total_filling, "total filling depends on the history", str(g), rtol=1e-12)
            res.close(a.total_hole_doping, f.total_hole_doping, "total hole doping depends on the history", str(g), rtol=1e-9, atol=1e-12)
            for c, d in zip(a.condObject_list, f.condObject_list):
                res.close(c.sigma, d.sigma, "conductivity of one band after the sweep", str(g), rtol=1e-6, atol=1e-9 * np.abs(d.sigma).max())
            res.saw(a.rhozz_array)
        elif k == "cond":
            for c in a.condObject_list:
                setattr(c, op[1], op[2])
            g[op[1]] = op[2]
        elif k == "rate":
            a.condObject_list[0].gamma_0 = op[2]
            g["gamma_0"] = op[2]
        elif k == "admr":
            setattr(a, op[1], np.array(op[2]) if isinstance(op[2], list) else op[2])
            g[{"Btheta_array": "th", "Bphi_array": "phi", "Btheta_norm": "norm"}[op[1]]] = op[2]
        elif k in ("band", "band2"):
            bo = a.condObject_list[0 if k == "band" else 1].bandObject
            bo["tz"] = op[2]
            bo.runBandStructure(printDoping=False)
            g["tz" if k == "band" else "tz2"] = op[2]
        return g

    ops = [o for d in case["dims"] for o in DIMS[d]] + [["run"]]
    closed, n = explore(res, a0, ops, apply, lambda o, g, p: None, case.get("depth", 40), g0)
    res.note_max("cases cut by the depth bound", 0 if closed else 1)
    res.note_max("states of a case", n)
