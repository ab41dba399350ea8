"""C04: filling and doping."""
import numpy as np
from ..target import BandStructure, bs, CAP
from ..models import NAMES, model
from .. import ref, core

PID = "C04"
LEVEL = "exploration"
RULE = ("every band model x every grid x every k window x chemical potential of a bounded set: filling, doping, both per "
        "slice, all entry points, against a count of occupied states made by an independent evaluator; chemical potential "
        "ladders (monotone, empty, full); every ordered selection of up to 3 of 5 bands for the total doping; every "
        "BandStructure run at every level of a set.  Non-trivial = distinct filling and grid.")
ASSUME = ["default grids are capped at %d points per axis (500^3 points do not fit), the larger grids of the list are not" % CAP,
          "states within 1e-9 of the energy scale of the Fermi level may count either way"]

BANDS = ["cuprate", "electron", "tet", "af", "pockets"]


def cases(tier):
    T = tier == "thorough"
    out = []
    mus = [None, -2.0, 0.37] + ([-3.0, 0.0, 1.5] if T else [])
    grids = [(60, 60, 60), (21, 14, 9), (8, 31, 5)] + ([(2, 2, 2), (50, 3, 17), (60, 41, 2)] if T else [])
    wins = [None, (1, 1, 1), (2, 1, 1), (1, 0.5, 2)] + ([(0.5, 0.5, 4), (3, 2, 1)] if T else [])
    for c in core.product(model=NAMES, mu=mus, grid=grids, win=wins):
        out.append(dict(kind="count", **c))
    for n in NAMES:
        for k, nbz in enumerate((1, 2, 4)):
            out.append({"kind": "ladder", "model": n, "nbz": nbz})
    # grids beyond the cap: many points in all, many along one axis
    for n in ("lowsym", "tet", "af") if not T else NAMES:
        for g in ((190, 140, 90), (3001, 9, 7), (5, 1301, 11), (6, 7, 2203), (401, 399, 3)):
            out.append({"kind": "big", "model": n, "grid": g})
    import itertools
    for d in (1, 2, 3) if T else (1, 2):
        for sel in itertools.product(BANDS, repeat=d):
            out.append({"kind": "total", "bands": list(sel)})
    if not T:
        out.append({"kind": "total", "bands": ["tet", "electron", "af"]})
    for n in NAMES:
        for lev in (0.0, 12.0, -30.0):
            for msq in (False, True):
                if msq and n in ("linear", "lowsym"):
                    continue
                for g in ([5, 5, 3], [5, 3, 3], [3, 5, 3], [3, 3, 5]):
                    out.append({"kind": "run", "model": n, "lev": lev, "msq": msq, "res": g})
    return out


def count_ok(res, key, n, e, nbz, what):
    tol = 1e-9 * np.max(np.abs(e))
    lo = 2.0 * np.count_nonzero(e <= -tol) / e.size / nbz
    hi = 2.0 * np.count_nonzero(e <= tol) / e.size / nbz
    return res.check(np.ndim(n) == 0 and lo - 1e-12 <= n <= hi + 1e-12, key, lambda: "%s: %r, counted %.12g..%.12g" % (what, n, lo, hi))


def run_case(case, res):
    k = case["kind"]
    if k == "count":
        m = model(case["model"])
        if case["mu"] is not None:
            m["band_params"]["mu"] += case["mu"] if case["model"] not in ("ell", "free2d", "linear") else 0.03 * case["mu"]
        if case["win"]:
            m["k_max"] = [np.pi * x for x in case["win"]]
        g = list(case["grid"])
        r = ref.Band(**m)
        e = r.grid(g)[0]
        bo = BandStructure(**m)
        n0 = bo.update_filling(*g)
        count_ok(res, "update_filling", n0, e, r.nbz, "returned")
        count_ok(res, "n", bo.n, e, r.nbz, "n")
        res.close(bo.p, 1 - bo.n, "p = 1 - n", rtol=0, atol=1e-12)
        p = bo.doping(res_x=g[0], res_y=g[1], res_z=g[2])
        res.close(p, 1 - n0, "doping", rtol=0, atol=1e-12)
        p = bo.doping(res_x=g[0], res_y=g[1], res_z=g[2], printDoping=True)
        res.close(p, 1 - n0, "doping printed", rtol=0, atol=1e-12)
        n1 = bo.filling(res_x=g[0], res_y=g[1], res_z=g[2])
        res.close(n1, n0, "filling", rtol=0, atol=1e-12)
        res.close([bo.n, bo.p], [n0, 1 - n0], "n, p after filling", rtol=0, atol=1e-12)
        nk, pk = bo.doping_per_kz(*g)
        res.check(np.shape(nk) == (g[2],) and np.shape(pk) == (g[2],), "per kz", "shapes %s %s" % (np.shape(nk), np.shape(pk)))
        for j in range(g[2]):
            if not count_ok(res, "per kz", nk[j], e[:, :, j], r.nbz, "slice %d" % j):
                break
        res.close(np.asarray(pk), 1 - np.asarray(nk), "per kz p = 1 - n", rtol=0, atol=1e-12)
        res.close(np.mean(nk), n0, "mean of slices", rtol=0, atol=1e-12)
        res.close([bo.n, bo.p], [n0, 1 - n0], "n, p after doping_per_kz", rtol=0, atol=1e-12)
        # unit cell and energy scale are only units
        m2 = dict(m, a=m["a"] * 1.7, b=m["b"] * 1.7, c=m["c"] * 1.7, energy_scale=m["energy_scale"] * 0.6)
        if case["model"] not in ("ell", "free2d", "linear"):
            count_ok(res, "units", BandStructure(**m2).update_filling(*g), e, r.nbz, "other units")
        res.saw(n0, g, case["win"])
    elif k == "big":
        m = model(case["model"])
        g = list(case["grid"])
        r = ref.Band(**m)
        bo = BandStructure(**m)
        full = lambda name: getattr(BandStructure, name).__wrapped__
        e = r.grid(g)[0]
        count_ok(res, "large grid", full("update_filling")(bo, *g), e, r.nbz, str(g))
        nk, pk = full("doping_per_kz")(bo, *g)
        res.close(nk, 2.0 * np.count_nonzero(e <= 0, axis=(0, 1)) / (g[0] * g[1]) / r.nbz, "large grid, slices", rtol=0, atol=2.5 / g[0] / g[1])
        res.saw(bo.n, g)
    elif k == "ladder":
        m = model(case["model"])
        m["number_of_bz"] = case["nbz"]
        f = 0.05 if case["model"] in ("ell", "free2d", "linear") else 1.0
        r = ref.Band(**m)
        bo = BandStructure(**m)
        last = -1
        g = [30, 27, 12]
        for mu in (-50, -8, -4, -2, -1.5, -1, -0.5, -0.1, 0, 0.1, 0.5, 1, 2, 4, 8, 50, 1e4):
            bo["mu"] = mu * f
            r.params["mu"] = mu * f
            n = bo.update_filling(*g)
            count_ok(res, "ladder", n, r.grid(g)[0], r.nbz, "mu=%g" % (mu * f))
            res.check(n >= last, "monotone", lambda: "filling falls from %g to %g at mu=%g" % (last, n, mu * f))
            last = n
            res.saw(n, case["model"], case["nbz"])
            if mu == -50 and case["model"] not in ("ell", "free2d"):
                res.check(n == 0 or case["model"] == "linear", "empty", lambda: "n=%g below the band" % n)
        res.close(last, 2 / case["nbz"], "full", rtol=1e-12)
    elif k == "total":
        ms = [model(n) for n in case["bands"]]
        want = 1 - sum(ref.Band(**m).filling([CAP] * 3) for m in ms)
        tie = any(ref.Band(**m).gap([CAP] * 3) < 1e-6 for m in ms)
        if tie:
            raise core.HarnessError("degenerate grid")
        for wrap in (list, tuple, iter):
            bands = [BandStructure(**m) for m in ms]
            for pr in (False, True):
                got = bs.doping(wrap(bands), printDoping=pr)
                res.close(got, want, "total doping", "1 - sum of fillings", rtol=0, atol=1e-11)
            for b, m in zip(bands, ms):
                res.close(b.n, ref.Band(**m).filling([CAP] * 3), "band filling", rtol=0, atol=1e-12)
        # bands with a past: an earlier filling on a coarse grid, at another
        # level, of another doping, or after an edit of a plain attribute
        for past in ("coarse", "run", "earlier total", "window", "zones", "lattice"):
            bands = [BandStructure(**m) for m in ms]
            mm = [dict(m) for m in ms]
            b = bands[-1]
            if past == "coarse":
                b.update_filling(4, 3, 2)
            elif past == "run":
                b.resolution = [7, 7, 5]
                try:
                    b.runBandStructure(epsilon=0.02 * b.energy_scale)
                except ValueError:
                    continue
            elif past == "earlier total":
                bs.doping(bands)
                b["mu"] = b["mu"] + 0.3
                mm[-1]["band_params"] = dict(mm[-1]["band_params"], mu=mm[-1]["band_params"]["mu"] + 0.3)
            else:
                bs.doping(bands)
                if past == "window":
                    b.k_max = mm[-1]["k_max"] = [0.7 * x for x in mm[-1]["k_max"]]
                elif past == "zones":
                    b.number_of_bz = mm[-1]["number_of_bz"] = 3
                else:
                    b.a = mm[-1]["a"] = 2.2
            if any(ref.Band(**m).gap([CAP] * 3) < 1e-6 for m in mm):
                continue
            res.close(bs.doping(bands), 1 - sum(ref.Band(**m).filling([CAP] * 3) for m in mm), "total doping of used bands", past, rtol=0, atol=1e-11)
            res.close(b.doping(), 1 - ref.Band(**mm[-1]).filling([CAP] * 3), "doping of a used band", past, rtol=0, atol=1e-11)
        # one object listed twice counts twice
        b = BandStructure(**ms[0])
        res.close(bs.doping([b, b]), 1 - 2 * ref.Band(**ms[0]).filling([CAP] * 3), "same band twice", rtol=0, atol=1e-11)
        res.saw(want, case["bands"])
    else:
        g0 = list(case["res"])
        m = model(case["model"], resolution=g0)
        r = ref.Band(**m)
        bo = BandStructure(**m, march_square=case["msq"])
        e = r.grid([10 * x for x in g0])[0]
        for pr in (False, True):
            try:
                bo.runBandStructure(epsilon=case["lev"], printDoping=pr)
            except ValueError:
                g = r.grid(g0)[0] - case["lev"]
                res.check(case["msq"] or not g.min() < 0 < g.max(), "run", "refused a crossed grid")
                return
            count_ok(res, "filling of a run", bo.n, e, r.nbz, "run at level %g" % case["lev"])
            res.close(bo.p, 1 - bo.n, "p of a run", rtol=0, atol=1e-12)
        res.saw(bo.n, bo.kf)
