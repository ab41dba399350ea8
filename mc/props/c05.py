"""C05: set_mu_to_doping."""
import numpy as np, itertools
from ..target import BandStructure, bs, CAP
from ..models import NAMES, model
from .. import ref, core, snap

PID = "C05"
LEVEL = "exploration"
RULE = ("every band model x every target doping of a ladder across the attainable range and beyond x tolerance x prior "
        "history of the object; every selection of bands for the common chemical potential.  The doping is recomputed by an "
        "independent evaluator one tolerance below and above the returned chemical potential.  Non-trivial = distinct "
        "(target, chemical potential).")
ASSUME = ["grids are capped at %d points per axis" % CAP, "the attainable range is the doping range over mu in [-10, 10]"]
HIST = ["new", "disc", "run", "edited", "solved", "coarse"]
FIELDS = ["kf", "vf", "dkf", "dks", "dkz", "dos_k", "mass", "dos_epsilon"]


def cases(tier):
    T = tier == "thorough"
    out = []
    fr = [0.5, 0.05, 0.95, 0.31] + ([0.01, 0.2, 0.7, 0.85, 0.99] if T else [])
    for c in core.deviations(3 if T else 2, model=NAMES, frac=fr, tol=[None, 0.01, 0.1, 1e-5, 1e-8], hist=HIST, wide=[1, 2.3, 0.02]):
        out.append(dict(kind="one", **c))
    sets = [["cuprate"], ["tet", "electron"], ["af", "electron"], ["pockets", "tet", "cuprate"]]
    if T:
        sets += [["tet", "tet"], ["electron", "cuprate", "af", "lowsym"], ["q1d", "ortho"], ["lowsym", "af"]]
    for c in core.product(bands=sets, frac=fr, tol=[None, 0.02, 1e-7], wrap=["list", "tuple"], hist=["new", "run", "coarse"], wide=[1, 2.3]):
        out.append(dict(kind="many", **c))
    for n in NAMES:
        for d in (0.2, 1.0):
            for side in (-1, 1):
                out.append({"kind": "out", "model": n, "side": side, "by": d})
    return out


def prange(rs):
    out = []
    for mu in (-10, 10):
        p = 1.0
        for r in rs:
            r.params["mu"] = mu
            p -= r.filling([CAP] * 3)
        out.append(p)
    return out


def bracket(res, key, rs, mu, tol, target):
    ps = []
    for s in (-1, 1):
        p = 1.0
        for r in rs:
            r.params["mu"] = mu + s * tol
            p -= r.filling([CAP] * 3)
        ps.append(p)
    res.check(ps[0] + 1e-12 >= target >= ps[1] - 1e-12, key, lambda: "mu=%.9g, tol %g: doping %.6g .. %.6g, target %.6g" % (mu, tol, ps[0], ps[1], target))
    res.note_max("width of the doping bracket", ps[0] - ps[1])


def nothing_stale(res, bo, m, mu):
    """Whatever the band still claims must be right for the new mu."""
    m = dict(m)
    m["band_params"] = dict(m["band_params"], mu=mu)
    r = ref.Band(**m)
    for b in bo if isinstance(bo, list) else [bo]:
        if b.kf is not None:
            e = r.energy(*b.kf)
            g, _, ax = r.grid(b.resolution)
            # the old surface sits at E = difference of the potentials
            v = r.grad(*b.kf)
            h = max(x[1] - x[0] for x in ax)
            res.check(np.max(np.abs(e)) <= np.max(np.sqrt((v ** 2).sum(0))) * h, "stale kf", "kf off the Fermi surface by %g" % np.max(np.abs(e)))
            f = BandStructure(**m)
            f.discretize_fermi_surface()
            for a in FIELDS:
                if getattr(b, a) is not None:
                    if a == "mass" or a == "dos_epsilon":
                        getattr(f, a + "_func")()
                    res.check(snap.same(getattr(b, a), getattr(f, a), 1e-9), "stale " + a, "differs from a new object")
        else:
            for a in FIELDS:
                res.check(getattr(b, a) is None, "stale " + a, "survived without a Fermi surface")
        if b.n is not None:
            ok = any(abs(b.n - r.filling(g)) < 1e-12 for g in ([CAP] * 3, [min(CAP, 10 * x) for x in b.resolution]))
            res.check(ok and abs(b.p - 1 + b.n) < 1e-12, "stale filling", lambda: "n=%r, is %g" % (b.n, r.filling([CAP] * 3)))


def widen(m, f):
    """A band f times wider: its levels reach further in units of the energy scale."""
    m["band_params"] = {k: v * f for k, v in m["band_params"].items()}
    return m


def prepare(b, hist, p):
    if hist in ("disc", "edited"):
        b.discretize_fermi_surface()
    if hist == "run":
        b.runBandStructure()
        b.dos_epsilon_func()
    if hist == "coarse":
        b.doping(11, 9, 3)
    if hist == "edited":
        k = [x for x in b.band_params if x != "mu"][0]
        v = b[k]
        b[k] = v * 1.1
        b[k] = v
    if hist == "solved":
        b.set_mu_to_doping(p)
        b.runBandStructure()


def run_case(case, res):
    if case["kind"] == "one":
        m = widen(model(case["model"], resolution=[9, 9, 5]), case["wide"])
        r = ref.Band(**m)
        hi, lo = prange([r])
        tgt = lo + case["frac"] * (hi - lo)
        b = BandStructure(**m)
        try:
            prepare(b, case["hist"], lo + 0.4 * (hi - lo))
        except (ValueError, RuntimeError):
            return
        if case["hist"] == "coarse":    # what it shows now, but on another grid
            if not lo < b.p < hi:
                return
            tgt = b.p
        kw = {} if case["tol"] is None else {"ptol": case["tol"]}
        b.set_mu_to_doping(tgt, **kw)
        mu = b["mu"]
        bracket(res, "doping", [r], mu, 1.01 * kw.get("ptol", 0.001), tgt)
        for k in m["band_params"]:
            if k != "mu":
                res.check(b[k] == m["band_params"][k], "other parameters", k)
        nothing_stale(res, b, m, mu)
        try:
            b.discretize_fermi_surface()
        except (ValueError, RuntimeError):
            pass
        else:
            nothing_stale(res, b, m, mu)
        res.saw(tgt, mu)
    elif case["kind"] == "many":
        ms = [widen(model(n, resolution=[9, 9, 5]), case["wide"]) for n in case["bands"]]
        rs = [ref.Band(**m) for m in ms]
        hi, lo = prange(rs)
        tgt = lo + case["frac"] * (hi - lo)
        bands = [BandStructure(**m) for m in ms]
        if case["hist"] == "run":
            for b in bands:
                b.runBandStructure()
        if case["hist"] == "coarse":
            p = 1.0 - sum(1 - b.doping(11, 9, 3) for b in bands)
            if not lo < p < hi:
                return
            tgt = p
        kw = {} if case["tol"] is None else {"ptol": case["tol"]}
        bs.set_mu_to_doping(tuple(bands) if case["wrap"] == "tuple" else bands, tgt, **kw)
        mus = [b["mu"] for b in bands]
        res.check(len(set(mus)) == 1, "common mu", lambda: "%s" % mus)
        bracket(res, "total doping", rs, mus[0], 1.01 * kw.get("ptol", 0.001), tgt)
        for b, m in zip(bands, ms):
            for k in m["band_params"]:
                if k != "mu":
                    res.check(b[k] == m["band_params"][k], "other parameters", k)
            nothing_stale(res, b, m, mus[0])
        res.saw(tgt, mus)
    else:
        m = model(case["model"], resolution=[9, 9, 5])
        r = ref.Band(**m)
        hi, lo = prange([r])
        tgt = (hi + case["by"]) if case["side"] > 0 else (lo - case["by"])
        b = BandStructure(**m)
        b.discretize_fermi_surface()
        try:
            b.set_mu_to_doping(tgt)
        except ValueError:
            res.check(True, "unattainable")
        else:
            res.fail("unattainable", "doping %g is outside %g..%g and mu=%r was accepted" % (tgt, lo, hi, b["mu"]))
        nothing_stale(res, b, m, b["mu"])
        many = [BandStructure(**m)]
        try:
            bs.set_mu_to_doping(many, tgt)
        except ValueError:
            res.check(True, "unattainable")
        else:
            res.fail("unattainable (list)", "doping %g is outside %g..%g" % (tgt, lo, hi))
        res.saw(tgt, case["model"])
