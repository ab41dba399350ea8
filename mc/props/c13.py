"""C13: the Chambers integral in a field."""
import numpy as np
from .. import ref, core, trans
from ..models import NAMES

PID = "C13"
GEO = {"near": dict(lat=(3.75, 3.752, 13.2)), "small": dict(lat=(0.9, 1.1, 2.3), scale=900.0), "stiff": dict(scale=1.7)}
LEVEL = "exploration"
RULE = ("every band model x field vector x rate model x lifetime x number of steps x discretization x level x zones: the "
        "tensor of the real code against a Chambers integral assembled from an independent orbit integrator, velocity and "
        "rate on the same time grid; "
        "index order, sign of the Hall part and every unit follow from the comparison.  Non-trivial = distinct tensor.")
ASSUME = ["the surface points and weights are those of C02 and C03", "solver tolerances 1e-9"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for c in core.deviations(3 if T else 2, model=NAMES, field=(trans.FIELDS if T else trans.FIELDS[:6]) + [(0.3, 40, 50), (0.01, 0, 20), (-1.5, 10, 80), (160, 25, 35), (45, 0, 89.9), (45, 359, 179)], mods=["cos", "iso", "z", "sin", "dos", "all"],
                             g0=[12.6, 2.5, 60.0], N=[60, 25, 150, 8, 640], msq=[False, True], lev=[0.0, 7.0, -11.0], nbz=[None, 3, 4], res=[[7, 7, 5], [6, 11, 3], [13, 9, 6], [33, 31, 15]], geo=[None, "near", "small", "stiff"]):
        if c["msq"] and c["model"] in ("lowsym", "linear"):
            continue
        if T and sum(c[k] != d for k, d in dict(g0=12.6, N=60, lev=0.0, nbz=None, geo=None, res=[7, 7, 5]).items()) > 2:
            continue
        out.append(c)
    return out


def run_case(case, res):
    try:
        m, bo, c, r, s = trans.setup(case["model"], msq=case["msq"], eps=case["lev"], mods=case["mods"], field=case["field"], res=case["res"], **GEO.get(case["geo"], {}),
                                     sp={"gamma_0": case["g0"], "gamma_k": 3 * case["g0"]}, N_time=case["N"], run=False)
    except (ValueError, RuntimeError):
        return
    if case["nbz"]:
        c.bandObject.number_of_bz = r.nbz = case["nbz"]
    c.runTransport()
    kf = np.asarray(bo.kf)
    gf = trans.rate(r, kf, case["mods"], s)
    B, phi, th = case["field"]
    g0 = gf(kf, r.velocity(*kf))
    N = case["N"]
    t = 8 / g0.min() / N * np.arange(N)
    want, k, v, g, ex = ref.sigma_field(r, kf, np.asarray(bo.dkf), ref.b_vector(B, phi, th), t, gf, sub=max(4, 360 // N))
    S = np.array(c.sigma)
    scale = np.sqrt(np.outer(np.abs(np.diag(want)), np.abs(np.diag(want))))
    scale = np.where(scale > 1e-9 * scale.max(), scale, 1e-2 * scale.max())     # no velocity at all along an axis
    tol = 1e-5
    d = np.abs(S - want) / np.abs(want).max()
    res.note_max("deviation (of the largest entry)", d.max())
    res.check(np.isfinite(S).all() and d.max() <= tol, "Chambers integral", lambda: "off by %.3g of the largest entry:\n%s\nexpected\n%s" % (d.max(), S, want))
    # small entries (along c) count for themselves
    dd = np.abs(S - want) / scale
    res.note_max("deviation (entry by entry)", dd.max())
    res.check(dd.max() <= 1e-4, "Chambers integral, small entries", lambda: "off by %s\n%s\nexpected\n%s" % (dd.max(), S, want))
    res.saw(S)
