"""C12: zero-field conductivity."""
import numpy as np
from .. import ref, core, trans
from ..models import NAMES

PID = "C12"
GEO = {"near": dict(lat=(3.75, 3.752, 13.2)), "small": dict(lat=(0.35, 0.9, 0.6)), "huge": dict(lat=(61.0, 18.0, 240.0)), "stiff": dict(scale=0.04)}
LEVEL = "exploration"
RULE = ("every band model x discretization x grid x rate model x level x number of zones x field angles at zero amplitude: "
        "the tensor equals 2e^2/(2pi)^3 sum of v v tau dA/(hbar|v|) over the surface evaluated independently, is symmetric "
        "and positive semidefinite, and scales with number of zones and lifetime.  Non-trivial = distinct tensor.")
ASSUME = ["the surface points and weights are those of C02 and C03"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for c in core.deviations(3 if T else 2, model=NAMES, mods=list(trans.MODS), res=[[7, 7, 5], [12, 9, 4], [15, 15, 9], [4, 5, 3], [33, 21, 17], [81, 91, 41], [701, 31, 3]], msq=[False, True],
                             lev=[0.0, 7.0, -9.0, 61.5], nbz=[1, 2, 4], geo=[None, "near", "small", "huge", "stiff"], ang=[[0, 0], [30, 70], [200, -90]], g0=[12.6, 0.01, 900.0]):
        if c["msq"] and c["model"] in ("lowsym", "linear"):
            continue
        if c["model"] == "pockets" and c["lev"] == -9.0 and not c["msq"]:
            continue        # a vertex on the axis, where phi is undefined
        out.append(c)
    return out


def run_case(case, res):
    try:
        m, bo, c, r, s = trans.setup(case["model"], res=case["res"], msq=case["msq"], eps=case["lev"], mods=case["mods"],
                                     field=(0, case["ang"][0], case["ang"][1]), **GEO.get(case["geo"], {}), sp={"gamma_0": case["g0"]}, run=False)
    except (ValueError, RuntimeError):
        return
    c.bandObject.number_of_bz = r.nbz = case["nbz"]
    c.runTransport()
    kf = np.asarray(bo.kf)
    v = r.velocity(*kf)
    gf = trans.rate(r, kf, case["mods"], s)
    want = ref.sigma_zero_field(r, kf, np.asarray(bo.dkf), gf(kf, v))
    S = np.array(c.sigma)
    res.close(S, want, "zero-field conductivity", rtol=1e-8)
    res.close(S, S.T, "symmetric", rtol=1e-10)
    w = np.linalg.eigvalsh((S + S.T) / 2)
    res.check(w.min() >= -1e-10 * w.max() and w.max() > 0, "positive", lambda: "eigenvalues %s" % w)
    # twice the rates, half the conductivity
    c.scattering_params = {k: (2 * x if k.startswith("gamma") else x) for k, x in s.items()}
    c.runTransport()
    res.close(np.array(c.sigma), S / 2, "scales with the lifetime", rtol=1e-9)
    c.bandObject.number_of_bz = 3 * case["nbz"]
    c.runTransport()
    res.close(np.array(c.sigma), S / 6, "scales with the number of zones", rtol=1e-9)
    res.saw(S)
