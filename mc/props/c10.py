"""C10: cyclotron orbits."""
import numpy as np
from .. import ref, core, trans
from ..models import NAMES

PID = "C10"
LEVEL = "exploration"
RULE = ("every band model x both discretizations x field vector (amplitudes of both signs, all quadrants, in-plane, along c) "
        "x lifetime x level: every orbit of every surface point starts there, keeps energy and k.B, carries the velocity of "
        "its points, and follows an independently integrated orbit; static without a field; default solver accuracy too; windows of tens of turns between two samples.  "
        "Non-trivial = distinct orbit set.")
ASSUME = ["solver tolerances 1e-9 where orbits are compared to 1e-4 of the zone; at the default tolerances energy and "
          "k.B are held to 1e-2 and positions to 0.15 of the zone"]


def cases(tier):
    T = tier == "thorough"
    out = []
    fields = trans.FIELDS if T else trans.FIELDS[:6]
    for c in core.deviations(3 if T else 2, model=NAMES, field=fields, msq=[False, True], gam=[12.0, 3.0, 50.0], lev=[0.0, 8.0, -8.0],
                             mods=["iso", "cos"], solver=["tight", "default"]):
        if c["msq"] and c["model"] in ("lowsym", "linear"):
            continue
        out.append(dict(kind="orbit", **c))
    # many turns between two samples: long lifetimes, strong fields, few steps
    for n in NAMES:
        for f, g, N in [((60, 20, 30), 0.2, 5), ((200, 0, 0), 0.5, 5), ((-300, 40, 75), 0.4, 40), ((60, 20, 30), 0.5, 2)] if T else [((60, 20, 30), 0.2, 5), ((-200, 0, 10), 0.5, 5)]:
            out.append(dict(kind="orbit", model=n, field=f, msq=False, gam=g, lev=0.0, mods="iso", solver="tight", N=N, sub=1500 if N < 10 else 700))
    for n in NAMES:         # many points, and few
        for g in ([4, 5, 3], [15, 13, 11]) + (([25, 25, 13],) if T else ()):
            out.append(dict(kind="orbit", model=n, field=(45, 30, 40), msq=False, gam=12.0, lev=0.0, mods="cos", solver="tight", res=g))
    for n in NAMES:
        for m in (False, True):
            if not (m and n in ("lowsym", "linear")):
                out.append({"kind": "static", "model": n, "msq": m})
    return out


def run_case(case, res):
    if case["kind"] == "static":
        for th in (0, 30, 90):
            _, bo, c, r, _ = trans.setup(case["model"], msq=case["msq"], mods="cos", field=(0, 20, th))
            n = bo.kf.shape[1]
            k = np.asarray(c.kft)
            res.check(k.shape[:2] == (3, n), "static", "shape %s" % (k.shape,))
            for i in range(k.shape[2]):
                res.close(k[:, :, i], bo.kf, "static", rtol=1e-13)
                res.close(np.asarray(c.vft)[:, :, i], r.velocity(*bo.kf), "static velocity", rtol=1e-9)
        res.saw(case["model"], k)
        return
    B, phi, th = case["field"]
    try:
        m, bo, c, r, s = trans.setup(case["model"], res=case.get("res", (7, 7, 5)), msq=case["msq"], eps=case["lev"], mods=case["mods"], field=case["field"],
                                     sp={"gamma_0": case["gam"], "gamma_k": 2 * case["gam"]}, tight=case["solver"] == "tight",
                                     N_time=case.get("N", 60))
    except (ValueError, RuntimeError):
        e = r_energy(case)
        res.check(not e.min() < 0 < e.max() or case["msq"], "no surface", "refused a crossed grid")
        return
    kf = np.asarray(bo.kf)
    k, v, t = np.asarray(c.kft), np.asarray(c.vft), np.asarray(c.time_array)
    if not res.check(k.shape == (3, kf.shape[1], len(t)) and v.shape == k.shape, "shape", lambda: "%s %s for %s points, %d times" % (k.shape, v.shape, kf.shape, len(t))):
        return
    zone = np.pi / np.array([m["a"], m["b"], m["c"]]).max()
    tight = case["solver"] == "tight"
    ktol = (3e-5 if tight else 1e-2) * zone
    res.close(k[:, :, 0], kf, "start", rtol=1e-12)
    vel = r.velocity(k[0], k[1], k[2])
    res.close(v, vel, "velocity on the orbit", rtol=1e-8)
    E = r.energy(k[0], k[1], k[2])
    E0 = r.energy(*kf)
    g = np.abs(r.grad(k[0], k[1], k[2])).max()
    dE = np.abs(E - E0[:, None]).max()
    res.note_max("energy drift (of gradient x tolerance)" if tight else "energy drift, default solver", dE / (g * ktol))
    res.check(dE <= g * ktol, "energy", lambda: "energy of an orbit drifts by %g meV (allowed %g)" % (dE, g * ktol))
    b = ref.b_vector(B, phi, th) / B
    par = np.tensordot(b, k, axes=(0, 0))
    dp = np.abs(par - par[:, :1]).max()
    res.note_max("drift along B (1/A)" if tight else "drift along B, default solver (1/A)", dp)
    res.check(dp <= ktol, "k.B", lambda: "component along the field drifts by %g" % dp)
    want = ref.orbits(r, kf, b * B, t, sub=case.get("sub", 6))
    d = np.abs(k - want).max()
    # phases add up over many turns
    ktol *= (60 if "N" in case else 3) if tight else 15
    res.note_max("distance to the reference orbit / tolerance" if tight else "distance, default solver / tolerance", d / ktol)
    res.check(d <= ktol, "orbit", lambda: "off the reference orbit by %g 1/A (allowed %g)" % (d, ktol))
    moved = np.abs(k[:, :, -1] - k[:, :, 0]).max()
    res.note_max("longest displacement (of the zone)", moved / zone)
    res.saw(k)


def r_energy(case):
    from ..models import model
    m = model(case["model"])
    return ref.Band(**m).grid(ref.odd(case.get("res", [7, 7, 5])))[0] - case["lev"]
