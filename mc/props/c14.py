"""C14: Onsager reciprocity, symmetries and exact scaling laws."""
import numpy as np
from .. import ref, core, trans
from ..models import NAMES

PID = "C14"
LEVEL = "exploration"
RULE = ("every band model x field vector x rate model x discretization: sigma_ij(B) = sigma_ji(-B) where the surface maps to "
        "itself under time reversal; even/odd parts, crystal rotations and reflections of the field; rescaling of field and "
        "rates, of energies and field, of lengths and field, of the number of zones, each for every factor of a set.  "
        "Non-trivial = distinct tensor pair.")
ASSUME = ["N_time large enough for Onsager to the stated 2 percent of the geometric mean of the diagonal entries; the scaling "
          "laws are exact and held to 1e-6"]
EVEN = ["cuprate", "electron", "tet", "ortho", "q1d", "free2d", "ell", "af", "pockets"]
C4 = ["cuprate", "electron", "tet", "free2d", "af"]


def cases(tier):
    T = tier == "thorough"
    out = []
    F = trans.FIELDS if T else trans.FIELDS[:6]
    for n in EVEN:
        for f in F:
            for mods in (["iso", "cos", "z"] if T else ["cos"]) if n != "ell" else ["iso"]:
                out.append({"kind": "onsager", "model": n, "field": f, "mods": mods})
    for c in core.deviations(4 if T else 2, model=NAMES, field=F, mods=["cos", "iso", "dos", "z"], msq=[False, True]):
        if c["msq"] and c["model"] in ("lowsym", "linear"):
            continue
        if c["model"] == "ell" and c["mods"] in ("cos", "z"):
            continue        # points on the kz axis: the azimuth is rounding
        out.append(dict(kind="scale", **c))
    for n in C4:
        for f in F:
            for msq in (False, True):
                out.append({"kind": "c4", "model": n, "field": f, "msq": msq})
    for n in EVEN:
        for f in F:
            out.append({"kind": "mirror", "model": n, "field": f})
    return out


def geo(S):
    d = np.sqrt(np.abs(np.diag(S)))
    return np.outer(d, d) + 1e-9 * np.max(d) ** 2


def fine(name):
    return (31, 31, 31) if name == "ell" else (21, 21, 15)


def run_case(case, res):
    B, phi, th = case["field"]
    kind, name = case["kind"], case["model"]
    if kind == "onsager":
        Ss = []
        for s in (1, -1):
            _, bo, c, r, sp = trans.setup(name, res=fine(name), field=(s * B, phi, th), mods=case["mods"], N_time=160, sp={"gamma_k": 15.0})
            Ss.append(np.array(c.sigma))
        d = np.abs(Ss[0] - Ss[1].T) / geo(Ss[0])
        res.note_max("Onsager mismatch", d.max())
        res.check(d.max() < 0.02, "Onsager", lambda: "sigma(B)\n%s\nsigma(-B)\n%s" % tuple(Ss))
        w = np.linalg.eigvalsh((Ss[0] + Ss[0].T) / 2)
        res.check(w.min() >= -1e-3 * w.max(), "dissipation", lambda: "eigenvalues %s" % w)
        res.saw(Ss[0])
    elif kind == "scale":
        def go(field, sp, **over):
            from ..models import model
            from ..target import BandStructure, Conductivity
            m = model(name, resolution=[7, 7, 5], march_square=case["msq"])
            m.update({k: f(m[k]) for k, f in over.items()})
            bo = BandStructure(**m)
            bo.res_xy_rough = 201
            bo.discretize_fermi_surface()
            c = Conductivity(bo, *field, scattering_models=trans.MODS[case["mods"]], scattering_params=sp, N_time=60, rtol=1e-9, atol=1e-9)
            c.runTransport()
            return np.array(c.sigma)
        sp = dict(trans.SP)
        S = go((B, phi, th), sp)
        for l in (0.5, 1.7, 3.0):
            g = {k: (l * x if k.startswith("gamma") else x) for k, x in sp.items()}
            got = go((l * B, phi, th), g)
            res.note_max("scaling mismatch", np.abs(got * l / S - 1)[np.abs(S) > 1e-6 * np.abs(S).max()].max())
            res.close(got * l, S, "field and rates", "both times %g" % l, rtol=1e-6)
            got = go((B / l, phi, th), sp, energy_scale=lambda e: l * e)
            res.close(got / l, S, "energies and field", "energies times %g, field divided" % l, rtol=1e-6)
            if name not in ("free2d", "ell", "linear"):
                L = lambda x: l * x
                got = go((B / l ** 2, phi, th), sp, a=L, b=L, c=L)
                res.close(got * l, S * 1.0, "lengths", "lattice times %g, field divided by its square" % l, rtol=1e-5)
            got = go((B, phi, th), sp, number_of_bz=lambda n: 3 * n)
            res.close(got * 3, S, "number of zones", rtol=1e-9)
        # a full turn, and the same direction written with negative angles
        res.close(go((B, phi + 360, th), sp), S, "full turn of phi", rtol=1e-6)
        res.close(go((-B, phi, th + 180), sp), S, "B(theta + 180) = -B(theta)", rtol=1e-6)
        res.close(go((B, phi + 180, -th), sp), S, "phi + 180 and -theta", rtol=1e-6)
        res.saw(S)
    elif kind == "c4":
        Ss = []
        for q in range(4):
            _, bo, c, r, sp = trans.setup(name, res=(11, 11, 5), msq=case["msq"], field=(B, phi + 90 * q, th), mods="cos", N_time=60)
            Ss.append(np.array(c.sigma))
        R = np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
        for q in range(1, 4):
            M = np.linalg.matrix_power(R, q)
            d = np.abs(Ss[q] - M @ Ss[0] @ M.T) / geo(Ss[0])
            res.note_max("fourfold mismatch", d.max())
            res.check(d.max() < (1e-3 if case["msq"] else 0.03), "fourfold rotation", lambda: "turn %d\n%s\nfrom\n%s" % (q, Ss[q], Ss[0]))
        res.saw(Ss[0])
    else:
        mods = "iso" if name == "ell" else "cos"
        _, bo, c, r, sp = trans.setup(name, res=fine(name), field=(B, phi, th), mods=mods, N_time=40)
        S = np.array(c.sigma)
        # reflection through the plane spanned by x and z: By even, Bx and Bz odd
        _, bo, c, r, sp = trans.setup(name, res=fine(name), field=(-B, -phi, th), mods=mods, N_time=40)
        M = np.diag([1.0, -1.0, 1.0])
        d = np.abs(np.array(c.sigma) - M @ S @ M) / geo(S)
        res.note_max("mirror mismatch", d.max())
        res.check(d.max() < 0.025, "mirror", lambda: "%s\nfrom\n%s" % (c.sigma, S))
        # inversion leaves the field and the tensor alone: no B-linear diagonal
        _, bo, c, r, sp = trans.setup(name, res=fine(name), field=(-B, phi, th), mods=mods, N_time=40)
        d = np.abs(np.diag(c.sigma) - np.diag(S)) / np.diag(geo(S))
        res.note_max("odd diagonal", d.max())
        res.check(d.max() < 0.025, "diagonal even in B", lambda: "%s\nand\n%s" % (c.sigma, S))
        res.saw(S)
