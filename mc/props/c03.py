"""C03: surface weights measure the Fermi surface (area, slices, density of
states, cyclotron mass)."""
import numpy as np
from skimage import measure
from copy import deepcopy
from ..target import BandStructure
from ..models import M, NAMES, model
from .. import ref, core
from .c02 import level_of, SQ_TETRA, SQ_ORTHO

PID = "C03"
LEVEL = "exploration"
RULE = ("every band model x every grid x level, both algorithms.  Cube: about 60 localized and 10 global moments of the "
        "weights against an independently built triangulation of the reference grid, the total area against marching "
        "tetrahedra, the density of states, and "
        "closed forms for sphere-like and cylinder surfaces at a fine grid.  Slices: per slice the weights add up to the "
        "perimeter of the reference contour times the slice spacing, the density of states and the cyclotron mass to the "
        "contour integrals.  Non-trivial = distinct weight vector.")
ASSUME = ["marching cubes and marching tetrahedra of one grid agree to the stated tolerance (observed extremes in the "
          "evidence)", "a == b lattices with march_square have fourfold symmetric dispersions"]

KNOWN_END = "slices at -kmax and +kmax both carry a full spacing"


def cases(tier):
    out = []
    grids = [[13, 13, 9], [11, 15, 13], [15, 10, 7]] + ([[21, 21, 11], [17, 25, 15], [31, 31, 9], [25, 13, 21]] if tier == "thorough" else [])
    for lev in (0.0, 0.05, -0.08):
        for g in grids:
            for n in NAMES:
                out.append({"alg": "cube", "model": n, "res": g, "lev": lev})
    for lev in (0.0, 0.05):
        for g in [[21, 21, 5], [40, 11, 3]] + ([[31, 31, 7], [61, 21, 11]] if tier == "thorough" else []):
            for n in SQ_TETRA + SQ_ORTHO:
                out.append({"alg": "square", "model": n, "res": g, "lev": lev})
    # lattice constants that are nearly equal, very small and very large
    for lat in ([3.75, 3.753, 13.2], [4.2, 4.2 * (1 + 2e-6), 5.0], [0.35, 0.9, 0.6], [61.0, 18.0, 240.0]):
        near = abs(lat[0] - lat[1]) < 0.1
        for n in NAMES if near else [x for x in NAMES if x in ("ortho", "lowsym", "q1d", "tet", "electron", "cuprate")]:
            out.append({"alg": "cube", "model": n, "res": [13, 13, 9], "lev": 0.0, "lat": lat})
            out.append({"alg": "cube", "model": n, "res": [13, 13, 9], "lev": 0.05, "lat": lat, "es": 2.5e4})
        for n in SQ_TETRA + SQ_ORTHO if near else SQ_ORTHO:
            out.append({"alg": "square", "model": n, "res": [21, 21, 5], "lev": 0.0, "lat": lat})
            out.append({"alg": "square", "model": n, "res": [17, 40, 3], "lev": 0.05, "lat": lat, "es": 0.7})
    for n in ("sphere", "ellipsoid", "cylinder", "cylinder_ab"):
        out.append({"alg": "exact", "shape": n})
    return out


def run_case(case, res):
    if case["alg"] == "exact":
        return exact(case, res)
    m = model(case["model"])
    m["resolution"] = list(case["res"])
    if "lat" in case:
        m["a"], m["b"], m["c"] = case["lat"]
    if "es" in case and m["energy_scale"] < 1000:
        m["energy_scale"] = case["es"]
    eps = level_of(m, case["lev"])
    r = ref.Band(**m)
    e = r.grid(ref.odd(m["resolution"]))[0] - eps
    if not (e.min() < 0 < e.max()):
        return
    if case["alg"] == "cube":
        cube(case, res, m, eps, r)
    else:
        square(case, res, m, eps, r)


def cube(case, res, m, eps, r):
    bo = BandStructure(**m)
    bo.discretize_fermi_surface(epsilon=eps)
    e, K, ax = r.grid(ref.odd(m["resolution"]))
    h = np.array([x[1] - x[0] for x in ax])
    verts, faces, _, _ = measure.marching_cubes(e, level=eps)
    tri = (verts * h + np.array([x[0] for x in ax]))[faces]
    area, cen = ref.tri_area_centroid(tri)
    P = tri.reshape(-1, 3)
    W = np.repeat(area / 3, 3)
    kf = np.asarray(bo.kf).T
    w = np.asarray(bo.dkf)
    res.saw(w)
    tot = W.sum()
    res.note_max("area mismatch", abs(w.sum() / tot - 1))
    tol_a = 1e-3
    res.check(abs(w.sum() - tot) <= tol_a * tot, "area", lambda: "sum of weights %.5g, area %.5g" % (w.sum(), tot))
    # global moments
    s = np.pi / 2 / np.array([x[-1] for x in ax])
    def mom(p):
        x, y, z = (p * s).T
        return np.array([np.sin(x), np.sin(y), np.sin(z), np.cos(x), np.cos(y), np.cos(z), np.sin(x) * np.sin(y),
                         np.sin(x) * np.sin(z), np.sin(y) * np.sin(z), np.sin(x) * np.sin(y) * np.sin(z)])
    d = np.abs(mom(kf) @ w - mom(P) @ W) / tot
    res.note_max("global moment mismatch", d.max())
    res.check(d.max() <= tol_a, "global moments", lambda: "moment mismatch %s" % d)
    # localized moments: bumps on the surface
    step = max(1, len(cen) // 60)
    ctr = cen[::step]
    sig = 1.3
    worst = 0
    for c in ctr:
        g1 = np.exp(-(((kf - c) / h) ** 2).sum(1) / (2 * sig ** 2))
        g2 = np.exp(-(((P - c) / h) ** 2).sum(1) / (2 * sig ** 2))
        a1, a2 = g1 @ w, g2 @ W
        worst = max(worst, abs(a1 - a2) / a2)
        res.check(abs(a1 - a2) <= 0.01 * a2, "local moment", lambda: "weight around %s: %.4g, area %.4g" % (c, a1, a2))
    res.note_max("local moment mismatch", worst)
    # a second, different triangulation
    tet, _ = ref.tri_area_centroid(ref.surface_triangles(e - eps, ax))
    if case["model"] not in ("af", "pockets"):
        res.note_max("area mismatch with tetrahedra", abs(w.sum() / tet.sum() - 1))
        res.check(abs(w.sum() / tet.sum() - 1) < 0.03, "area (tetrahedra)", lambda: "sum of weights %.5g, area %.5g" % (w.sum(), tet.sum()))
    # density of states: 2/(2pi)^3 int dS/|grad E|
    v = r.velocity(*P.T)
    sp = np.sqrt((v ** 2).sum(0))
    if sp.min() > 0.15 * sp.max():
        want = 2 / (2 * np.pi) ** 3 * np.sum(W / ref.ANG ** 2 / (ref.hbar * sp))
        bo.dos_epsilon_func()
        res.note_max("density of states mismatch", abs(bo.dos_epsilon / want - 1))
        res.close(bo.dos_epsilon, want, "density of states", "2/(2pi)^3 int dA/|grad E|", rtol=2e-3)


def square(case, res, m, eps, r):
    bo = BandStructure(**m, march_square=True)
    try:
        bo.discretize_fermi_surface(epsilon=eps)
    except ValueError:
        # legitimate only if no slice is crossed
        nz = ref.odd(m["resolution"])[2]
        for kz in np.linspace(-m["k_max"][2] / m["c"], m["k_max"][2] / m["c"], nz):
            E = r.energy(*np.meshgrid(*r.axes([201, 201, 3])[:2], indexing="ij"), kz) - eps
            res.check(E.min() * E.max() > 0, "no surface", "refused although slice %g is crossed" % kz)
        return
    nz = ref.odd(m["resolution"])[2]
    kzs = np.linspace(-m["k_max"][2] / m["c"], m["k_max"][2] / m["c"], nz)
    dz = kzs[1] - kzs[0]
    N = 401
    kx, ky = r.axes([N, N, 3])[:2]
    X, Y = np.meshgrid(kx, ky, indexing="ij")
    kf = np.asarray(bo.kf)
    w, dks = np.asarray(bo.dkf), np.asarray(bo.dks)
    res.saw(w)
    mass = 0.0
    dos = 0.0
    end = []
    skip_small = False
    for j, kz in enumerate(kzs):
        E = r.energy(X, Y, kz) - eps
        seg = ref.slice_segments(E, kx, ky)
        if not len(seg):
            continue
        L = np.linalg.norm(seg[:, 1] - seg[:, 0], axis=1)
        mid = seg.mean(1)
        per = L.sum()
        sel = np.abs(kf[2] - kz) < 1e-6 * dz
        if per < 40 * (kx[1] - kx[0]):
            skip_small = True
            continue
        v = r.velocity(mid[:, 0], mid[:, 1], np.full(len(mid), kz))
        vp = np.sqrt(v[0] ** 2 + v[1] ** 2)
        mass += np.sum(L / vp)
        s = dks[sel].sum()
        res.note_max("perimeter mismatch", abs(s / per - 1))
        res.close(s, per, "perimeter", "slice %d: sum of steps" % j, rtol=0.004)
        # where the arc length is: per octant of the plane and by angle
        for q in range(8):
            u = np.array([np.cos(q * np.pi / 4 + 0.2), np.sin(q * np.pi / 4 + 0.2)])
            sc = np.pi / 2 / max(kx[-1], ky[-1])
            f = lambda a, b: np.exp(2 * sc * (a * u[0] + b * u[1]))
            got, want = (dks[sel] * f(kf[0][sel], kf[1][sel])).sum(), (L * f(mid[:, 0], mid[:, 1])).sum()
            res.note_max("slice moment mismatch", abs(got / want - 1))
            res.close(got, want, "slice moment", "slice %d moment %d" % (j, q), rtol=0.05)
        ws = w[sel].sum()
        inner = 0 < j < nz - 1
        if inner:
            res.close(ws, per * dz, "slice weight", "slice %d" % j, rtol=0.004)
        else:
            if abs(ws - per * dz) <= 0.004 * per * dz:
                end.append(j)
            elif abs(ws - per * dz / 2) <= 0.004 * per * dz / 2:
                pass
            else:
                res.fail("end slice weight", "slice %d weighs %.5g, perimeter x spacing is %.5g" % (j, ws, per * dz))
    if len(end) == 2:
        # -kmax and +kmax bound one window: half a spacing each, not a whole
        res.fail(KNOWN_END, "slices %s" % end)
    elif len(end) == 1:
        res.fail("end slice weight", "only slice %s carries a full spacing" % end)
    res.close(w, dks * np.asarray(bo.dkz), "weight of a point", "step x spacing", rtol=1e-9)
    res.close(bo.dkz, np.full(w.shape, dz), "dkz", "slice spacing", rtol=1e-9)
    v = r.velocity(*kf)
    vp = np.sqrt(v[0] ** 2 + v[1] ** 2)
    if not skip_small and vp.min() > 0.05 * vp.max():
        want = ref.hbar / (2 * np.pi) * mass / ref.ANG / nz / ref.electron_mass
        bo.mass_func()
        res.note_max("cyclotron mass mismatch", abs(bo.mass / want - 1))
        res.close(bo.mass, want, "cyclotron mass", "hbar/2pi oint dk/v, mean over slices", rtol=0.03)
    bo.dos_epsilon_func()
    sp = np.sqrt((v ** 2).sum(0))
    res.close(bo.dos_epsilon, 2 / (2 * np.pi) ** 3 * np.sum(w / ref.ANG ** 2 / (ref.hbar * sp)), "density of states",
              "sum of weights / |grad E|", rtol=1e-8)


def exact(case, res):
    """Closed forms: E = h2 k^2 with hbar^2/2m = 3.81 eV A^2."""
    s = case["shape"]
    h2 = 3809.98211616  # meV A^2, hbar^2 / 2 m_e
    if s == "sphere":
        k = 0.45
        m = dict(a=4.0, b=4.0, c=4.0, energy_scale=h2, band_params={"h": 1.0, "mu": k * k},
                 band_model="h*(kx**2+ky**2+kz**2) - mu", resolution=[41, 41, 41], k_max=[np.pi] * 3)
        bo = BandStructure(**m)
        bo.discretize_fermi_surface()
        res.close(bo.dkf.sum(), 4 * np.pi * k * k, "sphere area", rtol=0.01)
        bo.dos_epsilon_func()
        # g = m k / (pi^2 hbar^2)
        res.close(bo.dos_epsilon, ref.electron_mass * (k / ref.ANG) / np.pi ** 2 / ref.hbar ** 2, "sphere density of states", rtol=0.01)
    elif s == "ellipsoid":
        kx, ky, kz = 0.5, 0.35, 0.25
        m = dict(a=5.0, b=6.0, c=7.0, energy_scale=h2, band_params={"p": 1 / kx ** 2, "r": 1 / ky ** 2, "s": 1 / kz ** 2, "mu": 1.0},
                 band_model="p*kx**2+r*ky**2+s*kz**2 - mu", resolution=[41, 43, 39], k_max=[np.pi] * 3)
        bo = BandStructure(**m)
        bo.discretize_fermi_surface()
        # volume = 1/3 int k.n dA is exact for the area elements
        g = bo.vf / np.sqrt((bo.vf ** 2).sum(0))
        vol = (bo.kf * g).sum(0) @ bo.dkf / 3
        res.close(vol, 4 / 3 * np.pi * kx * ky * kz, "ellipsoid volume", rtol=0.01)
        bo.dos_epsilon_func()
        # n = 2 V (E)^(3/2)/(2pi)^3 with V at E=1 (units es): g = 3/2 n/E
        n = 2 * (4 / 3 * np.pi * kx * ky * kz) / (2 * np.pi) ** 3 / ref.ANG ** 3
        res.close(bo.dos_epsilon, 1.5 * n / (h2 * ref.MEV), "ellipsoid density of states", rtol=0.01)
    else:
        k = 0.4
        b = 4.0 if s == "cylinder" else 5.3
        m = dict(a=4.0, b=b, c=6.0, energy_scale=h2, band_params={"h": 1.0, "mu": k * k},
                 band_model="h*(kx**2+ky**2) - mu", resolution=[41, 41, 5], k_max=[np.pi] * 3)
        bo = BandStructure(**m)
        bo.discretize_fermi_surface()
        res.close(bo.dkf.sum(), 2 * np.pi * k * 2 * np.pi / 6.0, "cylinder area", rtol=0.01)
        bo.dos_epsilon_func()
        res.close(bo.dos_epsilon, ref.electron_mass / np.pi / ref.hbar ** 2 / (6.0 * ref.ANG), "cylinder density of states", rtol=0.01)
        sq = BandStructure(**m, march_square=True)
        sq.discretize_fermi_surface()
        sq.mass_func()
        res.close(sq.mass, 1.0, "free electron cyclotron mass", rtol=0.01)
        for j in range(5):
            kz = (-1 + j / 2) * np.pi / 6.0
            res.close(sq.dks[np.abs(sq.kf[2] - kz) < 1e-9].sum(), 2 * np.pi * k, "circle", rtol=0.005)
    res.saw(case["shape"], bo.dkf)
