"""C02: the discretized Fermi surface is sound and complete."""
import numpy as np
from copy import deepcopy
from scipy.spatial import cKDTree
from scipy.ndimage import maximum_filter, minimum_filter
from ..target import BandStructure
from ..models import M, NAMES, model
from .. import ref, core

PID = "C02"
LEVEL = "exploration"
RULE = ("every band model x every grid of the list (even and odd resolutions per axis) x energy levels {0,+,-} x "
        "{first surface, surface after a parameter edit, second energy on the same object}, for the cube algorithm; every "
        "model x grid x level for the slice algorithm (tetragonal models with fourfold symmetry, and every orthorhombic "
        "one).  Each grid edge that straddles the level is enumerated.  Oracle: reference grid and contours.  Non-trivial "
        "= distinct set of surface points.")
ASSUME = ["a == b lattices with march_square have fourfold symmetric, even dispersions and k_max[0] == k_max[1] (the "
          "algorithm is documented for them)",
          "the surface is resolved to the linear interpolation of the grid (single precision)"]

GRIDS_Q = [[9, 9, 5], [8, 9, 6], [5, 7, 3], [13, 11, 7]]
GRIDS_T = GRIDS_Q + [[15, 15, 9], [10, 12, 14], [21, 7, 5], [3, 3, 3], [7, 21, 9], [11, 11, 21]]
LEVELS = [0.0, 0.05, -0.08, 0.3]      # in units of the energy scale
SQ_TETRA = ["cuprate", "electron", "tet", "free2d", "af", "linear"]
SQ_ORTHO = ["ortho", "q1d", "ell", "lowsym"]


def level_of(m, lev):
    if m["energy_scale"] > 1000:
        return lev * 200.0
    return lev * m["energy_scale"]


def cases(tier):
    out = []
    T = tier == "thorough"
    grids = GRIDS_T if tier == "thorough" else GRIDS_Q
    for lev in LEVELS:
        for g in grids:
            for n in NAMES:
                out.append({"alg": "cube", "model": n, "res": g, "lev": lev})
    for g in [[81, 5, 5], [5, 71, 7], [7, 5, 101], [41, 41, 31]] + ([[201, 7, 5], [61, 61, 61]] if tier == "thorough" else []):
        for n in NAMES:
            out.append({"alg": "cube", "model": n, "res": g, "lev": 0.0})
    for lev in (LEVELS if tier == "thorough" else LEVELS[:2]):
        for g in [[5, 5, 3], [20, 12, 5]] + ([[9, 9, 4], [31, 31, 7], [3, 3, 3]] if tier == "thorough" else []):
            for n in SQ_TETRA + SQ_ORTHO:
                out.append({"alg": "square", "model": n, "res": g, "lev": lev})
    # lattice constants that are nearly equal, very small and very large
    for lat in ([3.75, 3.753, 13.2], [4.2, 4.2 * (1 + 2e-6), 5.0], [0.35, 0.9, 0.6], [61.0, 18.0, 240.0]):
        for n in NAMES if lat[0] > 3 else ["ortho", "lowsym", "q1d", "tet", "electron"]:
            out.append({"alg": "cube", "model": n, "res": [9, 7, 5], "lev": 0.0, "lat": lat})
        for n in ["ortho", "q1d"] + (SQ_ORTHO if T else []):
            for g in ([20, 12, 5], [5, 5, 3]):
                out.append({"alg": "square", "model": n, "res": g, "lev": 0.0, "lat": lat})
    for es in (1e-3, 2.5e6, -70.0):
        for n in ["tet", "lowsym", "ortho"]:
            out.append({"alg": "cube", "model": n, "res": [9, 7, 5], "lev": 0.0, "es": es})
            if n != "lowsym":
                out.append({"alg": "square", "model": n, "res": [12, 9, 3], "lev": 0.0, "es": es})
    for lat in ([4.0, 4.0, 6.0], [4.0, 4.7, 6.0], [5.5, 3.1, 9.0]):
        for rough in (501, 101, 301) if tier == "thorough" else (501, 101):
            for shape in ("ellipse", "corner"):
                out.append({"alg": "tiny", "lat": lat, "rough": rough, "shape": shape})
    for n in NAMES:
        for alg in ("cube", "square"):
            out.append({"alg": "none", "which": alg, "model": n})
    return out


def common(res, bo, m, key):
    kf, vf = np.asarray(bo.kf), np.asarray(bo.vf)
    n = kf.shape[-1]
    res.check(kf.shape == (3, n) and n > 0, key + " kf shape", str(kf.shape))
    res.check(np.asarray(bo.dkf).shape == (n,), key + " weight shape", str(np.asarray(bo.dkf).shape))
    res.check(np.asarray(bo.dos_k).shape == (n,), key + " dos shape", "")
    res.check(np.all(np.asarray(bo.dkf) > -1e-300) and np.all(np.isfinite(bo.dkf)), key + " weight sign", "")
    v = ref.Band(**m).velocity(*kf)
    res.close(vf, v, key + " vf", "Fermi velocity at the point", rtol=1e-8)
    sp = np.sqrt((v ** 2).sum(0))
    ok = sp > 1e-6 * sp.max()
    res.close(np.asarray(bo.dos_k)[ok], 1 / (ref.hbar * sp[ok]), key + " dos_k", "1/(hbar |v|)", rtol=1e-6)
    lim = np.array([m["k_max"][0] / m["a"], m["k_max"][1] / m["b"], m["k_max"][2] / m["c"]])[:, None]
    res.check(np.all(np.abs(kf) <= lim * (1 + 1e-5)), key + " window",
              lambda: "point outside the window: %s" % np.max(np.abs(kf) / lim, axis=1))
    res.saw(kf)


def judge_cube(res, bo, m, eps, key):
    common(res, bo, m, key)
    r = ref.Band(**m)
    g = ref.odd(m["resolution"])
    res.check(list(bo.resolution) == g, key + " resolution", "%s %s" % (bo.resolution, g))
    e, K, ax = r.grid(g)
    e = e - eps
    sc = np.max(np.abs(e))
    h = np.array([x[1] - x[0] for x in ax])
    kf = np.asarray(bo.kf).T / h
    tree = cKDTree(kf)
    want = []
    for axis in range(3):
        lo = [slice(None)] * 3
        hi = [slice(None)] * 3
        lo[axis] = slice(0, -1)
        hi[axis] = slice(1, None)
        lo, hi = tuple(lo), tuple(hi)
        e1, e2 = e[lo], e[hi]
        m_ = ((e1 > 0) != (e2 > 0)) & (np.minimum(np.abs(e1), np.abs(e2)) > 1e-4 * sc)
        t = e1[m_] / (e1[m_] - e2[m_])
        p = np.stack([k[lo][m_] for k in K], -1)
        p[:, axis] += t * h[axis]
        want.append(p / h)
    want = np.concatenate(want)
    d, _ = tree.query(want)
    res.check(np.all(d < 2e-3), key + " complete",
              lambda: "%d of %d crossed grid edges have no surface point (worst %.3g cells)" % ((d >= 2e-3).sum(), len(d), d.max()))
    res.note_max("worst distance of an expected point (cells)", d.max())
    # soundness: a point is on the linear interpolation of a crossed edge, or
    # inside a cell whose corners straddle the level
    d2, _ = cKDTree(want).query(kf) if len(want) else (np.full(len(kf), 9.0), None)
    odd = d2 >= 2e-3
    if odd.any():
        org = np.array([x[0] for x in ax]) / h
        idx = np.minimum(np.maximum(np.floor(kf[odd] - org + 1e-4).astype(int), 0), np.array(e.shape) - 2)
        bad = 0
        for i, j, k in idx:
            # the point may sit on the face shared with a neighbour
            c = e[max(i - 1, 0):i + 3, max(j - 1, 0):j + 3, max(k - 1, 0):k + 3]
            bad += not (c.min() <= 1e-4 * sc and c.max() >= -1e-4 * sc)
        res.check(bad == 0, key + " sound", "%d surface points in cells the level does not cross" % bad)
        near = np.min(np.abs(e)) <= 1e-4 * sc
        res.check(near or odd.mean() < 0.15, key + " sound", "%d of %d points are on no crossed edge" % (odd.sum(), len(odd)))
    # sound without reference to the algorithm: the level is reached within
    # the nodes around the point
    ev = r.energy(*np.asarray(bo.kf)) - eps
    idx = np.rint(kf - np.array([x[0] for x in ax]) / h).astype(int)
    idx = tuple(np.clip(idx, 0, np.array(e.shape) - 1).T)
    rng = (maximum_filter(e, 3, mode="nearest") - minimum_filter(e, 3, mode="nearest"))[idx]
    res.check(np.all(np.abs(ev) <= rng + 1e-4 * sc), key + " energy", "a point is further than one cell from the level")


def judge_square(res, bo, m, eps, key):
    common(res, bo, m, key)
    r = ref.Band(**m)
    nz = ref.odd(m["resolution"])[2]
    kz = np.linspace(-m["k_max"][2] / m["c"], m["k_max"][2] / m["c"], nz)
    kf = np.asarray(bo.kf)
    pts = list(bo.number_of_points_per_kz_list)
    res.check(len(pts) == nz, key + " slices", "%d slices, expected %d" % (len(pts), nz))
    res.check(sum(pts) == kf.shape[1], key + " slice counts", "%s do not add up to %d" % (pts, kf.shape[1]))
    res.check(np.asarray(bo.dks).shape == np.asarray(bo.dkf).shape == np.asarray(bo.dkz).shape, key + " shapes", "")
    # reference contours
    N = 241
    kx = np.linspace(-m["k_max"][0] / m["a"], m["k_max"][0] / m["a"], N)
    ky = np.linspace(-m["k_max"][1] / m["b"], m["k_max"][1] / m["b"], N)
    X, Y = np.meshgrid(kx, ky, indexing="ij")
    ev = r.energy(*kf) - eps
    i = 0
    step = np.pi / ref.odd(m["resolution"])[0] / m["a"]
    for j in range(min(nz, len(pts))):
        sl = slice(i, i + pts[j])
        i += pts[j]
        E = r.energy(X, Y, kz[j]) - eps
        sc = np.max(np.abs(E))
        p = kf[:, sl]
        if pts[j]:
            res.close(p[2], np.full(pts[j], kz[j]), key + " slice kz", "kz of slice %d" % j, rtol=1e-12, atol=1e-12)
            res.check(np.max(np.abs(ev[sl])) < 2e-4 * sc, key + " energy",
                      lambda: "slice %d: |E - level| = %.3g of %.3g" % (j, np.max(np.abs(ev[sl])), sc))
            res.note_max("worst |E-level|/bandwidth of a slice point", np.max(np.abs(ev[sl])) / sc)
        seg = ref.slice_segments(E, kx, ky)
        if len(seg):
            mid = seg.mean(1)
            if not pts[j]:
                res.fail(key + " complete", "slice %d has no point although the level crosses it" % j)
                continue
            d, _ = cKDTree(p[:2].T).query(mid)
            res.check(d.max() < 1.4 * step, key + " complete",
                      lambda: "slice %d: a piece of surface is %.2f steps from any point" % (j, d.max() / step))
            res.note_max("worst distance of a piece of contour (steps)", d.max() / step)
        elif pts[j]:
            # a pocket smaller than the reference grid
            res.check(np.max(np.abs(ev[sl])) < 2e-4 * sc, key + " energy", "points on a slice without surface")


def run_case(case, res):
    if case["alg"] == "tiny":
        tiny(case, res)
        return
    m = model(case["model"])
    if case["alg"] == "none":
        no_surface(case, res, m)
        return
    m["resolution"] = list(case["res"])
    if "lat" in case:
        m["a"], m["b"], m["c"] = case["lat"]
    if "es" in case:
        m["energy_scale"] = case["es"]
    eps = level_of(m, case["lev"])
    sq = case["alg"] == "square"
    judge = judge_square if sq else judge_cube
    bo = BandStructure(**m, march_square=sq)
    r = ref.Band(**m)

    def crosses(mm, ee, margin=0.0):
        e = ref.Band(**mm).grid(ref.odd(mm["resolution"]))[0] - ee
        return e.min() < -margin and e.max() > margin

    if not crosses(m, eps):
        return
    bo.discretize_fermi_surface(epsilon=eps)
    judge(res, bo, m, eps, "first")
    # same object: other level, other parameters, and back through the full run
    if crosses(m, -eps / 2) and not sq:
        bo.discretize_fermi_surface(-eps / 2)
        judge(res, bo, m, -eps / 2, "second level")
    m2 = deepcopy(m)
    m2["band_params"]["mu"] *= 0.9
    m2["energy_scale"] *= 0.75
    bo["mu"] = m2["band_params"]["mu"]
    bo.energy_scale = m2["energy_scale"]
    if crosses(m2, eps):
        bo.runBandStructure(epsilon=eps)
        judge(res, bo, m2, eps, "after edit")
    # same lattice constants and window through the keyword defaults
    if not sq and case["lev"] == 0.0:
        m3 = deepcopy(m)
        m3["k_max"] = [0.8 * m["k_max"][0], 0.9 * m["k_max"][1], 0.75 * m["k_max"][2]]
        if crosses(m3, 0.0):
            b3 = BandStructure(**m3)
            b3.runBandStructure()
            judge(res, b3, m3, 0.0, "reduced window")


def tiny(case, res):
    """Pockets of a few mesh cells are surface as well: closed ellipses around
    the centre of the zone, and quarter ellipses around its corners, of every
    size down to two cells."""
    a, b, c = case["lat"]
    fourfold = a == b
    hx, hy = 1.0, (1.0 if fourfold else 0.7)
    corner = case["shape"] == "corner"
    kx0, ky0 = np.pi / a, np.pi / b
    hxy = "hx*(kx**2) + hy*(ky**2)"
    if corner:
        hxy = "hx*4/a**2*cos(a*kx/2)**2 + hy*4/b**2*cos(b*ky/2)**2"
    cell = max(kx0, ky0) / (case["rough"] - 1)
    for ncell in (2, 3, 4, 6, 9, 14, 30):
        R = ncell * cell * 1.07
        for res_xy in (5, 21, 61):
            m = dict(a=a, b=b, c=c, energy_scale=500.0, band_params={"hx": hx, "hy": hy, "mu": R ** 2, "w": 0.3 * R ** 2},
                     band_model=hxy + " - w*cos(c*kz) - mu", resolution=[res_xy, res_xy, 3], k_max=[np.pi] * 3)
            bo = BandStructure(**m, march_square=True)
            bo.res_xy_rough = case["rough"]
            bo.discretize_fermi_surface()
            pts = list(bo.number_of_points_per_kz_list)
            key = "tiny " + case["shape"]
            if not res.check(len(pts) == 3 and min(pts) > 0, key, lambda: "pocket of %d cells: %s points per slice" % (ncell, pts)):
                continue
            kf = np.asarray(bo.kf)
            i = 0
            for j, f in enumerate((0.7, 1.3, 0.7)):
                p = kf[:, i:i + pts[j]]
                dks = np.asarray(bo.dks)[i:i + pts[j]]
                i += pts[j]
                if not corner:
                    x, y = p[0] * np.sqrt(hx), p[1] * np.sqrt(hy)
                else:
                    x, y = 2 / a * np.cos(a * p[0] / 2) * np.sqrt(hx) * np.sign(p[0]), 2 / b * np.cos(b * p[1] / 2) * np.sqrt(hy) * np.sign(p[1])
                rad = np.hypot(x, y) / (R * np.sqrt(f))
                # chords of the coarse path lie inside the mesh contour by the
                # curvature of one cell
                res.check(np.all(np.abs(rad - 1) < 0.15 / (ncell * np.sqrt(0.7)) ** 2 + 0.02), key + " radius",
                          lambda: "pocket of %d cells: radius off by %.3g" % (ncell, np.abs(rad - 1).max()))
                ang = np.sort(np.arctan2(y, x))
                gap = np.max(np.diff(np.append(ang, ang[0] + 2 * np.pi)))
                res.check(gap < np.radians(140), key + " angles", lambda: "pocket of %d cells: gap of %.0f degrees" % (ncell, np.degrees(gap)))
                res.check(pts[j] % 4 == 0 if (fourfold or corner) else pts[j] >= 3, key + " count", str(pts))
            res.saw(kf)


def no_surface(case, res, m):
    """A level outside the band is reported, not answered with a surface."""
    sq = case["which"] == "square"
    m["resolution"] = [7, 7, 3]
    bo = BandStructure(**m, march_square=sq)
    e = ref.Band(**m).grid([31, 31, 11])[0]
    for eps in (e.max() + 0.5 * m["energy_scale"], e.min() - 0.5 * m["energy_scale"]):
        try:
            bo.discretize_fermi_surface(epsilon=float(eps))
            got = None if bo.kf is None else np.asarray(bo.kf).shape
            res.fail("no surface", "level outside the band gave a surface of shape %s" % (got,))
        except (ValueError, RuntimeError, IndexError) as ex:
            res.evals += 1
            res.saw(case["model"], case["which"], type(ex).__name__, eps > 0)
