"""C24: drawing a figure shows what was computed and changes nothing."""
import os, re, tempfile, shutil, itertools, logging
from copy import deepcopy
import numpy as np
from scipy.spatial import cKDTree
from ..target import BandStructure, Conductivity, ADMR
from ..models import model
from .. import ref, core, snap, trans, fitlib as fl
import matplotlib
import matplotlib.pyplot as plt
logging.getLogger("matplotlib").setLevel(logging.CRITICAL)

PID = "C24"
LEVEL = "exploration"
RULE = ("every figure and every ordered pair of figures of a band (both discretizations, several models, slices), of a conductivity "
        "(with and without field and temperature, several rate models and surface points), of a sweep (one to three bands, up to six "
        "azimuths, saved or not, shown or not) and of the four fitters.  Before and after each figure everything the objects show is "
        "bit-identical, the next run equals the run of a twin that drew nothing, and the curves, points, colours, table cells, labelled numbers (field, temperature, doping, kz) and files "
        "drawn are those of the results, computed independently where they are computed for the figure only.  Non-trivial = distinct "
        "drawn content.")
ASSUME = ["figures of orbits are drawn at T = 0 in a field, that of the thermal window at T > 0",
          "matplotlib settings and internal scratch values are not results"]

BAND = ["kf", "vf", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "mass", "p", "n", "band_params", "energy_scale", "a", "b", "c", "k_max",
        "resolution", "number_of_bz", "number_of_points_per_kz_list", "band_name", "march_square", "band_model", "res_xy_rough"]
COND = ["Bamp", "Bphi", "Btheta", "B_vector", "T", "N_epsilon", "dfdE_cut_percent", "epsilon_array", "N_time", "time_array", "dtime",
        "dtime_array", "time_max", "gamma_tot_max", "gamma_tot_min", "kft", "vft", "tau_tot", "t_o_tau", "v_product", "sigma", "alpha", "beta",
        "scattering_models", "scattering_params", "gamma_0", "gamma_k", "power", "rtol", "atol", "omegac_tau", "omegac_tau_k"]
SWEEP = ["Btheta_min", "Btheta_max", "Btheta_step", "Btheta_norm", "Btheta_array", "Bphi_array", "rhozz_array", "rzz_array", "total_filling",
         "total_hole_doping", "band_names"]

FIG_BAND = [["figDiscretizeFS2D", {"meshXY": 41}], ["figDiscretizeFS3D", {}], ["figDiscretizeFS3D", {"scale_velocities": 0.5}], ["figMultipleFS2D", {}]]
FIG_COND = [["figScatteringColor", {"mesh_xy": 61}], ["figScatteringColor", {"kz": 0.2, "mesh_xy": 61, "gamma_min": 3.0}],
            ["figScatteringColor", {"mesh_xy": 61, "gamma_max": 80.0}], ["figScatteringPhi", {"mesh_xy": 61}], ["figScatteringPhi", {"mesh_xy": 61, "kz": -0.1}],
            ["figParameters", {"fig_show": False}], ["figParameters", {}]]
FIG_ORBIT = [["figOnekft", {"meshXY": 41}], ["figOnekft", {"meshXY": 41, "index_kf": 3}], ["figOnevft", {}], ["figOnevft", {"index_kf": 2}],
             ["figCumulativevft", {}], ["figCumulativevft", {"index_kf": 1}]]
FIG_T = [["figdfdE", {}]]
FIG_SWEEP = [["figADMR", {"fig_show": s, "fig_save": v, "filename": f}] for s, v, f in
             ((False, False, None), (False, True, "f.pdf"), (False, True, None), (True, True, "g.pdf"))]


def pairs(figs, T):
    out = [[f] for f in figs]
    out += [list(p) for p in itertools.product(figs, repeat=2)] if T else [[figs[i], figs[(i + 1) % len(figs)]] for i in range(len(figs))]
    return out


def cases(tier):
    T = tier == "thorough"
    out = []
    for m in ("cuprate", "tet", "ortho", "af") if T else ("cuprate", "ortho"):
        for msq in (True, False):
            if msq and m == "af":
                continue
            for s in pairs(FIG_BAND, T):
                for e in (0.0, 3.0) if T else (0.0,):
                    out.append({"kind": "band", "model": m, "msq": msq, "seq": s, "eps": e})
    for m in ("cuprate", "tet", "ortho", "af", "mini", "free2d") if T else ("cuprate", "tet", "ortho", "af", "mini"):
        for setting in ("field", "zero", "T") if T or m not in ("af", "mini") else ("zero",):
            figs = FIG_COND + (FIG_ORBIT if setting == "field" else []) + (FIG_T if setting == "T" else [])
            for mods in ("cos", "all") if setting == "field" or setting == "zero" and m == "mini" else ("cos",):
                for s in pairs(figs, T and setting != "T"):
                    if mods == "all" and not T and (len(s) > 1 or "Scattering" not in s[0][0]):
                        continue
                    out.append({"kind": "cond", "model": m, "setting": setting, "mods": mods, "seq": s})
    for m in ("cuprate", "ortho"):
        for f in FIG_COND:
            out.append({"kind": "cond", "model": m, "setting": "edited", "mods": "cos", "seq": [f]})
    for bands in (["tet"], ["cuprate", "tet"], ["tet", "ortho", "cuprate"]) if T else (["tet"], ["cuprate", "tet"]):
        for phis in ([0], [30, 0], [0, 10, 20, 30, 40, 50]) if T else ([30, 0],):
            for s in pairs(FIG_SWEEP, T):
                out.append({"kind": "sweep", "bands": bands, "phis": phis, "seq": s, "T": 0 if len(s) == 1 else 5})
    for f in fl.FITTERS:
        for norm in (True, False):
            for n in (1, 2):
                for save in (False, True):
                    out.append({"kind": "fit", "fitter": f, "norm": norm, "times": n, "save": save, "fix": 2})
            out.append({"kind": "fit", "fitter": f, "norm": norm, "times": 1, "save": False, "fix": 2, "phis": [0, 10, 20, 30, 45, 60, 90]})
            out.append({"kind": "fit", "fitter": f, "norm": norm, "times": 1, "save": False, "fix": 2, "at": 40})
            if f != "parallelT":
                out.append({"kind": "fit", "fitter": f, "norm": norm, "times": 1, "save": True, "fix": 0.23})
    return out


def look(o, names):
    return {n: snap.canon(getattr(o, n)) for n in names if hasattr(o, n)}


def unchanged(res, before, after, what):
    for n in before:
        res.check(before[n] == after.get(n), "figure changes " + n, what)


def lines(ax):
    return [np.array([l.get_xdata(orig=True), l.get_ydata(orig=True)], dtype=object) for l in ax.get_lines()]


def has_line(res, ax, x, y, key, what, rtol=1e-9):
    """Some line of the axes shows these points."""
    x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
    ok = False
    for l in ax.get_lines():
        gx, gy = np.atleast_1d(np.asarray(l.get_xdata(), float)), np.atleast_1d(np.asarray(l.get_ydata(), float))
        if gx.shape == x.shape and snap.same(gx, x, rtol) and snap.same(gy, y, rtol):
            ok = True
    return res.check(ok, key, what)


def newest(before):
    return [plt.figure(n) for n in plt.get_fignums() if n not in before]


def draw(o, fig):
    before = set(plt.get_fignums())
    r = getattr(o, fig[0])(**fig[1])
    new = newest(before)
    if not new and isinstance(r, matplotlib.figure.Figure):
        new = [r]
    return new, r


def texts(fig):
    return [t.get_text() for t in fig.texts]


def labelled(res, fig, w, least=0, **want):
    """Numbers written in a figure: `name = number`, to the digits written."""
    said = {}
    for t in texts(fig):
        name, eq, num = re.sub(r"\\rm|[\s${}\\]", "", t).partition("=")
        m = re.match(r"-?\d+(\.\d*)?(e-?\d+)?", num)
        if m:
            said.setdefault(re.sub(r"\W", "_", name).strip("_"), []).append(m.group())
    for n, v in want.items():
        x = said.get(n)
        if res.check(x is not None and len(x) == 1, "label " + n, lambda: "%s: labels %s" % (w, said)):
            dec = len(x[0].partition(".")[2])
            res.check(abs(float(x[0]) - v) <= 0.5000001 * 10.0 ** -dec + 1e-12, "label " + n, lambda: "%s: %s, it is %r" % (w, x[0], v))
            res.saw(n, x)


def axis_names(res, ax, w, **want):
    """The axes are named after the component they show."""
    for i, n in want.items():
        got = re.sub(r"\\rm|[\s${}\\]", "", getattr(ax, "get_%slabel" % i)())
        res.check(got.startswith(n), "name of an axis", lambda: "%s: %s axis named %r, it shows %s" % (w, i, got, n))


def norm_angle(res, ax, w, at):
    """rho / rho(angle): the angle written."""
    m = re.search(r"\(\s*(-?[\d.]+)\s*\)\s*$", ax.get_ylabel())
    res.check(m and float(m.group(1)) == at, "normalization angle written", lambda: "%s: %r, it is %r" % (w, ax.get_ylabel(), at))


def run_case(case, res):
    d = tempfile.mkdtemp(prefix="c24_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        globals()["_" + case["kind"]](case, res, d)
    finally:
        os.chdir(cwd)
        plt.close("all")
        shutil.rmtree(d)


# ---------------------------------------------------------------------- band
def _band(case, res, d):
    m = model(case["model"], resolution=[9, 9, 5], march_square=case["msq"])
    b = BandStructure(**m)
    b.res_xy_rough = 61
    b.runBandStructure(epsilon=case["eps"])
    if case["msq"]:
        b.mass_func()
    b.dos_epsilon_func()
    twin = deepcopy(b)
    r = ref.Band(**m)
    for f in case["seq"]:
        before = look(b, BAND)
        figs, _ = draw(b, f)
        res.transitions += 1
        unchanged(res, before, look(b, BAND), "%s %s" % (case, f))
        band_content(res, case, b, f, figs[0], r)
        plt.close("all")
    b.runBandStructure(epsilon=1.0)
    twin.runBandStructure(epsilon=1.0)
    unchanged(res, look(twin, BAND), look(b, BAND), "run after %s" % case["seq"])


def band_content(res, case, b, f, fig, r):
    ax = fig.axes[0]
    name = f[0]
    w = "%s of %s" % (f, case["model"])
    x, y, z = b.kf[0] * b.a, b.kf[1] * b.b, b.kf[2] * b.c
    axis_names(res, ax, w, x="k_x", y="k_y", **({"z": "k_z"} if hasattr(ax, "get_zlabel") else {}))
    if name == "figDiscretizeFS2D" and case["msq"]:
        last = np.isclose(b.kf[2], b.kf[2].max())
        has_line(res, ax, x[last], y[last], "points of the slice", w)
        q = [c for c in ax.collections if isinstance(c, matplotlib.quiver.Quiver)]
        res.check(len(q) == 1 and snap.same(q[0].U, b.vf[0][last]) and snap.same(q[0].V, b.vf[1][last]) and snap.same(q[0].X, x[last]) and snap.same(q[0].Y, y[last]), "velocity arrows", w)
        cs = [c for c in ax.collections if hasattr(c, "levels")]
        if res.check(len(cs) == 1, "contour of the slice", w):
            v = np.concatenate([p.vertices for p in cs[0].get_paths()] + [np.empty((0, 2))])
            if len(v):
                covers(res, v, r, b, b.k_max[2] / b.c, f[1]["meshXY"], "contour of the slice is complete", w, b.k_max)
        res.saw(x[last], y[last])
    elif name in ("figDiscretizeFS3D", "figDiscretizeFS2D"):
        s = [c for c in ax.collections if type(c).__name__ == "Path3DCollection"]
        res.check(len(s) == 1 and all(snap.same(np.asarray(g, float), v, 1e-6) for g, v in zip(s[0]._offsets3d, (x, y, z))), "points of the surface", w)
        res.saw(x, y, z)
    else:
        # the three contours lie on the surface, at the labelled kz
        cs = [c for c in ax.collections if hasattr(c, "levels")]
        res.check(len(cs) == 3, "contours of the slices", "%s: %d" % (w, len(cs)))
        for col, kz in zip(cs, (0, b.k_max[2] / 2 / b.c, b.k_max[2] / b.c)):
            v = np.concatenate([p.vertices for p in col.get_paths()] + [np.empty((0, 2))])
            if len(v):
                E = r.energy(v[:, 0] / b.a, v[:, 1] / b.b, np.full(len(v), kz))
                grid = BandGrid(r, b, kz)
                res.check(np.all(np.abs(E) <= grid), "contours of the slices", lambda: "%s: energy up to %g at kz=%g, within one cell %g" % (w, np.abs(E).max(), kz, grid))
                covers(res, v, r, b, kz, b.res_xy_rough, "contours of the slices are complete", w, (4 * b.k_max[0], 4 * b.k_max[1]))
        tot = [t for t in texts(fig) if "p_{" in t and "=" in t]
        p = b.doping_per_kz(res_z=5)[1][2:]
        shown = []
        for t in texts(fig):
            try:
                shown.append(float(t))
            except ValueError:
                pass
        res.check(snap.same(shown, np.round(p, 3), 1e-9), "doping of the slices", "%s: %s, expected %s" % (w, shown, p))
        c2 = deepcopy(b)
        res.check(len(tot) == 1 and abs(float(tot[0].split("=")[1]) - round(float(c2.doping()), 3)) < 1e-9, "total doping", "%s: %s" % (w, tot))
        res.saw(shown, tot)


def BandGrid(r, b, kz):
    """Largest error of linear interpolation within a cell of the figure's
    grid: an eighth of the second differences along both axes."""
    x = np.linspace(-4 * b.k_max[0] / b.a, 4 * b.k_max[0] / b.a, b.res_xy_rough)
    y = np.linspace(-4 * b.k_max[1] / b.b, 4 * b.k_max[1] / b.b, b.res_xy_rough)
    X, Y = np.meshgrid(x, y, indexing="ij")
    E = r.energy(X, Y, np.full(X.shape, kz))
    return (np.abs(np.diff(E, 2, axis=0)).max() + np.abs(np.diff(E, 2, axis=1)).max()) / 4


# -------------------------------------------------------------- conductivity
def make_cond(case):
    field = (0, 0, 0) if case["setting"] in ("zero", "edited") else (45, 20, 50)
    m, b, c, r, s = trans.setup(case["model"], (7, 7, 5), False, mods=case["mods"], field=field, N_time=30, T=5 if case["setting"] == "T" else 0, N_epsilon=3)
    if case["setting"] not in ("zero", "edited"):
        c.omegac_tau_func()
    if case["setting"] == "edited":         # rates set after the run, one by one
        s = dict(s, gamma_0=17.25, gamma_k=3.5)
        c.gamma_0, c.gamma_k = s["gamma_0"], s["gamma_k"]
    return m, c, r, s


def _cond(case, res, d):
    m, c, r, s = make_cond(case)
    twin = deepcopy(c)
    for f in case["seq"]:
        before = [look(c, COND), look(c.bandObject, BAND)]
        figs, ret = draw(c, f)
        res.transitions += 1
        unchanged(res, before[0], look(c, COND), "%s %s" % (case, f))
        unchanged(res, before[1], look(c.bandObject, BAND), "%s %s" % (case, f))
        cond_content(res, case, c, f, figs, ret, r, s)
        plt.close("all")
    for o in (c, twin):
        o.Btheta = 20
        o.runTransport()
    for a in COND:
        res.check(snap.same(look(c, [a]), look(twin, [a])), "figure changes a later " + a, str(case))


def rates(c, r, s, mods, kx, ky, kz):
    """Independent rates at points."""
    k = np.array([kx, ky, np.full(np.shape(kx), kz, float)])
    v = r.velocity(*k)
    dmax = np.max(1 / (ref.hbar * np.sqrt((r.velocity(*np.asarray(c.bandObject.kf)) ** 2).sum(0))))
    return ref.gamma(trans.MODS[mods], s, r, k, v, dmax), v


def coloured(res, case, c, ax, r, s, kz, lo, hi, w, n):
    """The coloured contour: on the surface, with the rates of its points,
    all pieces on the scale of the colour bar."""
    b = c.bandObject
    G, P = [], []
    cols = [x for x in ax.collections if type(x).__name__ == "LineCollection"]
    res.check(len(cols) >= 1, "coloured contours", w)
    for col in cols:
        seg = np.array(col.get_segments())
        pts = np.concatenate([seg[:, 0, :], seg[-1:, 1, :]])
        kx, ky = pts[:, 0] / b.a, pts[:, 1] / b.b
        E = r.energy(kx, ky, np.full(kx.shape, kz))
        v = r.velocity(kx, ky, np.full(kx.shape, kz))
        # interpolated on a grid of 61 or 201 points per axis
        res.check(np.all(np.abs(E) < 0.05 * case_scale(case)), "coloured contour on the surface", lambda: "%s: energies up to %g" % (w, np.abs(E).max()))
        g, _ = rates(c, r, s, case["mods"], kx, ky, kz)
        res.close(np.asarray(col.get_array(), float), g, "coloured rates", w, rtol=1e-6)
        G += list(g)
        P.append(pts)
    covers(res, np.concatenate(P), r, b, kz, n, "coloured contour covers the surface", w)
    lo = min(G) if lo is None else lo
    hi = max(G) if hi is None else hi
    for col in cols:
        res.close(col.get_clim(), (lo, hi), "colour scale", w, rtol=1e-6)
    res.saw(np.sort(G))


def covers(res, pts, r, b, kz, n, key, w, win=(np.pi, np.pi)):
    """Every edge of an n x n grid that the surface crosses has a drawn
    point within one and a half cells."""
    x, y = np.linspace(-win[0], win[0], n), np.linspace(-win[1], win[1], n)
    X, Y = np.meshgrid(x, y, indexing="ij")
    E = r.energy(X / b.a, Y / b.b, np.full(X.shape, kz, float))
    tree = cKDTree(pts / [x[1] - x[0], y[1] - y[0]])
    eps = 1e-6 * np.abs(E).max()
    for ax in (0, 1):
        e0, e1 = (E[:-1], E[1:]) if ax == 0 else (E[:, :-1], E[:, 1:])
        i, j = np.nonzero((e0 * e1 < 0) & (np.minimum(np.abs(e0), np.abs(e1)) > eps))
        if not len(i):
            continue
        d = tree.query(np.array([X[i, j] / (x[1] - x[0]), Y[i, j] / (y[1] - y[0])]).T + np.array([[0.5, 0], [0, 0.5]][ax]))[0]
        if not res.check(d.max() <= 1.5, key, lambda: "%s: nothing drawn within %.3g cells of (%.4g, %.4g)" % (w, d.max(), X[i, j][d.argmax()], Y[i, j][d.argmax()])):
            return


def case_scale(case):
    return model(case["model"])["energy_scale"]


def cond_content(res, case, c, f, figs, ret, r, s):
    name, kw = f
    w = "%s of %s, %s" % (f, case["model"], case["setting"])
    b = c.bandObject
    fig = figs[0]
    ax = fig.axes[0]
    if name in ("figScatteringColor", "figOnekft"):
        axis_names(res, ax, w, x="k_x", y="k_y")
    if "figScattering" in name:
        labelled(res, fig, w, k_z=kw.get("kz", 0) * b.c / np.pi)
    if name == "figScatteringColor":
        coloured(res, case, c, ax, r, s, kw.get("kz", 0), kw.get("gamma_min"), kw.get("gamma_max"), w, kw.get("mesh_xy", 501))
    elif name == "figScatteringPhi":
        g, v = [], []
        n = 0
        for axis, what in ((ax, "rate"), (fig.axes[1], "vz")):
            for l in axis.get_lines():
                n += 1
        res.check(len(ax.get_lines()) == len(fig.axes[1].get_lines()) >= 1, "curves against phi", w)
        # the same contour points as the coloured figure of the same slice
        before = set(plt.get_fignums())
        c2 = deepcopy(c)
        c2.figScatteringColor(kz=kw.get("kz", 0), mesh_xy=kw["mesh_xy"])
        cols = [x for x in newest(before)[0].axes[0].collections if type(x).__name__ == "LineCollection"]
        res.check(len(cols) == len(ax.get_lines()), "curves against phi", "%s: %d, %d contours" % (w, len(ax.get_lines()), len(cols)))
        for col, l1, l2 in zip(cols, ax.get_lines(), fig.axes[1].get_lines()):
            seg = np.array(col.get_segments())
            pts = np.concatenate([seg[:, 0, :], seg[-1:, 1, :]])
            kx, ky = pts[:, 0] / b.a, pts[:, 1] / b.b
            g, v = rates(c, r, s, case["mods"], kx, ky, kw.get("kz", 0))
            phi = np.degrees(np.arctan2(ky, kx))
            res.close(l1.get_xdata(), phi, "angle", w)
            res.close(l1.get_ydata(), g, "rate", w, rtol=1e-6)
            res.close(l2.get_xdata(), phi, "angle of vz", w)
            res.close(l2.get_ydata(), v[2], "vz", w, rtol=1e-6, atol=1e-9 * np.abs(v).max())
            res.saw(phi, g)
    elif name == "figParameters":
        res.check(ret is fig or ret in figs, "figure returned", w)
        tab = [t for a in fig.axes for t in a.tables]
        res.check(len(tab) == 1, "table of parameters", w)
        cells = tab[0].get_celld()
        rows = {cells[i, 0].get_text().get_text(): cells[i, 1].get_text().get_text() for i in range(1, 1 + max(i for i, _ in cells))}
        want = {"band name": b.band_name, "a": b.a, "b": b.b, "c": b.c, "energy scale": b.energy_scale, "# of BZ": b.number_of_bz}
        want.update(b.band_params)
        want.update({k: s.get(k, v) for k, v in c.scattering_params.items()})
        res.check(rows == {k: str(v) for k, v in want.items()}, "table of parameters", lambda: "%s: %s, expected %s" % (w, rows, want))
        sc = [a for a in fig.axes if any(type(x).__name__ == "LineCollection" and x.get_array() is not None for x in a.collections) and a.get_label() != "<colorbar>"]
        res.check(len(sc) == 1, "inset of the rates", w)
        coloured(res, case, c, sc[0], r, s, 0, None, None, w, 51)
    elif name == "figOnekft":
        i = kw.get("index_kf", 0)
        has_line(res, ax, c.kft[0, i] * b.a, c.kft[1, i] * b.b, "orbit", w)
        has_line(res, ax, b.kf[0, i] * b.a, b.kf[1, i] * b.b, "start of the orbit", w)
        has_line(res, ax, c.kft[0, i, -1] * b.a, c.kft[1, i, -1] * b.b, "end of the orbit", w)
        res.saw(c.kft[:, i])
    elif name == "figOnevft":
        has_line(res, ax, c.time_array, c.vft[2, kw.get("index_kf", 0)], "velocity along the orbit", w)
        res.saw(c.vft[2, kw.get("index_kf", 0)])
    elif name == "figCumulativevft":
        i = kw.get("index_kf", -1)
        has_line(res, ax, c.time_array, np.cumsum(c.vft[2, i] * np.exp(-c.t_o_tau[i])), "cumulative velocity", w)
        res.saw(c.t_o_tau[i])
    elif name == "figdfdE":
        kT = 8.617333262e-2 * c.T
        l = [l for l in ax.get_lines() if len(l.get_xdata()) > 10]
        res.check(len(l) == 1, "thermal window", w)
        x = np.asarray(l[0].get_xdata(), float)
        res.close(l[0].get_ydata(), 1 / (4 * kT * np.cosh(x / (2 * kT)) ** 2), "thermal window", w, rtol=1e-6)
        e = c.epsilon_array
        res.check(x.min() <= e[0] and x.max() >= e[-1], "range of the thermal window", w)
        for q in (e[0], e[-1]):
            has_line(res, ax, q, 1 / (4 * kT * np.cosh(q / (2 * kT)) ** 2), "cut of the thermal window", w, 1e-6)
        res.saw(x)


# --------------------------------------------------------------------- sweep
def _sweep(case, res, d):
    conds = [trans.setup(n, (5, 5, 4), True, mods="cos", field=(40, 0, 0), N_time=20, T=case["T"], N_epsilon=3, tight=False, run=False)[2] for n in case["bands"]]
    for i, c in enumerate(conds):
        c.bandObject.band_name = "B%d" % i
        c.bandObject.runBandStructure()
    a = ADMR(conds, Btheta_min=0, Btheta_max=60, Btheta_step=20, Btheta_norm=20, Bphi_array=case["phis"], show_progress=False)
    a.runADMR()
    twin = deepcopy(a)
    files = set()
    for f in case["seq"]:
        before = [look(a, SWEEP)] + [look(c, COND) for c in conds] + [look(c.bandObject, BAND) for c in conds]
        had = set(plt.get_fignums())
        kw = dict(f[1], folder=".")
        a.figADMR(**kw)
        res.transitions += 1
        after = [look(a, SWEEP)] + [look(c, COND) for c in conds] + [look(c.bandObject, BAND) for c in conds]
        for x, y in zip(before, after):
            unchanged(res, x, y, "%s %s" % (case, f))
        fig = newest(had)[0]
        ax = fig.axes[0]
        labels = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
        for i, p in enumerate(case["phis"]):
            has_line(res, ax, a.Btheta_array, a.rzz_array[i], "curve of the sweep", "%s phi=%s" % (case, p))
        res.check([float(t.split("=")[1]) for t in labels] == [float(p) for p in case["phis"]], "legend of the sweep", lambda: str(labels))
        labelled(res, fig, str(case), B=conds[0].Bamp, T=conds[0].T)
        norm_angle(res, ax, str(case), a.Btheta_norm)
        # the right-hand axis reads the first curve in mOhm cm
        right = [x for x in fig.axes if x is not ax]
        k = np.asarray(a.rhozz_array[0]) / np.asarray(a.rzz_array[0]) * 1e5
        res.check(len(right) == 1 and snap.same(np.asarray(right[0].get_ylim()), np.asarray(ax.get_ylim()) * k[0], 1e-9), "scale of the right-hand axis",
                  lambda: "%s: %s for %s, expected a factor %s" % (case, [x.get_ylim() for x in right], ax.get_ylim(), k))
        if kw["fig_save"]:
            files.add(kw["filename"] or "Rzz_" + a.file_name_func() + ".pdf")
        got = set(os.listdir(d))
        res.check(got == files, "files written", lambda: "%s, expected %s" % (got, files))
        for g in got:
            n = pages(g)
            res.check(n == 1 + len(conds), "pages of the file", "%s: %s" % (g, n))
        plt.close("all")
        res.saw(a.rzz_array, sorted(files))
    for o in (a, twin):
        o.Btheta_array = np.array([0., 35.])
        o.runADMR()
    unchanged(res, look(twin, SWEEP), look(a, SWEEP), "run after %s" % case["seq"])


def pages(path):
    with open(path, "rb") as f:
        t = f.read()
    i = t.find(b"/Count ")
    return int(t[i + 7:].split()[0].rstrip(b"/>")) if i >= 0 else -1


# ----------------------------------------------------------------------- fit
def _fit(case, res, d):
    f, norm = case["fitter"], case["norm"]
    phis = case.get("phis", [0, 45])
    multi = f in ("seriesT", "parallelT")
    Ts = [25, 6] if multi else [25]
    sp = {"gamma_0": 10.0, "gamma_k": 25.0, "power": 4.0}
    kw = dict(N_epsilon=3, N_time=20, fixdoping=case["fix"], Bphi_array=phis, Btheta_norm=case.get("at", 0))
    if f == "parallelT":
        dd, raw = fl.data_multi(d, Ts, phis, norm=case.get("at", 0))
        P = {T: {"A": fl.member(**kw), "B": fl.member(band_params={"mu": -0.6}, **kw)} for T in Ts}
        o = fl.parallelT(P, {"all": {"A": {"tz": [.1, .2]}}, 25: {}, 6: {}}, dd, norm)
    else:
        dd, raw = fl.data(d, Ts, phis)
        m = fl.member(**kw)
        if f == "seriesT":
            m["data_T"] = list(Ts)
            m["scattering_params"] = {T: dict(m["scattering_params"]) for T in Ts}
        o = getattr(fl, f)(m, {"tz": [.1, .2], "gamma_0": {T: [5, 20] for T in Ts} if f == "seriesT" else [5, 20]}, dd, norm, folder=d)
    point(o, f, Ts, 0.15)
    if f == "parallelT":
        o.compute_fitness()
    twin = deepcopy(o)
    show = (lambda: [o.params_dict, o.rzz_data_dict, o.rhozz_data_dict, o.rzz_sim_dict, o.rhozz_sim_dict, o.bounds]) if f == "parallelT" else \
           (lambda: [o.init_member, getattr(o, "bounds_dict", None), getattr(o, "ranges_dict", None), o.data_dict]
            + ([o.member] if not multi else [o.member_dict]) if case["fix"] == 2 else [o.init_member, o.data_dict])
    for n in range(case["times"]):
        before = snap.canon(show())
        had = set(plt.get_fignums())
        if f == "parallelT":
            o.fig_compare(fig_show=True, fig_save=case["save"], folder=d, figname="f%d" % n)
        else:
            o.fig_compare(fig_show=True, fig_save=case["save"], figname="f%d" % n)
        res.transitions += 1
        res.check(snap.canon(show()) == before, "figure changes the fit", str(case))
        figs = [g for g in newest(had) if g.axes and g.axes[0].get_legend() is not None]
        res.check(len(figs) == len(Ts), "figures", "%s: %d" % (case, len(figs)))
        for g, T in zip(figs, Ts):
            fit_content(res, case, o, g, T, raw, d)
        plt.close("all")
        want = {"f%d.pdf" % i for i in range(n + 1)} if case["save"] else set()
        got = {x for x in os.listdir(d) if not x.endswith(".dat")}
        res.check(got == want, "files written", "%s, expected %s" % (got, want))
        nb = 2 if f == "parallelT" else 1
        for g in got:
            res.check(pages(g) == len(Ts) * (1 + nb), "pages of the file", "%s: %s" % (g, pages(g)))
    a, b = point(o, f, Ts, 0.12), point(twin, f, Ts, 0.12)
    res.check(snap.same(a, b), "figure changes a later evaluation", str(case))


def point(o, f, Ts, tz):
    if f == "parallel1":
        return o.compute_diff2(np.array([11.0, tz]), verbose=False)
    if f == "parallelT":
        return o.compute_fitness([tz])
    if f == "series1":
        o.load_and_interp_data()
        return o.compute_diff(fl.pars(o, {"tz": tz, "gamma_0": 11.0}))
    return o.compute_diff(fl.pars(o, dict({"gamma_0_%s" % T: 11.0 for T in Ts}, tz=tz)))


def fit_content(res, case, o, fig, T, raw, d):
    f, norm = case["fitter"], case["norm"]
    ax = fig.axes[0]
    ths = fl.grid(0, 80, 40)
    phis = case.get("phis", [0, 45])
    w = "%s T=%s" % (case, T)
    # the other fits compare with the data at theta = 0
    at = case.get("at", 0) if f == "parallelT" else 0
    if norm:
        norm_angle(res, ax, w, at)
    if f == "parallelT":
        ms = [fl.member(N_epsilon=3, N_time=20, fixdoping=2, band_params=dict({"mu": mu}, **({"tz": 0.15} if mu == -0.7 else {}))) for mu in (-0.7, -0.6)]
        dx = {p: ths for p in phis}
        dy = {p: fl.interp(ths, *raw[T, p][:2]) for p in phis}
        dy = {p: y / y[list(ths).index(at)] if norm else y * 1e5 for p, y in dy.items()}
    else:
        ms = [fl.member(N_epsilon=3, N_time=20, fixdoping=case["fix"], band_params={"tz": 0.15}, scattering_params={"gamma_0": 11.0})]
        dx, dy = {}, {}
        for p in phis:
            th, rh, cut, r0 = raw[T, p]
            # the raw curve up to the last angle of the fit (series fits of
            # several temperatures: up to the cut of the curve)
            k = th <= (cut if f == "seriesT" else ths[-1])
            dx[p] = th[k]
            y = rh[k] / fl.interp(0.0, th, rh)
            dy[p] = y if norm else y * r0 * 1e5
    unit = 1e5      # the axis is in mOhm cm
    rho, z = fl.simulate(ms, phis, ths, norm=at)
    for i, p in enumerate(phis):
        has_line(res, ax, dx[p], dy[p], "curve of the data", "%s phi=%s" % (w, p), 1e-9)
        has_line(res, ax, ths, z[i] if norm else rho[i] * unit, "curve of the simulation", "%s phi=%s" % (w, p), 1e-6)
    if f == "parallelT":
        labelled(res, fig, w, T=T)
    else:
        b = fl.rough(BandStructure(**deepcopy(ms[0])))
        if case["fix"] != 2:
            b.set_mu_to_doping(case["fix"])
        b.runBandStructure()
        labelled(res, fig, w, B=ms[0]["Bamp"], T_data=T, T_sim=ms[0]["T"], p_data=ms[0]["data_p"], p_sim=b.p)
    labels = [t.get_text() for t in ax.get_legend().get_texts()]
    res.check([float(t.split("=")[1]) for t in labels] == [float(p) for p in phis], "legend", lambda: str(labels))
    res.saw(dy, rho, norm)
