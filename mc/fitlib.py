"""Synthetic measurements and the four fitters, driven through one interface."""
import os, json
from copy import deepcopy
import numpy as np
from .target import BandStructure, Conductivity, ADMR
import cuprates_transport.fitting_admr_parallel_oneT as p1
import cuprates_transport.fitting_admr_series_oneT as s1
import cuprates_transport.fitting_admr_series_multi_T as sm
import cuprates_transport.fitting_admr_parallel_multiT as pm

FITTERS = ["parallel1", "series1", "seriesT", "parallelT"]


def truth(theta, phi, T, k=0):
    """A smooth positive made-up rho_zz(theta)."""
    t = np.deg2rad(theta)
    return 1.7 + 0.01 * T + 0.3 * np.cos(2 * t + 0.01 * phi) + 0.15 * np.sin(3 * t) * np.cos(np.deg2rad(phi)) + 0.05 * k + 0.1 * t


def thetas(lo=-12.0, hi=118.0, n=53):
    """Irregular, distinct angles."""
    i = np.arange(n)
    return np.round(lo + (hi - lo) * (i + 0.3 * np.sin(1.7 * i) * (i > 0) * (i < n - 1)) / (n - 1), 6)


def ripple(n):
    """Every row counts: nothing for the usual number of rows, an irregular
    ripple for others."""
    i = np.arange(n)
    return 0.0 if n == 53 else 0.2 * ((i * i + 3 * i) % 7 - 3) / 7


def write(path, theta, rho, cols=(0, 1), order="up", comments=True):
    """A data file whose columns cols = (angle, resistivity); the others hold
    numbers that would be noticed."""
    n = max(cols) + 1
    tab = np.empty((len(theta), n))
    for j in range(n):
        tab[:, j] = 1000.0 + 17 * j + np.arange(len(theta))
    tab[:, cols[0]] = theta
    tab[:, cols[1]] = rho
    if order == "down":
        tab = tab[::-1]
    elif order == "mixed":
        tab = tab[np.argsort((np.arange(len(theta)) * 29) % len(theta), kind="stable")]
    with open(path, "w") as f:
        if comments:
            f.write("# theta rho, made up\n")
        for i, row in enumerate(tab):
            if comments and i == 3:
                f.write("# a comment in between\n")
            f.write("\t".join("%.12g" % x for x in row) + "\n")
    return path


def interp(x, xs, ys):
    """Piecewise linear, constant outside; plain loops."""
    o = np.argsort(xs)
    xs, ys = np.asarray(xs, float)[o], np.asarray(ys, float)[o]
    out = []
    for v in np.atleast_1d(x):
        if v <= xs[0]:
            out.append(ys[0])
        elif v >= xs[-1]:
            out.append(ys[-1])
        else:
            i = int(np.searchsorted(xs, v, side="right")) - 1
            out.append(ys[i] + (ys[i + 1] - ys[i]) * (v - xs[i]) / (xs[i + 1] - xs[i]))
    return np.array(out) if np.ndim(x) else out[0]


def data(folder, Ts=(25,), phis=(0, 45), cols=(0, 1), order="up", cuts=None, dict_order=None, noise=0, rows=53):
    """Files and the data_dict of the one-temperature / series fitters."""
    d, raw = {}, {}
    keys = [(T, p) for T in Ts for p in phis]
    if dict_order == "reversed":
        keys = keys[::-1]
    for i, (T, p) in enumerate(keys):
        th = thetas(n=rows)
        rh = truth(th, p, T, noise) + ripple(rows)
        f = write(os.path.join(folder, "d_%g_%g.dat" % (T, p)), th, rh, cols, order)
        cut = (cuts or {}).get((T, p), 90)
        raw[T, p] = (th, rh, cut, 6.5e-5 + 1e-6 * i)
        d[T, p] = [f, cols[0], cols[1], cut, raw[T, p][3]]
    return d, raw


def data_multi(folder, Ts=(25,), phis=(0, 45), cols=(0, 1), order="up", grid=None, norm=0, rnorm=1.0, dict_order=None, noise=0, rows=53):
    d, raw = {}, {}
    keys = [(T, p) for T in Ts for p in phis]
    if dict_order == "reversed":
        keys = keys[::-1]
    for i, (T, p) in enumerate(keys):
        th = thetas(n=rows)
        rh = 4e-5 * (truth(th, p, T, noise) + ripple(rows))
        f = write(os.path.join(folder, "m_%g_%g.dat" % (T, p)), th, rh, cols, order)
        lo, hi, st = (grid or {}).get((T, p), (0, 80, 40))
        raw[T, p] = (th, rh, (lo, hi, st), norm, rnorm)
        d[T, p] = [f, cols[0], cols[1], lo, hi, st, norm, rnorm]
    return d, raw


MEMBER = {"band_name": "B", "a": 3.75, "b": 3.75, "c": 9.0, "energy_scale": 160.0,
          "band_model": "-2*t*(cos(a*kx)+cos(b*ky)) - 2*tz*cos(c*kz) - mu",
          "band_params": {"t": 1.0, "tz": 0.11, "mu": -0.7}, "k_max": [np.pi] * 3, "number_of_bz": 1,
          "resolution": [7, 7, 4], "N_time": 25, "T": 0, "Bamp": 45, "fixdoping": 2,
          "Btheta_min": 0, "Btheta_max": 80, "Btheta_step": 40, "Btheta_norm": 0, "Bphi_array": [0, 45],
          "scattering_models": ["isotropic", "cos2phi"], "scattering_params": {"gamma_0": 12.6, "gamma_k": 30.0, "power": 4.0},
          "data_T": 25, "data_p": 0.24, "rtol": 1e-8, "atol": 1e-8}


def member(**kw):
    m = deepcopy(MEMBER)
    for k, v in kw.items():
        if isinstance(v, dict) and isinstance(m.get(k), dict):
            m[k].update(v)
        else:
            m[k] = v
    return m


def put(m, name, value):
    """Where a named parameter of a member lives."""
    if name in m:
        m[name] = value
    elif name in m["band_params"]:
        m["band_params"][name] = value
    elif name in m["scattering_params"]:
        m["scattering_params"][name] = value
    else:
        raise KeyError(name)


ROUGH = 61


def rough(bo):
    bo.res_xy_rough = ROUGH
    return bo


def simulate(members, phis, ths, norm=0, msq=True):
    """A simulation assembled from new objects: (rhozz, rzz)."""
    conds = []
    for m in members:
        m = deepcopy(m)
        bo = BandStructure(**m)
        rough(bo)
        bo.march_square = msq
        if -1 <= m.get("fixdoping", 2) <= 1:
            bo.set_mu_to_doping(m["fixdoping"])
        bo.runBandStructure(printDoping=False)
        conds.append(Conductivity(bo, **m))
    out = np.empty((len(phis), len(ths)))
    for i, p in enumerate(phis):
        for j, t in enumerate(ths):
            s = 0
            for c in conds:
                c.Bphi, c.Btheta = p, t
                c.runTransport()
                s = s + np.array(c.sigma)
            out[i, j] = np.linalg.inv(s)[2, 2]
    z = np.array([r / interp(norm, ths, r) for r in out])
    return out, z


def grid(lo, hi, st, cut=None):
    """Documented grid: equal steps from lo, up to the first at or beyond hi;
    of these the ones not beyond the cut."""
    n = int(np.ceil(round((hi - lo) / st, 6))) + 1
    g = lo + st * np.arange(n)
    return g if cut is None else g[g <= cut + 1e-9]


# ------------------------------------------------------------- the fitters
def fast(o):
    for b in bands_of(o):
        b.res_xy_rough = ROUGH
    return o


def bands_of(o):
    if hasattr(o, "sim_obj_dict"):
        return [c.bandObject for s in o.sim_obj_dict.values() for c in s.admrObject.condObject_list]
    return [o.bandObject]


def parallel1(mem, free, data, normalized=True, folder=".", **kw):
    return fast(p1.FittingADMRParallel(mem, {k: list(v) for k, v in free.items()}, data, normalized_data=normalized, folder=folder, **kw))


def series1(mem, free, data, normalized=True, folder="", **kw):
    return fast(s1.FittingADMR(mem, {k: list(v) for k, v in free.items()}, data, normalized_data=normalized, folder=folder, **kw))


def seriesT(mem, free, data, normalized=True, folder="", **kw):
    return fast(sm.FittingADMR(mem, free, data, normalized_data=normalized, folder=folder, **kw))


def parallelT(params, bounds, data, normalized=True):
    return fast(pm.Fitness(data, params, bounds, normalized))


def pars(o, values):
    """lmfit parameters with the given values (dict)."""
    p = deepcopy(o.pars)
    for k, v in values.items():
        p[k].set(value=v)
    return p
