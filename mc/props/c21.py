"""C21: every free parameter of a fit reaches the simulation it is compared with."""
import tempfile, shutil, itertools
from copy import deepcopy
import numpy as np
from .. import core, fitlib as fl

PID = "C21"
LEVEL = "exploration"
RULE = ("for each of the four fitters: every single free parameter and every pair (thorough: every triple) out of band parameters, "
        "scattering parameters, lattice, energy scale, field and temperature, with the doping free or held, normalized or absolute "
        "data, declared in either order, one or two temperatures and bands, shared or per temperature.  The residual (or its squared "
        "sum) at given values equals that of a simulation assembled from new objects holding these values; bounds pair with names; "
        "the caller's dictionaries stay as they were.  Non-trivial = distinct residual.")
ASSUME = ["a free chemical potential with the doping held is replaced by the one of that doping"]

VAL = {"t": 1.1, "tz": 0.17, "mu": -0.55, "gamma_0": 9.3, "gamma_k": 44.0, "power": 2.0, "a": 3.6, "b": 4.1, "c": 8.2, "energy_scale": 131.0, "Bamp": 33.0, "T": 8.0}
NAMES = list(VAL)
# many digits, tiny, negative, large
VAL2 = {"t": 0.987654321, "tz": 0.00123456789, "mu": -0.123456789, "gamma_0": 123.456789, "gamma_k": 0.0001234567891, "power": 13.0, "a": 3.7123456,
        "b": 3.7501, "c": 23.456789, "energy_scale": 1234.56789, "Bamp": -12.3456789, "T": 0.0456}


def cases(tier):
    T = tier == "thorough"
    sets = [[n] for n in NAMES] + [list(p) for p in itertools.combinations(NAMES, 2)]
    if T:
        sets += [list(p) for p in itertools.combinations(NAMES, 3)]
    out = []
    for f in ("parallel1", "series1", "seriesT"):
        for s in sets:
            for fix in ([2, 0.21, -0.12] if len(s) == 1 else [2]):
                for norm in ([True, False] if len(s) == 1 or T else [True]):
                    if f == "seriesT" and "T" in s and False:
                        continue
                    out.append({"fitter": f, "free": s, "fix": fix, "norm": norm})
            if len(s) == 2 and not T:
                out.append({"fitter": f, "free": s[::-1], "fix": 2, "norm": False})
            elif len(s) >= 2:
                out.append({"fitter": f, "free": s[::-1], "fix": 0.21, "norm": False})
    for f in ("seriesT",):
        for s in sets[:len(NAMES)]:
            out.append({"fitter": f, "free": s, "fix": 2, "norm": True, "per_T": True})
    ls = [["all", "A", n] for n in NAMES] + [[T_, b, n] for T_ in (6, 25) for b in ("A", "B") for n in ("tz", "gamma_0", "T", "c")]
    for l in ls:
        for norm in (True, False):
            out.append({"fitter": "parallelT", "free": [l], "norm": norm})
    for n in NAMES:
        for f in ("parallel1", "series1", "seriesT"):
            out.append({"fitter": f, "free": [n], "fix": 2, "norm": True, "values": 2})
        out.append({"fitter": "parallelT", "free": [["all", "A", n]], "norm": True, "values": 2})
    for f in ("parallel1", "series1", "seriesT"):       # another angle in the member
        for n in ("tz", "gamma_0", "c"):
            for norm in (True, False):
                out.append({"fitter": f, "free": [n], "fix": 2, "norm": norm, "at": 40})
    for p in itertools.combinations(["tz", "Bamp", "c", "T", "gamma_0"], 2):
        for f in ("parallel1", "series1", "seriesT"):
            out.append({"fitter": f, "free": list(p), "fix": 2, "norm": False, "values": 2})
    pairs = list(itertools.combinations(ls, 2))
    if not T:
        pairs = [p for p in pairs if p[0][0] != "all" or p[1][0] != "all"][::2] + [p for p in pairs if p[0][0] == "all" == p[1][0]][::3]
    for p in pairs:
        out.append({"fitter": "parallelT", "free": list(p), "norm": True})
    return out


def of(case):
    return VAL2 if case.get("values") else VAL


def bounds(n, v):
    return [v - 0.3 * abs(v), v + 0.4 * abs(v)]


def run_case(case, res):
    d = tempfile.mkdtemp(prefix="c21_")
    try:
        {"parallelT": multi, "seriesT": series_T}.get(case["fitter"], one)(case, res, d)
    finally:
        shutil.rmtree(d)


KW = dict(N_epsilon=3)


def matrices(raw, T, phis, ths, norm=0):
    z = np.array([fl.interp(ths, *raw[T, p][:2]) / fl.interp(norm, *raw[T, p][:2]) for p in phis])
    return z


def one(case, res, d):
    dd, raw = fl.data(d, (25,), (0, 45))
    m = fl.member(fixdoping=case["fix"], Btheta_norm=case.get("at", 0), **KW)
    bd = {n: bounds(n, of(case)[n]) for n in case["free"]}
    keep = deepcopy((m, bd, dd))
    o = getattr(fl, case["fitter"])(m, bd, dd, normalized=case["norm"])
    if case["fitter"] == "parallel1":
        names = list(o.free_pars_name)
        res.check(sorted(names) == sorted(bd), "free parameters", names)
        res.check([tuple(b) for b in o.bounds] == [tuple(bd[n]) for n in names], "bounds pair with names", "%s %s" % (names, o.bounds))
        got = o.compute_diff2([of(case)[n] for n in names])
    else:
        for n in bd:
            res.check([o.pars[n].min, o.pars[n].max] == bd[n], "bounds pair with names", n)
            res.check(o.pars[n].value == min(max(start(keep[0], n), bd[n][0]), bd[n][1]), "start value", n)
        got = o.compute_diff(fl.pars(o, {n: of(case)[n] for n in bd}))
    want_m = deepcopy(keep[0])
    for n in case["free"]:
        fl.put(want_m, n, of(case)[n])
    ths = fl.grid(0, 80, 40)
    rho, z = fl.simulate([want_m], [0, 45], ths)
    dz = matrices(raw, 25, [0, 45], ths)
    if case["norm"]:
        w = (dz - z).ravel()
    else:
        w = ((dz * np.array([[raw[25, p][3]] for p in (0, 45)]) - rho) * 1e5).ravel()
    if case["fitter"] == "parallel1":
        res.close(got, (w ** 2).sum(), "sum of squared residuals", str(case), rtol=1e-6)
    else:
        res.close(got, w, "residual", str(case), rtol=1e-6)
    res.check((m, bd, dd) == keep, "the caller's dictionaries changed", str(case))
    for n in case["free"]:
        if not (n == "mu" and case["fix"] != 2):
            res.check(start(o.member, n) == of(case)[n], "value of the member", n)
    held(res, case, o.member, rho, [0, 45], ths)
    res.saw(w)


def held(res, case, mem, rho, phis, ths):
    """With the doping held, the parameters of the fit contain the chemical
    potential found: the same numbers without adjustment give the same
    simulation."""
    if case["fix"] != 2:
        res.close(fl.simulate([dict(mem, fixdoping=2)], phis, ths)[0], rho, "chemical potential of the parameters", str(case), rtol=1e-6)


def start(m, n):
    return m[n] if n in m else m["band_params"][n] if n in m["band_params"] else m["scattering_params"][n]


SCAT = ("gamma_0", "gamma_k", "power")


def series_T(case, res, d):
    Ts = [25, 6]
    per = case.get("per_T")
    dd, raw = fl.data(d, Ts, (0, 45))
    m = fl.member(fixdoping=case["fix"], data_T=list(Ts), Btheta_norm=case.get("at", 0), **KW)
    sp = m["scattering_params"]
    m["scattering_params"] = {T: dict(sp, gamma_0=sp["gamma_0"] + i) for i, T in enumerate(Ts)}
    rd, values, keys = {}, {}, {}
    for n in case["free"]:
        v = {T: of(case)[n] * (1 + 0.1 * i) for i, T in enumerate(Ts)}
        if n in SCAT:
            rd[n] = {T: bounds(n, of(case)[n]) for T in Ts}
            keys.update({n + "_" + str(T): v[T] for T in Ts})
            values[n] = v
        elif per and n in ("Bamp", "T"):
            m[n] = {T: m[n] for T in Ts}
            rd[n] = {T: bounds(n, of(case)[n]) for T in Ts}
            keys.update({n + "_" + str(T): v[T] for T in Ts})
            values[n] = v
        else:
            rd[n] = bounds(n, of(case)[n])
            keys[n] = of(case)[n]
            values[n] = {T: of(case)[n] for T in Ts}
    keep = deepcopy((m, rd, dd))
    o = fl.seriesT(m, rd, dd, normalized=case["norm"])
    res.check(sorted(o.pars) == sorted(keys), "free parameters", lambda: "%s, expected %s" % (sorted(o.pars), sorted(keys)))
    for k in keys:
        n = k if k in rd else k.rsplit("_", 1)[0]
        b = rd[n] if isinstance(rd[n], list) else list(rd[n].values())[0]
        res.check([o.pars[k].min, o.pars[k].max] == list(b), "bounds pair with names", k)
    if not case["norm"]:
        o.weight_rhozz = 1.7
    got = o.compute_diff(fl.pars(o, keys))
    w = np.array([])
    ths = fl.grid(0, 80, 40)
    for T in Ts:
        wm = deepcopy(keep[0])
        wm["scattering_params"] = dict(wm["scattering_params"][T])
        for k in ("Bamp", "T"):
            if isinstance(wm[k], dict):
                wm[k] = wm[k][T]
        for n in case["free"]:
            fl.put(wm, n, values[n][T])
        rho, z = fl.simulate([wm], [0, 45], ths)
        for n in case["free"]:
            if not (n == "mu" and case["fix"] != 2):
                res.check(start(o.member_dict[T], n) == values[n][T], "value of the member", "%s at %s K" % (n, T))
        held(res, case, o.member_dict[T], rho, [0, 45], ths)
        w = np.append(w, (matrices(raw, T, [0, 45], ths) - z).ravel())
        if not case["norm"]:
            w = np.append(w, [1.7 * (raw[T, p][3] - fl.interp(0.0, ths, rho[i])) * 1e5 for i, p in enumerate((0, 45))])
    res.close(got, w, "residual", str(case), rtol=1e-6)
    res.check((m, rd, dd) == keep, "the caller's dictionaries changed", str(case))
    res.saw(w)


def multi(case, res, d):
    Ts = [6, 25]
    bands = ["A", "B"]
    dd, raw = fl.data_multi(d, Ts, (0, 45), norm=20, rnorm=1.3)
    params = {T: {b: fl.member(band_name=b, T=0, band_params={"mu": -0.7 + 0.2 * i, "tz": 0.11 + 0.01 * j},
                               scattering_params={"gamma_0": 12.0 + 3 * i + j}, **KW) for i, b in enumerate(bands)} for j, T in enumerate(Ts)}
    bd = {6: {}, 25: {}}
    for i, (T, b, n) in enumerate(case["free"]):
        bd.setdefault(T, {}).setdefault(b, {})[n] = bounds(n, of(case)[n] * (1 + 0.05 * i))
    keep = deepcopy((params, bd, dd))
    o = fl.parallelT(params, bd, dd, case["norm"])
    labels = [tuple(l) for l in o.free_params_labels]
    res.check(sorted(map(str, labels)) == sorted(str(tuple(l)) for l in case["free"]), "free parameters", labels)
    res.check([list(b) for b in o.bounds] == [bd[l[0]][l[1]][l[2]] for l in labels], "bounds pair with names", "%s %s" % (labels, o.bounds))
    val = {tuple(l): of(case)[l[2]] * (1 + 0.05 * i) for i, l in enumerate(case["free"])}
    got = o.compute_fitness([val[l] for l in labels])
    want = deepcopy(keep[0])
    for l in labels:        # in the order of declaration, as documented by the labels
        for T in ([l[0]] if l[0] != "all" else Ts):
            fl.put(want[T][l[1]], l[2], val[l])
    tot, w = 0.0, []
    ths = fl.grid(0, 80, 40)
    for T in Ts:
        rho, z = fl.simulate([want[T][b] for b in bands], [0, 45], ths, norm=20)
        dz = np.array([fl.interp(ths, *raw[T, p][:2]) for p in (0, 45)])
        if case["norm"]:
            w.append((dz / np.array([[fl.interp(20.0, *raw[T, p][:2])] for p in (0, 45)]) - z).ravel())
            res.close(o.rzz_sim_dict[T], z, "simulated curve", str(case), rtol=1e-6)
        else:
            w.append((dz * 1.3 - rho).ravel())
            res.close(o.rhozz_sim_dict[T], rho, "simulated resistivity", str(case), rtol=1e-6)
    w = np.concatenate(w)
    res.close(got, (w ** 2).sum(), "sum of squared residuals", str(case), rtol=1e-6)
    res.close(o.compute_fitness(), got, "sum at the current values", rtol=1e-9)
    for l in labels:
        for T in ([l[0]] if l[0] != "all" else Ts):
            w1 = start(want[T][l[1]], l[2])
            g1 = start(o.params_dict[T][l[1]], l[2])
            res.close(g1, w1, "value held by the fit", "%s at %s K: %r, given %r" % (l, T, g1, w1), rtol=1e-12)
    res.check((params, bd, dd) == keep, "the caller's dictionaries changed", str(case))
    res.saw(w)
