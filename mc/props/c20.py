"""C20: measured curves enter the fits as they are in the files."""
import os, tempfile, shutil
import numpy as np
from ..target import ADMR
from .. import core, fitlib as fl

PID = "C20"
LEVEL = "exploration"
RULE = ("for each of the four fitters: data files with the angle and resistivity in any of several columns, rows ascending, descending "
        "or mixed, comment lines, several temperatures and azimuths listed in any order, azimuths wanted but not measured and "
        "measured but not wanted, cuts per curve, angle grids, normalization angles and prefactors.  The azimuths, the angle grid and "
        "both data matrices are compared with the table the file was written from, by a hand-written interpolation.  "
        "Non-trivial = distinct data matrix.")
ASSUME = ["one-temperature and series fitters normalize at theta = 0 and keep the angles below the smallest cut of the curves in use",
          "the parallel many-temperature fitter takes the union of the ranges and the smallest step"]


def cases(tier):
    T = tier == "thorough"
    out = []
    common = dict(cols=[(0, 1), (1, 0), (2, 4), (3, 1)], order=["up", "down", "mixed"], dict_order=[None, "reversed"])
    one = dict(common, phis=[(0, 45), (45, 0), (15,), (0, 15, 30, 45), (30, 90), (0, -45, 15), (0, 22.5, 22.25, 0.125)],
               want=[[0, 45], [0, 15, 30, 45], [45], [15, 30], [15, 0, -45], [0, 0.125, 22.5, 22.25]],
               cuts=["none", "one", "inside", "first", "edge", "point"], grid=[(0, 80, 40), (0, 90, 5), (-10, 100, 2.5), (5, 83, 7), (0, 60, 0.1)], Tsel=[25, 6, 24.75], rows=[53, 2500, 7], drop=[0, 1])
    for f in ("parallel1", "series1", "seriesT"):
        for c in core.deviations(4 if T else 3, **one):
            if not set(c["phis"][c["drop"]:]) & set(c["want"]):
                continue
            if f == "seriesT" and c["Tsel"] != 25:
                c = dict(c, Tsel=[6, 25, 12.5] if c["Tsel"] == 6 else [24.75, 25])
            elif f == "seriesT":
                c = dict(c, Tsel=[25])
            out.append(dict(c, fitter=f))
    multi = dict(common, phis=[(0, 45), (45, 0), (15,), (0, 15, 30, 45), (15, -30, 0), (0, 22.5, 22.25)], rows=[53, 2500, 7], grids=[0, 1, 2, 3, 4], norm=[0, 20, 33.3, -50, 150], rnorm=[1.0, 1e-5, 0.01], Tsel=[[25], [6, 25], [24.75, 25]], drop=[0, 1])
    for c in core.deviations(4 if T else 3, **multi):
        if not c["phis"][c["drop"]:]:
            continue
        out.append(dict(c, fitter="parallelT"))
    return out


GRIDS = [[(0, 80, 40)], [(0, 80, 40), (-10, 60, 20)], [(0, 90, 5), (10, 95, 2.5)], [(5, 83, 7)], [(0, 60, 0.1), (0, 90.3, 0.7)]]


def cutof(kind, phis, i, n=53):
    return {"none": 200, "one": 200 if i else 61, "inside": 42.5 + 7 * i, "first": 45 if i == 0 else 70, "edge": 80,
            "point": float(fl.thetas(n=n)[(30 + i) * (n - 1) // 52])}[kind]


def run_case(case, res):
    d = tempfile.mkdtemp(prefix="c20_")
    try:
        if case["fitter"] == "parallelT":
            multi(case, res, d)
        else:
            one(case, res, d)
        if case["order"] == "up":   # the files are measured again, a new fit reads them
            again = dict(case, warp=3)
            (multi if case["fitter"] == "parallelT" else one)(again, res, d)
    finally:
        shutil.rmtree(d)


def one(case, res, d):
    multiT = case["fitter"] == "seriesT"
    sel = case["Tsel"] if multiT else [case["Tsel"]]
    Ts = sorted(set(sel) | {25, 6, 24.75})
    cuts = {(T, p): cutof(case["cuts"], case["phis"], i, case["rows"]) for T in Ts for i, p in enumerate(case["phis"])}
    dd, raw = fl.data(d, Ts, case["phis"], case["cols"], case["order"], cuts, case["dict_order"], rows=case["rows"], noise=case.get("warp", 0))
    if case["drop"]:            # one curve is missing, at the first temperature alone
        del dd[sel[0], case["phis"][0]]
    lo, hi, st = case["grid"]
    kw = dict(Btheta_min=lo, Btheta_max=hi, Btheta_step=st, Bphi_array=case["want"])
    m = fl.member(data_T=list(sel) if multiT else sel[0], **kw)
    if multiT:
        sp = m["scattering_params"]
        m["scattering_params"] = {T: dict(sp) for T in sel}
        o = fl.seriesT(m, {}, dd)
    elif case["fitter"] == "parallel1":
        o = fl.parallel1(m, {"gamma_0": (5, 20)}, dd)
    else:
        o = fl.series1(m, {"gamma_0": (5, 20)}, dd)
    for turn in range(2 if case["order"] == "up" else 1):
        if case["fitter"] != "parallel1" or turn:
            o.load_and_interp_data()
        for T in sel:
            if multiT:
                phis, th, z, r = o.Bphi_dict[T], o.Btheta_dict[T], o.rzz_data_i_dict[T], o.rhozz_data_i_dict[T]
            else:
                phis, th, z, r = o.Bphi_array, o.Btheta_array, o.rzz_data_matrix, o.rhozz_data_matrix
            wphi = sorted({p for t, p in dd if t == T} & set(case["want"]))
            g = fl.grid(lo, hi, st, min(raw[T, p][2] for p in wphi))
            if not (res.close(phis, wphi, "azimuths in use", str(case), rtol=1e-12) and res.close(th, g, "angle grid", str(case), rtol=1e-9, atol=1e-9)):
                return
            wz = np.empty((len(wphi), len(g)))
            wr = np.empty_like(wz)
            for i, p in enumerate(wphi):
                rt, rr, _, r0 = raw[T, p]
                wz[i] = fl.interp(g, rt, rr) / fl.interp(0.0, rt, rr)
                wr[i] = wz[i] * r0
                if multiT:
                    k = np.asarray(rt) <= raw[T, p][2]
                    res.close(o.Btheta_data_dict[T, p], rt[k], "kept raw angles", rtol=1e-9)
                    res.close(o.rzz_data_dict[T, p], rr[k] / fl.interp(0.0, rt, rr), "kept raw curve", rtol=1e-9)
                    res.close(o.rhozz_data_dict[T, p], rr[k] / fl.interp(0.0, rt, rr) * r0, "kept raw resistivity", rtol=1e-9)
            res.close(z, wz, "normalized data", str(case), rtol=1e-9)
            res.close(r, wr, "resistivity data", str(case), rtol=1e-9)
            res.saw(z, r)


def multi(case, res, d):
    Ts = sorted(set(case["Tsel"]) | {40})
    gl = GRIDS[case["grids"]]
    gr = {(T, p): gl[i % len(gl)] for T in Ts for i, p in enumerate(case["phis"])}
    dd, raw = fl.data_multi(d, Ts, case["phis"], case["cols"], case["order"], gr, case["norm"], case["rnorm"], case["dict_order"], rows=case["rows"], noise=case.get("warp", 0))
    if case["drop"]:
        del dd[case["Tsel"][0], case["phis"][0]]
    params = {T: {"B": fl.member()} for T in case["Tsel"]}
    o = fl.parallelT(params, {T: {"B": {"gamma_0": [5, 20]}} for T in case["Tsel"]}, dd)
    for T in case["Tsel"]:
        wphi = [p for t, p in dd if t == T]
        phis, th = o.phis_dict[T], o.thetas_dict[T]
        lo = min(gr[T, p][0] for p in wphi)
        hi = max(gr[T, p][1] for p in wphi)
        st = min(gr[T, p][2] for p in wphi)
        n = int(np.ceil(round((hi - lo) / st, 6))) + 1
        g = np.array([lo + (hi - lo) * i / (n - 1) for i in range(n)])
        if not (res.close(sorted(phis), sorted(wphi), "azimuths in use", str(case), rtol=1e-12) and res.close(th, g, "angle grid", str(case), rtol=1e-9, atol=1e-9)):
            return
        for i, p in enumerate(phis):
            rt, rr, _, nm, rn = raw[T, p]
            v = fl.interp(g, rt, rr)
            res.close(o.rzz_data_dict[T][i], v / fl.interp(nm, rt, rr), "normalized data", str(case), rtol=1e-9)
            res.close(o.rhozz_data_dict[T][i], v * rn, "resistivity data", str(case), rtol=1e-9)
        res.saw(o.rzz_data_dict[T], o.rhozz_data_dict[T])
