"""C19: exported sweeps read back as what was computed."""
import os, tempfile, shutil, itertools
import numpy as np
from ..target import BandStructure, Conductivity, ADMR
from ..models import model
from .. import core

PID = "C19"
LEVEL = "exploration"
RULE = ("band lists (one to three bands, with and without a reconstruction gap M) x azimuth lists x angle grids x value patterns "
        "(small, large, negative, many digits) x temperature x field x energy scale x parameter values x folder and file name given "
        "or not: the exported table is parsed by its header and every column compared; exporting twice, exporting over a longer file, "
        "and names of all pairs of settings are compared.  Non-trivial = distinct file contents.")
ASSUME = ["numbers are printed with 8 significant digits, parameters rounded to 3 decimals, the energy scale to 1 meV in the table",
          "the gap M is listed twice"]

PHIS = [[0, 15, 30, 45], [0], [10.5, 200], [45, 0], [-30, 0, 30, 60, 90], [0, 22.25, 100.125, 0.0625]]
TH = [[0, 90, 15], [-20, 20, 2.5], [5, 10, 5], [0, 0.5, 0.125]]
VALS = ["ramp", "tiny", "huge", "negative"]
BANDS = [["tet"], ["af"], ["tet", "tet"], ["tet", "ortho"], ["af", "tet"], ["ortho"], ["electron", "tet", "ortho"]]


def cases(tier):
    T = tier == "thorough"
    dims = dict(bands=BANDS, phis=PHIS, th=TH, vals=VALS, T=[0, 12, 4.6], B=[45, 0.5, -30], es=[None, 160.44, 87.6], par=[0, 1, 2, 3, 4], same=[False, True], folder=[False, True], name=[None, "out.dat"])
    out = [dict(c, kind="file") for c in core.deviations(3 if T else 2, **dims)]
    out += [{"kind": "names"}]
    return out


def values(kind, shape):
    n = int(np.prod(shape))
    x = (1 + np.arange(n) / 7.0).reshape(shape)
    return {"ramp": 6.7e-5 * x, "tiny": 1.23456789e-13 / x, "huge": 9.87654321e21 * x, "negative": -3.14159265e-4 * x}[kind]


PAR = [0.0, 0.123456, -7.77777, "zero", "tiny"]


def build(c):
    conds = []
    for i, b in enumerate(c["bands"]):
        m = model(b, resolution=[5, 7, 3])
        if c["es"]:
            m["energy_scale"] = c["es"]
        k = sorted(m["band_params"])[-1]
        if PAR[c["par"]] == "zero":
            m["band_params"][k] = 0.0
        elif PAR[c["par"]] == "tiny":
            m["band_params"][k] = -0.0003
        else:
            m["band_params"][k] += PAR[c["par"]]
        bo = BandStructure(**dict(m, band_name="Band" if c["same"] else "Band%d%s" % (i, b)))
        conds.append(Conductivity(bo, c["B"], T=c["T"], N_time=5, scattering_models=["isotropic"], scattering_params={"gamma_0": 10.0}))
    a = ADMR(conds, Btheta_min=c["th"][0], Btheta_max=c["th"][1], Btheta_step=c["th"][2], Bphi_array=c["phis"], show_progress=False)
    a.total_hole_doping = 0.2468
    a.rhozz_array = values(c["vals"], (len(c["phis"]), len(a.Btheta_array)))
    return a


def expected_name(a):
    b = a.condObject_list[0].bandObject
    p = {k: b[k] for k in b.band_params}
    l = ["p%.3f" % a.total_hole_doping, "T%.0f" % a.condObject_list[0].T, "B%.0f" % a.condObject_list[0].Bamp, "t%.1f" % b.energy_scale]
    l += ["%s%.3f" % (k, p[k]) for k in sorted(p) if k != "t"]
    if "M" in p:
        l.append("M%.3f" % p["M"])
    l += [c.bandObject.band_name for c in a.condObject_list]
    return ("AF" if "M" in p else "") + "_".join(l)


def run_case(case, res):
    if case["kind"] == "names":
        return names(res)
    a = build(case)
    rho = np.array(a.rhozz_array)
    d = tempfile.mkdtemp(prefix="c19_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        folder = ""
        if case["folder"]:
            folder = os.path.join(d, "sub dir")
            os.mkdir(folder)
        want_name = case["name"] or "Rzz_" + expected_name(a) + ".dat"
        path = os.path.join(folder or d, want_name)
        for turn in range(2):
            if turn:
                with open(path, "a") as f:
                    f.write("left over\n" * 5)
            a.fileADMR(folder=folder, filename=case["name"])
            files = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
            if not res.check(files == [os.path.relpath(path, d)], "file name", lambda: "wrote %s, expected %s" % (files, os.path.relpath(path, d))):
                return
            with open(path) as f:
                text = f.read()
            if turn:
                res.check(text == first, "second export differs", lambda: text[:300])
            first = text
        res.saw(text)
        lines = [l for l in text.split("\n") if l]
        res.check(lines[0].startswith("#") and not any(l.startswith("#") for l in lines[1:]), "one header line", lambda: lines[0])
        labels = [x.strip() for x in lines[0].lstrip("#").strip("\n").rstrip("\t").split("\t")]
        data = np.loadtxt(path, ndmin=2)
        if not res.check(len(labels) == data.shape[1] and data.shape[0] == len(a.Btheta_array), "table shape", "%s labels, table %s, %d angles" % (labels, data.shape, len(a.Btheta_array))):
            return
        b = a.condObject_list[0].bandObject
        n = len(case["phis"])
        def col(i, want, what, rtol=6e-8, atol=0.0):
            res.check(bool(np.all(np.abs(data[:, i] - want) <= rtol * np.abs(want) + atol)), what, lambda: "column %d (%s): %s, expected %s" % (i, labels[i], data[:, i][:4], np.ravel(want)[:4]))
        res.check(labels[0].startswith("theta"), "first label", labels)
        col(0, case["th"][0] + case["th"][2] * np.arange(len(a.Btheta_array)), "angle column", atol=1e-7)
        for i, phi in enumerate(case["phis"]):
            l = labels[1 + i]
            ok = "rho" in l and "(phi=" in l and float(l.split("(phi=")[1].split(")")[0]) == phi
            res.check(ok, "label of a resistivity column", "%s for azimuth %s" % (l, phi))
            col(1 + i, rho[i], "resistivity column")
        rest = labels[1 + n:]
        p = {k: b[k] for k in b.band_params}
        want = [("B[T]", case["B"]), ("t[meV]", round(b.energy_scale))] + [(k, round(p[k], 3)) for k in sorted(p) if k != "t"]
        if "M" in p:
            want.append(("M", round(p["M"], 3)))
        want += [("res_x", b.resolution[0]), ("res_y", b.resolution[1]), ("res_z", b.resolution[2])]
        if res.check(rest == [w[0] for w in want], "labels of the settings", "%s, expected %s" % (rest, [w[0] for w in want])):
            for i, (l, w) in enumerate(want):
                col(1 + n + i, w, "settings column " + l, atol=1e-9)
        res.check(np.array_equal(a.rhozz_array, rho), "export changed the sweep")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def names(res):
    """Settings that differ by more than the printed digits get different names."""
    seen = {}
    dims = dict(bands=BANDS, phis=[[0]], th=[[0, 90, 15]], vals=["ramp"], T=[0, 12, 5], B=[45, 1, -30], es=[None, 160.44, 87.6], par=[0, 1, 2], same=[False], dop=[0.0, 0.2468, -0.1])
    for c in core.product(**dims):
        a = build(c)
        a.total_hole_doping = c["dop"]
        f = a.file_name_func()
        res.check(f == expected_name(a), "name", "%s, expected %s" % (f, expected_name(a)))
        if c["es"] is None:
            c = dict(c, es=a.condObject_list[0].bandObject.energy_scale)
        k = core.digest(c)
        res.check(f not in seen or seen[f] == k, "two settings share a name", f)
        seen[f] = k
        res.saw(f)
