"""C16: transport results do not depend on the history of the object."""
import numpy as np, itertools
from copy import deepcopy
from ..target import BandStructure, Conductivity
from ..models import model
from .. import ref, core, snap, trans
from ..explore import explore

PID = "C16"
LEVEL = "model_checking"
RULE = ("explicit-state exploration of the real Conductivity to the fixpoint: for every group of settings (field amplitude, "
        "angles, temperature, time steps, levels, cut-off, rates by dictionary and by attribute, rate models, band parameters, "
        "lattice, window, mesh, algorithm, zones and level of the band, solver tolerance) all orders of changing them and running, merged only on identical objects.  A run whose levels lie beyond the band is refused, the runs after it are as ever.  After each run the "
        "tensor, the orbits, the exponents, the window and the extreme rates equal those of a new object that was given the "
        "model state directly; at T = 0 the tensor is also compared with the reference integral.")
ASSUME = ["a run needs a discretized band; alpha and beta of an earlier T > 0 run remain visible at T = 0"]

DIMS = {
    "amp": [["set", "Bamp", 40], ["set", "Bamp", 0]],
    "theta": [["set", "Btheta", 55], ["set", "Btheta", 0]],
    "phi": [["set", "Bphi", 30], ["set", "Bphi", 0]],
    "T": [["set", "T", 6], ["set", "T", 0]],
    "N": [["set", "N_time", 33], ["set", "N_time", 20]],
    "levels": [["set", "N_epsilon", 2], ["set", "N_epsilon", 3]],
    "cut": [["set", "dfdE_cut_percent", 0.02], ["set", "dfdE_cut_percent", 0.001]],
    "rates": [["rates", {"gamma_0": 30.0, "gamma_k": 11.0, "power": 2.0}], ["rates", {"gamma_0": 9.0, "gamma_k": 20.0, "power": 4.0}]],
    "attr": [["set", "gamma_0", 17.0], ["set", "gamma_0", 9.0]],
    "models": [["models", ["isotropic"]], ["models", ["isotropic", "cos2phi", "gamma_dos_func"]]],
    "band": [["band", "tz", 0.2], ["band", "tz", 0.11]],
    "scale": [["scale", 200], ["scale", 160]],
    "window": [["attr", "k_max", [2.2, 3.0, 3.0]], ["attr", "k_max", [3.141592653589793] * 3]],
    "mesh": [["attr", "resolution", [7, 5, 5]], ["attr", "resolution", [5, 5, 3]]],
    "zones": [["attr", "number_of_bz", 3], ["attr", "number_of_bz", 1]],
    "lattice": [["attr", "c", 7.0], ["attr", "c", 9.0]],
    "slices": [["attr", "march_square", True], ["attr", "march_square", False]],
    "solver": [["set", "rtol", 1e-7], ["set", "rtol", 1e-9]],
    "close": [["set", "Btheta", 30.0], ["set", "Btheta", 30.0002]],
    "hotter": [["set", "T", 4000], ["set", "T", 0]],     # levels beyond the band: refused
    "level": [["disc", 6.0], ["disc", 0.0]],
}


def cases(tier):
    T = tier == "thorough"
    names = list(DIMS)
    out = [{"dims": list(c), "start": s} for c in itertools.combinations(names, 2) for s in ("cold", "hot")]
    if T:
        out += [{"dims": list(c), "start": "cold", "depth": 6} for c in itertools.combinations(names, 3)]
    return out


SHOW = ["kft", "vft", "t_o_tau", "time_array", "time_max", "dtime", "gamma_tot_max", "gamma_tot_min", "sigma", "B_vector", "tau_tot"]


def run_case(case, res):
    m = model("tet", resolution=[5, 5, 3])
    hot = case["start"] == "hot"
    g0 = dict(Bamp=40 if hot else 0, Btheta=0, Bphi=0, T=6 if hot else 0, N_time=20, N_epsilon=3, dfdE_cut_percent=0.001, gamma_0=9.0, gamma_k=20.0, rtol=1e-9, attrs={},
              power=4.0, models=["isotropic", "cos2phi", "gamma_dos_func"], params=dict(m["band_params"]), es=160, lev=0.0, ran=None)
    memo = {}

    def band(g):
        b = BandStructure(**dict(m, band_params=dict(g["params"]), energy_scale=g["es"]))
        b.res_xy_rough = 61
        for k, v in g["attrs"].items():
            setattr(b, k, v)
        b.discretize_fermi_surface(epsilon=g["lev"])
        return b

    def new(g):
        return Conductivity(band(g), g["Bamp"], g["Bphi"], g["Btheta"], N_time=g["N_time"], T=g["T"], N_epsilon=g["N_epsilon"],
                            dfdE_cut_percent=g["dfdE_cut_percent"], scattering_models=g["models"], rtol=g["rtol"], atol=1e-9,
                            scattering_params=dict({k: g[k] for k in ("gamma_0", "gamma_k", "power")}, gamma_dos_max=14.0))

    def fresh(g):
        k = snap.state({x: y for x, y in g.items() if x != "ran"})
        if k not in memo:
            c = new(g)
            c.runTransport()
            memo[k] = c
        return memo[k]

    def apply(c, g, op):
        k = op[0]
        if k == "run":
            if g["lev"] is None:
                return None
            at = dict(g, params=dict(g["params"]))
            if g["T"] == 4000:
                try:
                    c.runTransport()
                    res.check(False, "levels beyond the band accepted")
                except (ValueError, RuntimeError):
                    g.update(lev=0.0, ran=None)
                    b = band(g)
                    for a in ("kf", "vf", "dkf", "dos_k"):
                        res.check(snap.same(getattr(c.bandObject, a), getattr(b, a), 1e-9), "after a refused run: " + a, lambda: "not that of the Fermi level")
                return g
            c.runTransport()
            g["ran"] = snap.state({x: y for x, y in at.items() if x != "ran"})
            f = fresh(at)
            compare(c, f, at)
            if g["T"] != 0:
                g["lev"] = 0.0
            return g
        g["ran"] = None
        if k == "set":
            setattr(c, op[1], op[2])
            g[op[1]] = op[2]
        elif k == "rates":
            c.scattering_params = dict(op[1])
            g.update(op[1])
        elif k == "models":
            c.scattering_models = list(op[1])
            g["models"] = list(op[1])
        elif k == "band":
            c.bandObject[op[1]] = op[2]
            g["params"][op[1]] = op[2]
            g["lev"] = None
        elif k == "scale":
            c.bandObject.energy_scale = op[1]
            g["es"] = op[1]
            g["lev"] = None
        elif k == "attr":
            setattr(c.bandObject, op[1], deepcopy(op[2]))
            g["attrs"] = dict(g["attrs"], **{op[1]: op[2]})
            if op[1] != "number_of_bz":
                g["lev"] = None
        elif k == "disc":
            c.bandObject.runBandStructure(epsilon=op[1])
            g["lev"] = op[1]
        return g

    def compare(c, f, g):
        w = "%s" % {x: y for x, y in g.items() if x not in ("ran",)}
        for a in SHOW:
            res.check(snap.same(getattr(c, a), getattr(f, a), 1e-7), "history changes " + a, lambda: "settings %s: %s, a new object gives %s" % (w, core.short(getattr(c, a)), core.short(getattr(f, a))))
        if g["T"] != 0:
            for a in ("alpha", "beta", "epsilon_array"):
                res.check(snap.same(getattr(c, a), getattr(f, a), 1e-7), "history changes " + a, w)
        elif g["T"] == 0:
            r = ref.Band(**dict(m, band_params=g["params"], energy_scale=g["es"], **{k: v for k, v in g["attrs"].items() if k not in ("resolution",)}))
            sp = dict({x: g[x] for x in ("gamma_0", "gamma_k", "power")}, gamma_dos_max=14.0)
            b = band(g)
            kf = np.asarray(b.kf)
            gf = trans.rate(r, kf, g["models"], sp)
            gam = gf(kf, r.velocity(*kf))
            if g["Bamp"] == 0:
                want = ref.sigma_zero_field(r, kf, b.dkf, gam)
            else:
                t = 8 / gam.min() / g["N_time"] * np.arange(g["N_time"])
                want = ref.sigma_field(r, kf, b.dkf, ref.b_vector(g["Bamp"], g["Bphi"], g["Btheta"]), t, gf, sub=8)[0]
            res.close(np.array(c.sigma), want, "tensor", w, rtol=1e-5)
        res.saw(c.sigma)

    def judge(c, g, path):
        pass

    ops = [o for d in case["dims"] for o in DIMS[d]] + [["run"]]
    if "level" not in case["dims"] and set(case["dims"]) & {"band", "scale", "window", "mesh", "lattice", "slices"}:
        ops.append(["disc", 0.0])
    c = new(g0)
    closed, n = explore(res, c, ops, apply, judge, case.get("depth", 60), g0)
    res.note_max("cases cut by the depth bound", 0 if closed else 1)
    res.note_max("states of a case", n)
