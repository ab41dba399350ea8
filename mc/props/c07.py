"""C07: objects own their parameters."""
import numpy as np
from copy import deepcopy
from ..target import BandStructure, Conductivity, ADMR, ad
from ..models import model
from .. import core, snap

PID = "C07"
LEVEL = "model_checking"
RULE = ("every program up to the depth bound over a shared world (one caller dictionary per kind, two bands and two "
        "conductivities built from them): caller edits, object edits, whole-dictionary assignments between objects, "
        "discretizations and transport runs.  After each step every holder the step does not name must be bit-identical to "
        "before.  Plus the constructor defaults and the sweep constructor.")
ASSUME = ["a sweep drives the conductivities it is given: it is not an owner of them",
          "assigning a list to a plain public attribute shares it"]

SP = {"gamma_0": 12.0, "gamma_k": 40.0, "power": 3.0}

OPS = {
    # name: (holder that may change, action on the world)
    "caller params": ("params", lambda w: w["params"].update(mu=w["params"]["mu"] + 0.01)),
    "caller params t": ("params", lambda w: w["params"].update(t=w["params"]["t"] * 1.02)),
    "caller lists": ("lists", lambda w: (w["lists"]["res"].__setitem__(0, w["lists"]["res"][0] + 2), w["lists"]["kmax"].__setitem__(2, 1.0))),
    "caller scattering": ("scat", lambda w: w["scat"].update(gamma_0=w["scat"]["gamma_0"] + 1)),
    "caller models": ("models", lambda w: w["models"].append("cos2phi")),
    "band1 item": ("band1", lambda w: w["band1"].__setitem__("t", w["band1"]["t"] * 1.01)),
    "band1 whole": ("band1", lambda w: setattr(w["band1"], "band_params", w["params"])),
    "band2 takes band1": ("band2", lambda w: setattr(w["band2"], "band_params", w["band1"].band_params)),
    "band1 surface": ("band1", lambda w: w["band1"].discretize_fermi_surface()),
    "band2 scale": ("band2", lambda w: setattr(w["band2"], "energy_scale", w["band2"].energy_scale * 1.1)),
    "band1 lists": ("band1", lambda w: (w["band1"].resolution.__setitem__(0, 9), w["band1"].k_max.__setitem__(0, 3.0))),
    "cond1 whole": ("cond1", lambda w: setattr(w["cond1"], "scattering_params", w["scat"])),
    "cond2 takes cond1": ("cond2", lambda w: setattr(w["cond2"], "scattering_params", w["cond1"].scattering_params)),
    "cond1 value": ("cond1", lambda w: w["cond1"].scattering_params.update(gamma_0=99.0)),
    "cond1 attribute": ("cond1", lambda w: setattr(w["cond1"], "gamma_0", 7.0)),
    "cond1 models": ("cond1", lambda w: w["cond1"].scattering_models.append("isotropic")),
    "cond1 band item": ("cond1", lambda w: w["cond1"].bandObject.__setitem__("tz", 0.2)),
    "cond1 band run": ("cond1", lambda w: w["cond1"].bandObject.runBandStructure(epsilon=3.0)),
    "cond1 run": ("cond1", lambda w: run(w["cond1"])),
    "cond2 run": ("cond2", lambda w: run(w["cond2"])),
    "cond1 field": ("cond1", lambda w: (setattr(w["cond1"], "Bamp", 20), setattr(w["cond1"], "Btheta", 40))),
    "cond1 new band1": ("cond1", lambda w: w.__setitem__("cond1", Conductivity(w["band1"], 0, scattering_models=w["models"], scattering_params=w["scat"]))),
    "band2 rebuilt": ("band2", lambda w: w.__setitem__("band2", BandStructure(**w["kw"], band_params=w["params"], resolution=w["lists"]["res"], k_max=w["lists"]["kmax"]))),
}


def run(c):
    if c.bandObject.kf is None:
        c.bandObject.discretize_fermi_surface()
    c.runTransport()


def cases(tier):
    depth = 3 if tier == "thorough" else 2
    out = [{"kind": "prog", "ops": s} for s in core.sequences(list(OPS), depth)]
    out += [{"kind": "hot"}] + [{"kind": "defaults", "ops": s} for s in core.sequences(list(DEF), 3 if tier == "thorough" else 2)]
    return out


def world():
    m = model("tet")
    params = {"mu": -0.7, "t": 1.0, "tz": 0.11}
    lists = {"res": [5, 5, 3], "kmax": [np.pi] * 3}
    kw = {k: m[k] for k in ("a", "b", "c", "energy_scale", "band_model")}
    w = {"params": params, "lists": lists, "scat": dict(SP), "models": ["isotropic"], "kw": kw}
    for i in (1, 2):
        w["band%d" % i] = BandStructure(**kw, band_params=params, resolution=lists["res"], k_max=lists["kmax"])
    w["band1"].discretize_fermi_surface()
    for i in (1, 2):
        w["cond%d" % i] = Conductivity(w["band1"], 0, scattering_models=w["models"], scattering_params=w["scat"])
    return w


HOLD = ["params", "lists", "scat", "models", "band1", "band2", "cond1", "cond2"]


def digests(w):
    return {h: snap.state(w[h]) for h in HOLD}


DEF = {
    "param": lambda b, a: b.__setitem__("t", 2.0),
    "dict": lambda b, a: b.band_params.update(tp=0.5),
    "kmax": lambda b, a: b.k_max.__setitem__(2, 1.0),
    "res": lambda b, a: b.resolution.__setitem__(0, 99),
    "disc": lambda b, a: b.discretize_fermi_surface(),
    "points": lambda b, a: b.number_of_points_per_kz_list.append(3),
    "phi": lambda b, a: a.Bphi_array.__setitem__(0, 77),
    "names": lambda b, a: a.band_names.append("x"),
}


def cond(c):
    """What a new conductivity is made of (its result arrays are not set)."""
    return snap.state([c.bandObject, c.scattering_params, c.scattering_models, c.Bamp, c.Bphi, c.Btheta, c.B_vector, c.T,
                       c.N_time, c.N_epsilon, c.gamma_0])


def run_case(case, res):
    if case["kind"] == "prog":
        w = world()
        before = digests(w)
        for i, op in enumerate(case["ops"]):
            owner, f = OPS[op]
            try:
                f(w)
            except (ValueError, RuntimeError):
                pass
            after = digests(w)
            res.transitions += 1
            for h in HOLD:
                if h != owner:
                    res.check(after[h] == before[h], "%s changed by '%s'" % (h, op), lambda: "in %s" % case["ops"][:i + 1])
            before = after
        res.state(before)
        res.saw(before)
        res.traces += 1
    elif case["kind"] == "defaults":
        def new():
            b = BandStructure(3.75, 3.75, 13.2, 160)
            c = Conductivity(b, 0, scattering_models=["isotropic"], scattering_params=SP)
            return b, ADMR([c], show_progress=False), c
        b0, a0, c0 = new()
        want = [snap.state(b0), snap.state([a0.Bphi_array, a0.Btheta_array, a0.band_names]), cond(c0)]
        pub = (dict(b0.band_params), list(b0.k_max), list(b0.resolution), list(a0.Bphi_array))
        b, a, c = new()
        for op in case["ops"]:
            DEF[op](b, a)
            res.transitions += 1
            b2, a2, c2 = new()
            got = [snap.state(b2), snap.state([a2.Bphi_array, a2.Btheta_array, a2.band_names]), cond(c2)]
            for g, x, n in zip(got, want, ("band", "sweep", "conductivity")):
                res.check(g == x, "defaults of a new %s" % n, lambda: "after %s" % case["ops"])
            res.check((dict(b2.band_params), list(b2.k_max), list(b2.resolution), list(a2.Bphi_array)) == pub, "default values", "after %s" % case["ops"])
            res.check(snap.state(b0) == want[0], "an older band", "after %s" % case["ops"])
            res.check(cond(c) == want[2], "the conductivity of an edited band", "after %s" % case["ops"])
        res.state(snap.state(b))
        res.saw(snap.state([b, a.Bphi_array, a.band_names]))
        res.traces += 1
    else:
        # finite temperature and field: the run moves only its own band
        b = BandStructure(**model("tet"), resolution=[7, 7, 3])
        b.runBandStructure()
        c1 = Conductivity(b, 20, 0, 30, T=5, N_epsilon=4, N_time=20, scattering_models=["isotropic"], scattering_params=SP)
        c2 = Conductivity(b, 20, 0, 30, T=5, N_epsilon=4, N_time=20, scattering_models=["isotropic"], scattering_params=SP)
        s = [snap.state(b), snap.state(c2)]
        c1.runTransport()
        res.check(snap.state(b) == s[0], "band changed by a run", "the run uses its own copy")
        res.check(snap.state(c2) == s[1], "other conductivity changed by a run")
        for t in (int, float, np.float32):
            phi = np.array([0, 20, 40], dtype=t)
            for src in (phi, list(phi), phi[::2]):
                s2 = ADMR([c2], Bphi_array=src, Btheta_max=20, Btheta_step=10, show_progress=False)
                was = [float(x) for x in src]
                src[0] = 7
                res.check(list(s2.Bphi_array) == was, "angles of the sweep", "shared with the caller's %s of %s" % (type(src).__name__, t.__name__))
                src[0] = 0
        phi = np.array([0, 20])
        a = ADMR([c2], Bphi_array=phi, Btheta_max=20, Btheta_step=10, show_progress=False)
        a.runADMR()
        phi[0] = 5
        res.check(a.Bphi_array[0] == 0, "angles of the sweep", "shared with the caller's array")
        res.check(snap.state(b) == s[0], "band changed by a sweep")
        res.transitions += 2
        res.saw("hot", c1.sigma)
