"""C08: total scattering rate (Matthiessen)."""
import numpy as np, itertools
from ..target import BandStructure, Conductivity, Scattering, sc
from ..models import model
from .. import ref, core

PID = "C08"
LEVEL = "exploration"
RULE = ("every ordered selection (up to 3, with repetition) and every subset of the five rate models x band x point set "
        "(inside, on the edge of and up to three zones away from the first zone, 0 to 2 dimensional) x parameter set x way "
        "of setting the parameters (constructor, attribute, whole dictionary, part of it) plus user-defined models of every "
        "signature, against an independent sum of the documented rates.  Non-trivial = distinct rate array.")
ASSUME = ["the density-of-states rate needs a discretized band"]
MODELS = ["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"]
PSETS = [dict(gamma_0=12.6, gamma_k=63.8, power=12.0, power_z=2.0, gamma_k_sin=7.5, power_sin=3.0, gamma_dos_max=20.0),
         dict(gamma_0=0.5, gamma_k=1.25, power=1.0, power_z=0.5, gamma_k_sin=30.0, power_sin=8.0, gamma_dos_max=3.0),
         dict(gamma_0=3.0, gamma_k=0.0, power=2.5, power_z=4.0, gamma_k_sin=0.1, power_sin=1.0, gamma_dos_max=0.7),
         dict(gamma_0=1e-4, gamma_k=1e5, power=0.0, power_z=40.0, gamma_k_sin=3e-3, power_sin=100.0, gamma_dos_max=4e4),
         dict(gamma_0=7, gamma_k=3, power=1, power_z=2, gamma_k_sin=4, power_sin=3, gamma_dos_max=5)]
WAYS = ["constructor", "attribute", "whole", "part", "twice"]
PTS = ["surface", "reversed", "mirrored", "dyadic", "swapped", "inside", "edge", "far", "square", "turned", "integer", "one"]


def cases(tier):
    T = tier == "thorough"
    sel = [list(s) for d in range(1, 6) for s in itertools.combinations(MODELS, d)]
    sel += [list(s) for s in itertools.product(MODELS, repeat=2) if list(s) not in sel]
    if T:
        sel += [list(s) for s in itertools.product(MODELS, repeat=3) if list(s) not in sel]
    out = []
    bands = ["cuprate", "ortho", "lowsym"] + (["q1d", "ell", "pockets"] if T else [])
    for b in bands:
        for s in sel:
            out.append({"band": b, "models": s})
    for b in bands:
        out.append({"band": b, "user": True})
    for b in bands:
        for first in range(10):
            out.append({"band": b, "edits": first, "depth": 5 if T else 4})
    return out


def points(kind, bo, r):
    m = np.pi / r.a, np.pi / r.b, np.pi / r.c
    g = np.linspace(-0.97, 0.93, 7)
    G = np.stack([x.ravel() for x in np.meshgrid(g, g * 0.9, g[::3], indexing="ij")]) * np.array(m)[:, None]
    if kind == "surface":
        return np.array(bo.kf)
    if kind == "mirrored":
        return np.array(bo.kf) * np.array([[-1.0], [1.0], [1.0]])
    if kind == "reversed":      # the same points in another order
        return np.array(bo.kf)[:, ::-1]
    if kind in ("dyadic", "swapped"):   # sums, extremes and norms agree exactly
        D = np.stack([x.ravel() for x in np.meshgrid([-0.75, 0.5, 0.8125], [-0.625, 0.25, 0.75], [-0.5, 0.375], indexing="ij")])
        return D if kind == "dyadic" else D[:, ::-1]
    if kind == "turned":        # the same shape and the same sums
        return G[:, :98].reshape(3, 14, 7)[:, ::-1, ::-1]
    if kind == "integer":
        return np.stack([x.ravel() for x in np.meshgrid([-3, -1, 0, 2], [-2, 1, 5], [-4, 0, 1], indexing="ij")])
    if kind == "inside":
        return G
    if kind == "edge":
        E = np.stack([x.ravel() for x in np.meshgrid([-1.0, 1.0, 0.0], [-1.0, 0.5, 1.0], [0.0, 1.0], indexing="ij")]) * np.array(m)[:, None]
        return E + 1e-9
    if kind == "far":
        out = []
        for i, j in itertools.product((-3, -1, 1, 2), (-2, 0, 1, 3)):
            out.append(G + 2 * np.array([i * m[0], j * m[1], (i + j) * m[2]])[:, None])
        return np.concatenate(out, 1)
    if kind == "square":
        return G[:, :98].reshape(3, 14, 7)
    return G[:, 40]


def run_case(case, res):
    m = model(case["band"], resolution=[9, 9, 5])
    bo = BandStructure(**m)
    bo.discretize_fermi_surface()
    r = ref.Band(**m)
    v0 = r.velocity(*bo.kf)
    dos_max = np.max(1 / (ref.hbar * np.sqrt((v0 ** 2).sum(0))))
    if "edits" in case:
        return edits(case, res, m, bo, r, dos_max)
    if case.get("user"):
        return user(case, res, m, bo, r)
    ms = case["models"]
    for ip, p in enumerate(PSETS):
        for way in WAYS:
            c = make(bo, ms, p, way)
            for kind in PTS:
                k = points(kind, bo, r)
                v = r.velocity(*k)
                want = ref.gamma(ms, p, r, k, v, dos_max)
                tau = c.tau_tot_func(k[0], k[1], k[2], v[0], v[1], v[2])
                res.close(1 / np.asarray(tau), want, "rate", "%s, parameters %d by %s, points %s" % (ms, ip, way, kind), rtol=1e-8)
                w = np.asarray(want)
                res.check(np.all(np.abs(1 / np.asarray(tau) - w) <= 1e-6 * w + 1e-12 * w.max()), "rate, small entries",
                          "%s, parameters %d by %s, points %s" % (ms, ip, way, kind))
                res.close(c.gamma_tot, want, "gamma_tot", "%s" % ms, rtol=1e-8)
                if kind == "far":
                    res.saw(want)
            # a second call gives the same again
            res.close(1 / np.asarray(c.tau_tot_func(k[0], k[1], k[2], v[0], v[1], v[2])), want, "second call", rtol=1e-8)
    for name in ms:
        if name != "gamma_dos_func":
            k = points("far", bo, r)
            got = getattr(c, name)(k[0], k[1], k[2])
            res.close(got, ref.gamma([name], p, r, k, r.velocity(*k), dos_max), "single model", name, rtol=1e-8)


def edits(case, res, m, bo, r, dos_max):
    """Every sequence of settings: the last value of each parameter counts."""
    p0 = dict(PSETS[0])
    p1 = {k: 1.5 * x + 0.3 for k, x in p0.items()}
    ops = [("attr", "gamma_0", 99.0), ("attr", "gamma_k", 1.0), ("attr", "gamma_0", p0["gamma_0"]), ("dict", p0), ("dict", p1), ("dict", {"gamma_0": 5.0}),
           ("dict", {"gamma_0": p0["gamma_0"]}), ("models", ["isotropic", "cos2phi"]), ("models", ["cos2phi", "gamma_dos_func", "isotropic"]),
           ("models", ["sin2phi", "isotropic"])]
    k = points("inside", bo, r)[:, ::11]
    v = r.velocity(*k)
    rates = {}
    for rest in itertools.product(range(len(ops)), repeat=case["depth"] - 1):
        seq = [ops[case["edits"]]] + [ops[i] for i in rest]
        c = Conductivity(bo, 0, scattering_models=["isotropic", "cos2phi"], scattering_params=dict(p0)) if not rates else c
        c.scattering_models = ["isotropic", "cos2phi"]
        c.scattering_params = dict(p1)
        c.scattering_params = dict(p0)
        ms, p = ["isotropic", "cos2phi"], dict(p0)
        for op in seq:
            if op[0] == "attr":
                setattr(c, op[1], op[2])
                p[op[1]] = op[2]
            elif op[0] == "dict":
                c.scattering_params = dict(op[1])
                p.update(op[1])
            else:
                c.scattering_models = list(op[1])
                ms = op[1]
            key = (tuple(ms), tuple(sorted(p.items())))
            if key not in rates:
                rates[key] = np.asarray(ref.gamma(ms, p, r, k, v, dos_max))
                res.saw(rates[key])
            got = 1 / np.asarray(c.tau_tot_func(k[0], k[1], k[2], v[0], v[1], v[2]))
            if not res.close(got, rates[key], "rate after settings", lambda: "%s" % (seq,), rtol=1e-8):
                return


def make(bo, ms, p, way):
    other = {k: 1.5 * x + 0.3 for k, x in p.items()}
    if way == "constructor":
        return Conductivity(bo, 0, scattering_models=ms, scattering_params=p)
    c = Conductivity(bo, 0, scattering_models=ms, scattering_params=other)
    if way == "attribute":
        for k, x in p.items():
            setattr(c, k, x)
    elif way == "whole":
        c.scattering_params = dict(p)
    elif way == "part":
        ks = sorted(p)
        c.scattering_params = {k: p[k] for k in ks[:3]}
        c.scattering_params = {k: p[k] for k in ks[3:]}
    elif way == "twice":
        c.scattering_params = dict(p)
        c.scattering_params = dict(other)
        c.scattering_params = dict(p)
    return c


def user(case, res, m, bo, r):
    class Mine(Conductivity):
        def rate_k(self, kx, ky, kz):
            return self.u0 * (1.1 + np.sin(self.bandObject.a * kx) * np.cos(kz) + 0.2 * ky)

        def rate_v(self, vx, vy, vz):
            return self.u1 * (1 + (vx ** 2 + 2 * vy ** 2 + 3 * vz ** 2) * 1e-11)

        def rate_e(self, epsilon):
            return self.u2 * (1 + epsilon ** 2)

        # what a rate calls its own variables is nobody's business
        def rate_k_local(self, kx, ky, kz):
            vx = kx * self.bandObject.a
            epsilon = 0.5 * self.u0
            return self.u0 + epsilon * np.abs(np.sin(vx)) + 0 * kz

        def rate_v_local(self, vx, vy, vz):
            epsilon = 1e-5 * np.abs(vx)
            return self.u1 + epsilon
    p = dict(PSETS[0], u0=2.0, u1=5.0, u2=0.7)
    names = ["rate_k", "rate_v", "rate_e", "isotropic", "cos2phi", "rate_k_local", "rate_v_local"]
    k = points("far", bo, r)
    v = r.velocity(*k)
    own = {"rate_k": 2.0 * (1.1 + np.sin(m["a"] * k[0]) * np.cos(k[2]) + 0.2 * k[1]),
           "rate_v": 5.0 * (1 + (v[0] ** 2 + 2 * v[1] ** 2 + 3 * v[2] ** 2) * 1e-11),
           "rate_k_local": 2.0 + np.abs(np.sin(m["a"] * k[0])), "rate_v_local": 5.0 + 1e-5 * np.abs(v[0])}
    for d in (1, 2, 3):
        for ms in itertools.permutations(names, d):
            c = Mine(bo, 0, scattering_models=list(ms), scattering_params=p)
            for eps in (None, 0, 3.0, -1.5):
                want = sum(own[n] if n in own else (0.7 * (1 + (eps or 0) ** 2) if n == "rate_e" else
                                                    ref.gamma([n], p, r, k, v)) for n in ms) + 0 * k[0]
                a = (k[0], k[1], k[2], v[0], v[1], v[2])
                tau = c.tau_tot_func(*a) if eps is None else c.tau_tot_func(*a, eps)
                res.close(1 / np.asarray(tau), want, "user models", "%s at level %s" % (ms, eps), rtol=1e-8)
                if eps is not None:
                    res.close(1 / np.asarray(c.tau_tot_func(*a, epsilon=eps)), want, "user models", "%s at level %s" % (ms, eps), rtol=1e-8)
                res.saw(want)
