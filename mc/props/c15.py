"""C15: thermal averages."""
import numpy as np
from ..target import BandStructure, Conductivity
from ..models import model
from .. import ref, core, trans, snap

PID = "C15"
LEVEL = "exploration"
RULE = ("every band of a set x temperature x number of levels x cut-off x field x rate model (including user rates that depend "
        "on the level) x discretization: the level grid, then sigma, alpha and beta against sums of independently computed "
        "conductivities of the levels weighted with the Fermi window; the band is back at the Fermi level afterwards; each "
        "level's orbits start on that level.  Non-trivial = distinct tensor triple.")
ASSUME = ["the band is discretized at the Fermi level before the run (it fixes the time window)",
          "alpha and beta are defined at T > 0 only"]
BANDS = ["tet", "cuprate", "ortho", "lowsym", "electron", "q1d", "pockets"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for c in core.deviations(3 if T else 2, model=BANDS if T else BANDS[:5], T=[10, 2.5, 25, 0.3, 150, 0.04, 310], N=[5, 2, 8, 31], cut=[None, 0.05, 1e-5],
                             field=[(0, 0, 0), (45, 20, 30), (-20, 0, 90)], mods=["cos", "iso", "dos", "user"], msq=[False, True],
                             way=["constructor", "setters"], nbz=[None, 3]):
        if c["msq"] and c["model"] == "lowsym":
            continue
        out.append(c)
    for way in ("constructor", "setters"):      # many levels
        for m in ("tet", "ortho") if T else ("tet",):
            out.append(dict(model=m, T=10, N=151, cut=None, field=(0, 0, 0), mods="cos", msq=False, way=way, nbz=None))
    out.append({"kind": "levels"})
    for first in range(len(SET)):
        out.append({"kind": "set", "first": first, "depth": 4 if T else 3})
    return out


SET = [("T", 0), ("T", 0.04), ("T", 0.08), ("T", 10), ("T", 10.003), ("T", 10 * (1 + 1e-7)), ("T", 300), ("N_epsilon", 4), ("N_epsilon", 5), ("N_epsilon", 40),
       ("dfdE_cut_percent", 1e-3), ("dfdE_cut_percent", 1.0001e-3), ("dfdE_cut_percent", 1e-9)]


def settings(case, res):
    """The level grid after every sequence of settings."""
    import itertools
    bo = BandStructure(**model("tet", resolution=[3, 3, 3]))
    c0 = Conductivity(bo, 0, scattering_models=["isotropic"], scattering_params={"gamma_0": 5.0}, T=10)
    from copy import deepcopy
    for rest in itertools.product(SET, repeat=case["depth"] - 1):
        c = deepcopy(c0)
        s = {"T": 10, "N_epsilon": 20, "dfdE_cut_percent": 1e-3}
        for k, v in (SET[case["first"]],) + rest:
            setattr(c, k, v)
            s[k] = v
            res.check(getattr(c, k) == v, "setting", "%s reads %r" % (k, getattr(c, k)))
            if s["T"]:
                edge = 2 * ref.KB * s["T"] * np.arccosh(1 / np.sqrt(s["dfdE_cut_percent"]))
                if not res.close(c.epsilon_array, np.linspace(-edge, edge, s["N_epsilon"]), "level grid after settings", lambda: "%s then %s" % (SET[case["first"]], rest), rtol=1e-9):
                    return
                res.saw(s["T"], s["N_epsilon"], s["dfdE_cut_percent"])


class User(Conductivity):
    def by_level(self, epsilon):
        return self.lam * (1 + 0.02 * epsilon + 0.001 * epsilon ** 2)


def levels(res):
    """The level grid has as many levels as one likes."""
    bo = BandStructure(**model("tet", resolution=[5, 5, 5]))
    bo.runBandStructure()
    for N in (2, 3, 20, 64, 101, 128, 257, 513, 1001, 5000, 20001):
        for T in (0.1, 25, 290):
            for cut in (0.05, 1e-3, 1e-6):
                edge = 2 * ref.KB * T * np.arccosh(1 / np.sqrt(cut))
                kw = dict(scattering_models=["isotropic"], scattering_params={"gamma_0": 10.0})
                c = User(bo, 0, T=T, N_epsilon=N, dfdE_cut_percent=cut, **kw)
                d = User(bo, 0, T=7, **kw)
                d.N_epsilon, d.dfdE_cut_percent, d.T = N, cut, T
                for o, how in ((c, "constructor"), (d, "settings")):
                    res.close(o.epsilon_array, np.linspace(-edge, edge, N), "level grid of many levels", lambda: "%d levels, T = %g, cut %g, %s" % (N, T, cut, how), rtol=1e-9, atol=1e-12 * edge)
                    res.check(o.N_epsilon == N, "number of levels", "%d, %s" % (N, how))
                res.saw(N, T, cut)


def run_case(case, res):
    if case.get("kind") == "set":
        return settings(case, res)
    if case.get("kind") == "levels":
        return levels(res)
    T, N, cut = case["T"], case["N"], case["cut"]
    m = model(case["model"], resolution=[7, 7, 5], march_square=case["msq"])
    m["number_of_bz"] = case["nbz"] or m["number_of_bz"]
    bo = BandStructure(**m)
    bo.res_xy_rough = 161
    bo.runBandStructure()
    user = case["mods"] == "user"
    mods = ["isotropic", "by_level"] if user else trans.MODS[case["mods"]]
    sp = dict(trans.SP, lam=9.0)
    B, phi, th = case["field"]
    nt = 50
    kw = dict(scattering_models=mods, scattering_params=sp, rtol=1e-9, atol=1e-9, N_time=nt)
    if case["way"] == "constructor":
        if cut is not None:
            kw["dfdE_cut_percent"] = cut
        c = User(bo, B, phi, th, T=T, N_epsilon=N, **kw)
    else:
        c = User(bo, B, phi, th, T=3.3, **kw)
        c.N_epsilon = N
        if cut is not None:
            c.dfdE_cut_percent = cut
        c.T = T
    cut = 0.001 if cut is None else cut
    kT = ref.KB * T
    w = lambda x: 1 / (4 * kT) / np.cosh(x / (2 * kT)) ** 2
    eps = np.asarray(c.epsilon_array)
    edge = 2 * kT * np.arccosh(1 / np.sqrt(cut))
    res.close(eps, np.linspace(-edge, edge, N), "level grid", "levels", rtol=1e-9)
    res.close(-c.dfdE(0), w(0), "Fermi window", rtol=1e-9)
    res.close([-c.dfdE(x) for x in eps], w(eps), "Fermi window", rtol=1e-9)
    try:
        c.runTransport()
    except (ValueError, RuntimeError):
        g = ref.Band(**m).grid([7, 7, 5])[0]
        res.check(case["msq"] or g.min() > -edge or g.max() < edge, "run", "refused")
        return
    r = ref.Band(**m)
    k0 = np.asarray(bo.kf)
    def rate_of(kf, e):
        g = trans.rate(r, kf, [x for x in mods if x != "by_level"], sp)
        return (lambda k, v: g(k, v) + 9.0 * (1 + 0.02 * e + 0.001 * e * e)) if user else g
    g0 = rate_of(k0, 0.0)(k0, r.velocity(*k0))
    t = 8 / g0.min() / nt * np.arange(nt)
    S = np.zeros((3, 3)); A = np.zeros((3, 3)); Bt = np.zeros((3, 3))
    de = eps[1] - eps[0]
    f = BandStructure(**m)
    f.res_xy_rough = 161
    for e in eps:
        f.discretize_fermi_surface(epsilon=e)
        kf, dk = np.asarray(f.kf), np.asarray(f.dkf)
        g = rate_of(kf, e)
        if B == 0:
            s = ref.sigma_zero_field(r, kf, dk, g(kf, r.velocity(*kf)))
        else:
            s = ref.sigma_field(r, kf, dk, ref.b_vector(B, phi, th), t, g, sub=6)[0]
        S += de * w(e) * s
        A += de * w(e) * s * (e * ref.MEV) / T / (-ref.E0)
        Bt += de * w(e) * s * (e * ref.MEV) ** 2 / T / ref.E0 ** 2
    for name, got, want, mag in (("sigma", c.sigma, S, None), ("alpha", c.alpha, A, edge * ref.MEV / T / ref.E0 * np.abs(S).max()), ("beta", c.beta, Bt, None)):
        # alpha is a difference of large numbers: judged on their scale
        res.close(np.array(got), want, name, "thermal average", rtol=1e-6, atol=1e-7 * (mag or 0))
    for a, got, want in (("kf", c.bandObject.kf, bo.kf), ("vf", c.bandObject.vf, bo.vf), ("dkf", c.bandObject.dkf, bo.dkf), ("dos_k", c.bandObject.dos_k, bo.dos_k), ("n", c.bandObject.n, bo.n)):
        res.check(snap.same(got, want, 1e-10), "band after the run", "%s is not that of the Fermi level" % a)
    res.close([c.gamma_tot_max, c.gamma_tot_min], [g0.max(), g0.min()], "extreme rates", rtol=1e-8)
    again = np.array(c.sigma), np.array(c.alpha), np.array(c.beta)
    c.runTransport()
    for x, y, n in zip(again, (c.sigma, c.alpha, c.beta), ("sigma", "alpha", "beta")):
        res.close(np.array(y), x, "second run", n, rtol=1e-9)
    res.saw(S, A, Bt)
