"""C17: textbook limits of free carriers, against closed forms."""
import numpy as np
from numpy import pi
from scipy.linalg import expm
from ..target import BandStructure, Conductivity
from .. import ref, core

PID = "C17"
LEVEL = "exploration"
RULE = ("quadratic bands (isotropic and anisotropic masses, cylinder and ellipsoid, electrons and holes, one or two zones, several "
        "lattices and energy scales) x relaxation times x field vectors along and off the axes x temperatures x both ways of "
        "building the surface.  Zero field: n e^2 tau / m per axis.  Field: the Drude tensor of an anisotropic mass, evaluated on "
        "the code's own time samples by a matrix geometric series, so to solver accuracy.  Hall coefficient: sign and 1/(n e).  "
        "T > 0: Mott and Wiedemann-Franz.  Cyclotron product: e B tau / m on every point.")
ASSUME = ["the surface is polygonal: absolute conductivities are compared to 1.5 %, ratios to 1e-5",
          "Seebeck and heat coefficients with a wide energy window, to 1 %"]

# name: model, params, shape, lattice, energy scale
BANDS = {
    "cyl": ("h2*(kx**2+ky**2) - mu", dict(h2=1.0, mu=0.21), (4.0, 4.0, 9.0), 3810.0),
    "cylhole": ("mu - h2*(kx**2+ky**2)", dict(h2=0.7, mu=0.15), (4.0, 4.0, 9.0), 2000.0),
    "cylaniso": ("hx*kx**2+hy*ky**2 - mu", dict(hx=1.3, hy=0.5, mu=0.1), (3.6, 4.8, 7.0), 1500.0),
    "ell": ("hx*kx**2+hy*ky**2+hz*kz**2 - mu", dict(hx=1.0, hy=0.6, hz=2.2, mu=0.05), (4.0, 4.6, 6.5), 3810.0),
    "ellhole": ("mu - hx*kx**2-hy*ky**2-hz*kz**2", dict(hx=0.8, hy=0.8, hz=0.9, mu=0.1), (4.0, 4.0, 5.0), 2500.0),
}
FIELDS = [(45, 0, 0), (30, 0, 55), (45, 90, 90), (-20, 37, 28), (60, 200, -35), (0.2, 0, 0), (230, 15, 20), (1e-3, 50, 60)]


def cases(tier):
    T = tier == "thorough"
    out = []
    for b in BANDS:
        for msq in (False, True):
            if msq and b == "cylaniso":
                continue
            if msq and not b.startswith("cyl"):
                continue        # slices through the caps of an ellipsoid are crude
            for nbz in (1, 2):
                for g0 in ([2.0, 12.5, 300.0] if not T else [0.7, 2.0, 5.0, 12.5, 60.0]):
                    out.append({"kind": "field", "band": b, "msq": msq, "nbz": nbz, "g0": g0,
                                "fields": FIELDS if not T else FIELDS + [(10, 0, 0), (45, 0, 90), (45, 45, 60), (120, 10, 80)]})
            out.append({"kind": "wct", "band": b, "msq": msq, "g0s": [2.0, 1.0, 12.5, 0.01, 800.0], "Bs": [45, 10, 0.003, 400]})
    for b in ("cyl", "cylhole", "ell", "ellhole"):
        for temp in ([4, 40] if not T else [4, 8, 15, 40, 80]):
            out.append({"kind": "mott", "band": b, "T": temp, "B": 0})
    for temp in ([20] if not T else [5, 20, 60]):
        out.append({"kind": "mott", "band": "cyl", "T": temp, "B": 30})
    return out


def make(case, res):
    model, p, lat, es = BANDS[case["band"]]
    zcyl = case["band"].startswith("cyl")
    return BandStructure(band_model=model, band_params=dict(p), a=lat[0], b=lat[1], c=lat[2], energy_scale=es,
                         k_max=[pi, pi, pi], resolution=res, number_of_bz=case.get("nbz", 1), march_square=case.get("msq", False))


def facts(case):
    model, p, lat, es = BANDS[case["band"]]
    h = np.array([p.get("hx", p.get("h2", 0)), p.get("hy", p.get("h2", 0)), p.get("hz", 0.0)]) * es
    sgn = -1.0 if "hole" in case["band"] else 1.0
    inv_m = sgn * 2 * h * ref.MEV * ref.ANG ** 2 / ref.hbar ** 2          # 1/kg
    mu = p["mu"] * es
    if h[2] == 0:
        vol = pi * mu / np.sqrt(h[0] * h[1]) * 2 * pi / lat[2]            # A^-3
    else:
        vol = 4 * pi / 3 * mu ** 1.5 / np.sqrt(h.prod())
    n = 2 * vol / (2 * pi) ** 3 / 1e-30 / case.get("nbz", 1)
    return inv_m, n, mu, sgn


def run_case(case, res):
    inv_m, n, mu, sgn = facts(case)
    if case["kind"] == "field":
        bo = make(case, [41, 41, 5] if case["band"].startswith("cyl") else [41, 41, 41])
        bo.res_xy_rough = 201
        bo.runBandStructure(printDoping=False)
        if case["msq"]:
            nz = np.unique(np.round(bo.kf[2], 9)).size
            n = n * nz / (nz - 1)      # the known double weight of the end slices (C03)
        tau = 1 / case["g0"]
        c = Conductivity(bo, 0, 0, 0, N_time=200, rtol=1e-9, atol=1e-9, scattering_models=["isotropic"], scattering_params={"gamma_0": case["g0"]})
        c.runTransport()
        s0 = np.array(c.sigma)
        want = n * ref.E0 ** 2 * tau * 1e-12 * np.abs(inv_m)
        res.saw(s0)
        for i in range(3):
            res.close(s0[i, i], want[i], "zero-field Drude", "axis %d of %s" % (i, case), rtol=0.015)
        sc = np.max(np.abs(want))
        res.check(np.max(np.abs(s0 - np.diag(np.diag(s0)))) < 1e-3 * sc, "zero-field off-diagonal", lambda: repr(s0))
        for B, phi, th in case["fields"]:
            c.Bamp, c.Bphi, c.Btheta = B, phi, th
            c.runTransport()
            b = ref.b_vector(B, phi, th)
            # dv/ds = -A v with s = -t:  m dv/dt = -e v x b
            X = np.array([[0, b[2], -b[1]], [-b[2], 0, b[0]], [b[1], -b[0], 0]])     # v x b = X v
            A = -ref.E0 * inv_m[:, None] * X * 1e-12                                  # 1/ps
            dt = 8 * tau / 200
            q = expm(-A * dt) * np.exp(-dt / tau)
            G = np.zeros((3, 3))
            P = np.eye(3)
            for _ in range(200):
                G += P * dt
                P = P @ q
            res.close(c.sigma, s0 / tau @ G.T, "Drude tensor in a field", "B=%s phi=%s theta=%s" % (B, phi, th), rtol=1e-5)
            res.saw(c.sigma)
        # Hall coefficient, field along c
        if case["band"].startswith("cyl"):
            c.Bamp, c.Bphi, c.Btheta = 35, 0, 0
            c.N_time = 800
            c.runTransport()
            rho = np.linalg.inv(np.array(c.sigma)[:2, :2])      # E = rho j
            rh = rho[1, 0] / 35
            res.close(rh, -sgn / (n * ref.E0), "Hall coefficient", str(case), rtol=0.03)
            res.saw(rh)
    elif case["kind"] == "wct":
        for g0 in case["g0s"]:
            for B in case["Bs"]:
                bo = make(case, [21, 21, 5])
                bo.res_xy_rough = 101
                bo.runBandStructure(printDoping=False)
                c = Conductivity(bo, B, 0, 0, N_time=10, scattering_models=["isotropic"], scattering_params={"gamma_0": g0})
                c.runTransport()
                c.omegac_tau_func()
                kf = np.asarray(bo.kf)
                k = np.hypot(kf[0], kf[1])
                wx, wy = inv_m[0] * ref.hbar * kf[0] / ref.ANG, inv_m[1] * ref.hbar * kf[1] / ref.ANG
                wc = ref.E0 * B * np.hypot(wx, wy) / (ref.hbar * k / ref.ANG) * 1e-12     # 1/ps
                got = np.asarray(c.omegac_tau_k)
                m = k > 1e-4                     # the poles of an ellipsoid have no orbit
                if got.shape == wc.shape:
                    got, wc = got[m], wc[m]
                ok = got.shape == wc.shape and np.allclose(got, wc / g0, rtol=1e-6)
                if not ok and got.shape == wc.shape and np.allclose(got, wc * g0, rtol=1e-6):
                    res.check(False, "omegac tau multiplied by tau instead of divided", "gamma=%s B=%s: %.6g, expected %.6g" % (g0, B, got[0], wc[0] / g0))
                else:
                    res.check(ok, "omegac tau", lambda: "gamma=%s B=%s: %s, expected %s" % (g0, B, core.short(got), core.short(wc / g0)))
                res.saw(got)
    else:
        bo = make(case, [41, 41, 5] if case["band"].startswith("cyl") else [35, 35, 35])
        bo.runBandStructure(printDoping=False)
        kT = ref.KB * case["T"]
        g0 = 5.0
        # window out to |epsilon| about 15 kT; the cut-off formula of the code
        # takes a fraction of the maximum 1/(4kT)
        c = Conductivity(bo, case["B"], 0, 0, N_time=400, rtol=1e-8, atol=1e-8, T=case["T"], dfdE_cut_percent=1e-6, N_epsilon=41,
                         scattering_models=["isotropic"], scattering_params={"gamma_0": g0})
        c.runTransport()
        s, al, be = np.array(c.sigma), np.array(c.alpha), np.array(c.beta)
        res.saw(s, al, be)
        L0 = pi ** 2 / 3 * (ref.KB * ref.MEV / ref.E0) ** 2
        p = 1.0 if case["band"].startswith("cyl") else 1.5      # sigma ~ (mu +- eps)^p
        x = kT / mu
        axes = [0, 1] if case["band"].startswith("cyl") else [0, 1, 2]
        for i in axes:
            S = al[i, i] / s[i, i]
            S_mott = -sgn * pi ** 2 / 3 * (ref.KB * ref.MEV) ** 2 * case["T"] / ref.E0 * p / (mu * ref.MEV)
            corr = (0.02 if p == 1 else 0.08) + 20 * x ** 2
            if case["B"] == 0:
                res.close(S, S_mott, "Seebeck coefficient (Mott)", "axis %d of %s" % (i, case), rtol=corr)
            res.close(be[i, i] / s[i, i] / case["T"], L0, "Wiedemann-Franz", "axis %d of %s" % (i, case), rtol=0.01 + 20 * x ** 2)
        bo.runBandStructure(printDoping=False)
        c0 = Conductivity(bo, case["B"], 0, 0, N_time=400, rtol=1e-8, atol=1e-8, scattering_models=["isotropic"], scattering_params={"gamma_0": g0})
        c0.runTransport()
        for i in axes:
            res.close(s[i, i], c0.sigma[i, i], "thermal average of a linear sigma", "axis %d of %s" % (i, case), rtol=0.01 + 20 * x ** 2)
