"""Independent reference models: written from the documented physics, sharing
no code with the code under test."""
import numpy as np
from numpy import pi
from scipy.constants import electron_mass, elementary_charge, hbar, Boltzmann

MEV = elementary_charge * 1e-3
ANG = 1e-10
PS = 1e-12
KB = Boltzmann / MEV
E0 = elementary_charge

_NS = {k: getattr(np, k) for k in ("cos", "sin", "tan", "exp", "sqrt", "log", "cosh", "sinh", "tanh", "pi")}


class Band:
    """E(k) in meV, evaluated by Python from the model string; exact gradient
    by a complex step."""
    def __init__(self, a, b, c, energy_scale, band_params, band_model, number_of_bz=1, k_max=(pi, pi, pi), **_):
        self.a, self.b, self.c = a, b, c
        self.es = energy_scale
        self.params = dict(band_params)
        self.code = compile(band_model, "model", "eval")
        self.nbz = number_of_bz
        self.k_max = list(k_max)

    def energy(self, kx, ky, kz):
        ns = dict(_NS)
        ns.update({k: v * self.es for k, v in self.params.items()})
        ns.update(a=self.a, b=self.b, c=self.c, kx=kx, ky=ky, kz=kz)
        return eval(self.code, {"__builtins__": {}}, ns) + 0 * (kx + ky + kz)

    def grad(self, kx, ky, kz):
        h = 1e-25
        kx, ky, kz = [np.asarray(x, dtype=float) for x in np.broadcast_arrays(kx, ky, kz)]
        return np.stack([np.imag(self.energy(kx + 1j * h, ky + 0j, kz + 0j)) / h,
                         np.imag(self.energy(kx + 0j, ky + 1j * h, kz + 0j)) / h,
                         np.imag(self.energy(kx + 0j, ky + 0j, kz + 1j * h)) / h])

    def velocity(self, kx, ky, kz):
        """m/s"""
        return self.grad(kx, ky, kz) * MEV * ANG / hbar

    def axes(self, res):
        lat = (self.a, self.b, self.c)
        return [np.linspace(-self.k_max[i] / lat[i], self.k_max[i] / lat[i], res[i]) for i in range(3)]

    def grid(self, res):
        ax = self.axes(res)
        K = np.meshgrid(*ax, indexing="ij")
        return self.energy(*K), K, ax

    def filling(self, res):
        e, _, _ = self.grid(res)
        return 2.0 * np.count_nonzero(e <= 0) / e.size / self.nbz

    def filling_per_kz(self, res):
        e, _, _ = self.grid(res)
        return 2.0 * np.count_nonzero(e <= 0, axis=(0, 1)) / (e.shape[0] * e.shape[1]) / self.nbz

    def gap(self, res):
        """Smallest |E| on the grid: ties decide nothing when it is > 0."""
        e, _, _ = self.grid(res)
        return np.min(np.abs(e))


def odd(res):
    return [r if r % 2 else r + 1 for r in res]


def b_vector(B, phi, theta):
    t, p = theta * pi / 180, phi * pi / 180
    return B * np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])


# ---------------------------------------------------------------- scattering
def fold(k, a):
    """Equivalent wave vector in [-pi/a, pi/a)."""
    return (k + pi / a) % (2 * pi / a) - pi / a


def gamma(models, p, band, k, v, dos_max=None):
    """Sum of the documented rates, ps^-1."""
    kx, ky, kz = k
    phi = np.arctan2(fold(ky, band.b), fold(kx, band.a))
    tot = 0.0 * (kx + ky + kz)
    for m in models:
        if m == "isotropic":
            tot = tot + p["gamma_0"]
        elif m == "cos2phi":
            tot = tot + p["gamma_k"] * np.abs(np.cos(2 * phi)) ** p["power"]
        elif m == "cos2phi_coskz":
            tot = tot + p["gamma_k"] * np.abs(np.cos(2 * phi)) ** p["power"] * np.abs(np.cos(band.c * kz / 2)) ** p["power_z"]
        elif m == "sin2phi":
            tot = tot + p["gamma_k_sin"] * np.abs(np.sin(2 * phi)) ** p["power_sin"]
        elif m == "gamma_dos_func":
            d = 1 / (hbar * np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2))
            tot = tot + p["gamma_dos_max"] * d / dos_max
        else:
            raise KeyError(m)
    return tot


# -------------------------------------------------------------------- orbits
def orbits(band, k0, B, times, sub=None):
    """dk/ds = +(e/hbar) v x B for s = -t >= 0 (backwards in time, electrons),
    classical RK4; k in 1/Angstrom, s in ps.  Returns (3, n, len(times))."""
    f = E0 * PS * ANG / hbar
    def rhs(k):
        v = band.velocity(k[0], k[1], k[2])
        return f * np.stack([v[1] * B[2] - v[2] * B[1], v[2] * B[0] - v[0] * B[2], v[0] * B[1] - v[1] * B[0]])
    k = np.array(k0, dtype=float)
    out = np.empty(k.shape + (len(times),))
    out[..., 0] = k
    for i in range(1, len(times)):
        h = times[i] - times[i - 1]
        n = sub or 1
        hh = h / n
        for _ in range(n):
            k1 = rhs(k)
            k2 = rhs(k + 0.5 * hh * k1)
            k3 = rhs(k + 0.5 * hh * k2)
            k4 = rhs(k + hh * k3)
            k = k + hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        out[..., i] = k
    return out


UNITS = 2 * E0 ** 2 / (2 * pi) ** 3 * PS / ANG ** 2


def sigma_zero_field(band, kf, dkf, gam):
    """(S/m) from points and weights: 2e^2/(2pi)^3 sum dA/(hbar|v|) v v tau."""
    v = band.velocity(*kf)
    w = dkf / (hbar * np.sqrt((v ** 2).sum(0)))
    return UNITS / band.nbz * np.einsum("n,in,jn,n->ij", w, v, v, 1 / gam)


def sigma_field(band, kf, dkf, B, times, gammafunc, sub=1):
    """Chambers integral on the given time samples: left sum of
    v(t) exp(-int gamma) dt, exponent summed at the end of each step."""
    k = orbits(band, kf, B, times, sub)
    v = band.velocity(k[0], k[1], k[2])
    g = gammafunc(k, v)
    dt = times[1] - times[0]
    ex = np.zeros_like(g)
    ex[:, 1:] = np.cumsum(g[:, 1:], axis=1) * dt
    vbar = (v * np.exp(-ex)).sum(-1) * dt
    w = dkf / (hbar * np.sqrt((v[..., 0] ** 2).sum(0)))
    return UNITS / band.nbz * np.einsum("n,in,jn->ij", w, v[..., 0], vbar), k, v, g, ex


# ------------------------------------------------- surface by tetrahedra
_TETS = [(0, 1, 3, 7), (0, 1, 5, 7), (0, 2, 3, 7), (0, 2, 6, 7), (0, 4, 5, 7), (0, 4, 6, 7)]


def surface_triangles(e, ax):
    """Triangulated zero set of grid values by marching tetrahedra (Kuhn
    subdivision): array (n,3,3) of corners."""
    X = np.stack(np.meshgrid(*ax, indexing="ij"), -1)
    corner = [(i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    n0, n1, n2 = e.shape
    ev, xv = [], []
    for i, j, k in corner:
        sl = (slice(i, n0 - 1 + i), slice(j, n1 - 1 + j), slice(k, n2 - 1 + k))
        ev.append(e[sl].ravel())
        xv.append(X[sl].reshape(-1, 3))
    ev, xv = np.array(ev), np.array(xv)
    tris = []

    def cut(a, b, m):
        ea, eb = ev_t[a][m], ev_t[b][m]
        t = ea / (ea - eb)
        return xv_t[a][m] + t[:, None] * (xv_t[b][m] - xv_t[a][m])
    for tet in _TETS:
        ev_t = ev[list(tet)]
        xv_t = xv[list(tet)]
        ins = ev_t <= 0
        code = ins[0] * 1 + ins[1] * 2 + ins[2] * 4 + ins[3] * 8
        for c in range(1, 15):
            m = np.nonzero(code == c)[0]
            if not m.size:
                continue
            I = [q for q in range(4) if c >> q & 1]
            O = [q for q in range(4) if not c >> q & 1]
            if len(I) == 1 or len(O) == 1:
                s, rest = (I[0], O) if len(I) == 1 else (O[0], I)
                tris.append(np.stack([cut(s, r, m) for r in rest], 1))
            else:
                p = [cut(I[0], O[0], m), cut(I[0], O[1], m), cut(I[1], O[1], m), cut(I[1], O[0], m)]
                tris.append(np.stack([p[0], p[1], p[2]], 1))
                tris.append(np.stack([p[0], p[2], p[3]], 1))
    return np.concatenate(tris) if tris else np.zeros((0, 3, 3))


def tri_area_centroid(t):
    return np.linalg.norm(np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]), axis=1) / 2, t.mean(1)


# ----------------------------------------------------- contour of one slice
def slice_segments(e, x, y):
    """Segments of the zero set of e on a 2-d grid, by splitting every square
    into two triangles: array (n,2,2)."""
    segs = []
    n0, n1 = e.shape
    P = np.stack(np.meshgrid(x, y, indexing="ij"), -1)
    A, B, C, D = [(e[s], P[s]) for s in ((slice(0, n0 - 1), slice(0, n1 - 1)), (slice(1, n0), slice(0, n1 - 1)),
                                         (slice(1, n0), slice(1, n1)), (slice(0, n0 - 1), slice(1, n1)))]
    for tri in ((A, B, C), (A, C, D)):
        ev = [t[0].ravel() for t in tri]
        pv = [t[1].reshape(-1, 2) for t in tri]
        ins = [v <= 0 for v in ev]
        code = ins[0] * 1 + ins[1] * 2 + ins[2] * 4
        for c in range(1, 7):
            m = np.nonzero(code == c)[0]
            if not m.size:
                continue
            I = [q for q in range(3) if c >> q & 1]
            O = [q for q in range(3) if not c >> q & 1]
            s, rest = (I[0], O) if len(I) == 1 else (O[0], I)
            pts = []
            for r in rest:
                t = ev[s][m] / (ev[s][m] - ev[r][m])
                pts.append(pv[s][m] + t[:, None] * (pv[r][m] - pv[s][m]))
            segs.append(np.stack(pts, 1))
    return np.concatenate(segs) if segs else np.zeros((0, 2, 2))
