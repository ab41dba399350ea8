"""The alphabet of band structures every check draws from."""
from copy import deepcopy
from math import pi

CUPRATE = ("- mu - 2*t*(cos(a*kx) + cos(b*ky))- 4*tp*cos(a*kx)*cos(b*ky)"
           "- 2*tpp*(cos(2*a*kx) + cos(2*b*ky))- 2*tz*(cos(a*kx) - cos(b*ky))**2"
           "*cos(a*kx/2)*cos(b*ky/2)*cos(c*kz/2)")
M = {}


def _add(name, model, params, a=3.75, b=3.75, c=13.2, energy_scale=160, k_max=(1, 1, 1), **kw):
    M[name] = dict(name=name, band_model=model, band_params=params, a=a, b=b, c=c,
                   energy_scale=energy_scale, k_max=[pi * k for k in k_max],
                   number_of_bz=kw.pop("number_of_bz", 1), **kw)


# overdoped cuprate: one large hole-like sheet, warped along kz (default model)
_add("cuprate", CUPRATE, {"t": 1, "tp": -0.136, "tpp": 0.068, "tz": 0.07, "mu": -0.83},
     k_max=(1, 1, 2), default_model=True)
# same model, electron-like sheet around Gamma
_add("electron", CUPRATE, {"mu": -1.4, "t": 1, "tp": -0.2, "tpp": 0.03, "tz": 0.05}, k_max=(1, 1, 2))
# simple tetragonal
_add("tet", "-2*t*(cos(a*kx)+cos(b*ky)) - 2*tz*cos(c*kz) - mu", {"t": 1.0, "tz": 0.11, "mu": -0.7}, c=9.0)
# orthorhombic, a != b and tx != ty, closed pocket
_add("ortho", "-2*tx*cos(a*kx) - 2*ty*cos(b*ky) - 2*tz*cos(c*kz) - mu",
     {"ty": 0.6, "tx": 1.0, "mu": -1.313, "tz": 0.13}, a=3.2, b=4.7, c=8.1, energy_scale=120)
# orthorhombic lattice, open sheets
_add("q1d", "-2*tx*cos(a*kx) - 2*ty*cos(b*ky) - 2*tz*cos(c*kz) - mu",
     {"tx": 1.0, "ty": 0.12, "tz": 0.08, "mu": -0.313}, a=4.1, b=3.3, c=7.7, energy_scale=90)
# free electrons in two dimensions (no kz dependence)
_add("free2d", "h2*(kx**2+ky**2) - mu", {"h2": 1.0, "mu": 0.21}, energy_scale=3810.0)
# anisotropic three dimensional ellipsoid
_add("ell", "hx*kx**2 + hy*ky**2 + hz*kz**2 - mu", {"hx": 1.0, "hy": 0.6, "hz": 2.2, "mu": 0.05},
     a=4.0, b=4.6, c=6.5, energy_scale=3810.0)
# antiferromagnetically reconstructed band, several small pockets, two zones
_add("af", "-4*tp*cos(a*kx)*cos(b*ky) - 2*tpp*(cos(2*a*kx)+cos(2*b*ky)) - 2*tz*cos(c*kz)"
     "- sqrt(4*t**2*(cos(a*kx)+cos(b*ky))**2 + M**2 + t**2/1000) - mu",
     {"t": 1.0, "tp": -0.14, "tpp": 0.07, "tz": 0.03, "M": 0.6, "mu": -0.85}, number_of_bz=2)
# no inversion, no mirror, no rotation symmetry
_add("lowsym", "-2*tx*cos(a*kx) - 2*ty*cos(b*ky) - 2*tz*cos(c*kz) + s*sin(a*kx)*sin(b*ky)"
     "+ r*sin(a*kx)*cos(c*kz) + q*sin(b*ky)*sin(c*kz) + w*sin(c*kz) - mu",
     {"tx": 1.0, "ty": 0.8, "tz": 0.35, "s": 0.3, "r": 0.25, "q": 0.2, "w": 0.15, "mu": -1.1313},
     a=3.4, b=4.3, c=6.2, energy_scale=110)
# a constant velocity component
_add("linear", "h2*(kx**2+ky**2) + w*kz - mu", {"h2": 1.0, "w": 0.08, "mu": 0.21}, energy_scale=3810.0)
# two pockets of different size along kz in a reduced window
_add("pockets", "-2*t*(cos(a*kx)*cos(b*ky)) - 2*tz*cos(c*kz) + d*cos(a*kx) - mu",
     {"t": 1.0, "tz": 0.2, "d": 0.3, "mu": -1.213}, c=7.0, energy_scale=70)


def model(name, **over):
    """Constructor arguments (own copies), optionally with changes."""
    m = deepcopy(M[name])
    m.pop("name")
    m.pop("default_model", None)
    p = over.pop("params", None)
    if p:
        m["band_params"].update(p)
    m.update(over)
    return m


NAMES = list(M)
# one large sheet and four small pockets (figures only)
_add("mini", "-2*t*(cos(a*kx)+cos(b*ky)) + w*cos(a*kx)*cos(b*ky) - 2*tz*cos(c*kz) - mu",
     {"t": 0.1, "w": 1.0, "tz": 0.01, "mu": 0.2}, c=9.0)
