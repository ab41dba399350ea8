"""Common set-ups of the transport checks."""
import numpy as np
from .target import BandStructure, Conductivity
from .models import model
from . import ref

SP = dict(gamma_0=12.6, gamma_k=63.8, power=4.0, power_z=2.0, gamma_k_sin=7.5, power_sin=3.0, gamma_dos_max=20.0)
MODS = {"iso": ["isotropic"], "cos": ["isotropic", "cos2phi"], "z": ["cos2phi_coskz", "isotropic"],
        "sin": ["sin2phi", "isotropic"], "dos": ["gamma_dos_func", "isotropic"],
        "all": ["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"]}
FIELDS = [(45, 0, 0), (45, 65, 50), (-30, 15, 65), (17, 200, -35), (45, 30, 90), (45, 45, 10), (60, 90, 90), (8, 300, 120), (45, 0, 40)]


def setup(name, res=(7, 7, 5), msq=False, eps=0.0, mods="iso", sp=None, field=(45, 0, 0), tight=True, run=True, **kw):
    m = model(name, resolution=list(res), march_square=msq)
    if name == "ell" and not msq and (not isinstance(mods, str) or mods in ("cos", "z", "sin", "all")):
        # the angle phi is undefined on the axis: keep the surface off it
        m["band_model"] = m["band_model"].replace("kx", "(kx - 0.31)").replace("ky", "(ky + 0.23)")
    for k, v in zip("abc", kw.pop("lat", None) or ()):
        m[k] = v
    if "scale" in kw:
        m["energy_scale"] = kw.pop("scale")
    if "params" in kw:
        m["band_params"].update(kw.pop("params"))
    bo = BandStructure(**m)
    bo.res_xy_rough = 201
    bo.discretize_fermi_surface(epsilon=eps)
    s = dict(SP)
    s.update(sp or {})
    if tight:
        kw.setdefault("rtol", 1e-9)
        kw.setdefault("atol", 1e-9)
    kw.setdefault("N_time", 60)
    B, phi, th = field
    c = Conductivity(bo, B, phi, th, scattering_models=MODS.get(mods, mods) if isinstance(mods, str) else mods,
                     scattering_params=s, **kw)
    r = ref.Band(**m)
    if run:
        c.runTransport()
    return m, bo, c, r, s


def rate(r, kf, mods, s):
    """Reference rate function of a surface (its points normalize the
    density-of-states rate)."""
    v0 = r.velocity(*kf)
    dmax = np.max(1 / (ref.hbar * np.sqrt((v0 ** 2).sum(0))))
    ms = MODS[mods] if isinstance(mods, str) else mods
    return lambda k, v: ref.gamma(ms, s, r, k, v, dmax)
