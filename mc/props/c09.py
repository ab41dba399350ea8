"""C09: the field vector always follows amplitude and angles."""
import os
import numpy as np
from ..target import BandStructure, Conductivity
from ..models import model
from .. import ref, core
from .. import explore as explorer
from ..explore import explore

PID = "C09"
LEVEL = "model_checking"
RULE = ("explicit-state exploration of the real Conductivity to the fixpoint over every order of the setters of amplitude, "
        "theta and phi (values include zero, negative, beyond one turn), attempts to write the vector, and runs; plus every "
        "constructor combination.  Model state: the three numbers.")
ASSUME = []
# the second of each is next to the first
if "VERIF_EXPLORE_BUDGET" not in os.environ:
    explorer.BUDGET = 150.0
AMP, THE, PHI = [45, 45.0001, -30.5, 0, 1e-3], [33, 33.0001, -70, 401, 0, 180, 90], [15, 15.00005, -45, 360.5, 0, 90, 180]
SP = {"gamma_0": 10.0}


def cases(tier):
    out = [{"kind": "init", "amp": a} for a in AMP + [7]]
    T = tier == "thorough"
    out += [{"kind": "seq", "model": n, "run": run, "n": (4 if run else 7) if T else (3 if run else 5)} for n in ("tet", "lowsym") for run in (False, True)]
    return out


def run_case(case, res):
    b = BandStructure(**model(case.get("model", "tet"), resolution=[5, 5, 3]))
    b.discretize_fermi_surface()
    if case["kind"] == "init":
        for t in THE + [12.5]:
            for p in PHI + [200]:
                c = Conductivity(b, case["amp"], p, t, scattering_models=["isotropic"], scattering_params=SP)
                look(res, c, (case["amp"], p, t), "constructor")
                c = Conductivity(b, Bamp=case["amp"], Bphi=p, Btheta=t, scattering_models=["isotropic"], scattering_params=SP)
                look(res, c, (case["amp"], p, t), "constructor, by name")
                res.state(case["amp"], p, t)
        c = Conductivity(b, case["amp"], scattering_models=["isotropic"], scattering_params=SP)
        look(res, c, (case["amp"], 0, 0), "constructor, default angles")
        return
    n = case["n"]
    ops = [["Bamp", v] for v in AMP[:n]] + [["Btheta", v] for v in THE[:n]] + [["Bphi", v] for v in PHI[:n]] + [["vector"], ["inplace"]]
    if case["run"]:
        ops = [o for o in ops if o[0] != "inplace" and o not in ([["Btheta", 90]])] + [["run"]]

    def apply(c, g, op):
        if op[0] == "run":
            c.runTransport()
        elif op[0] == "vector":
            try:
                c.B_vector = np.array([1.0, 2.0, 3.0])
            except AttributeError:
                pass
        elif op[0] == "inplace":
            c.B_vector      # reading has no effect
        else:
            setattr(c, op[0], op[1])
            g[op[0]] = op[1]
        return g

    def judge(c, g, path):
        look(res, c, (g["Bamp"], g["Bphi"], g["Btheta"]), "after %s" % path)
        res.check(c.Bamp == g["Bamp"] and c.Bphi == g["Bphi"] and c.Btheta == g["Btheta"], "values", "after %s" % path)
    c = Conductivity(b, 3.0, 5.0, 7.0, N_time=10, scattering_models=["isotropic"], scattering_params=SP)
    closed, _ = explore(res, c, ops, apply, judge, 40, dict(Bamp=3.0, Bphi=5.0, Btheta=7.0))
    res.note_max("cases cut by the depth bound", 0 if closed else 1)


def look(res, c, g, what):
    want = ref.b_vector(*g)
    res.close(c.B_vector, want, "field vector", "%s %s" % (what, g), rtol=1e-12, atol=1e-12 * abs(g[0]))
    res.close(np.linalg.norm(c.B_vector), abs(g[0]), "amplitude", "%s %s" % (what, g), rtol=1e-12)
    res.saw(want)
