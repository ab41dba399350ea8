"""C06: a band never shows a Fermi surface of other parameters."""
import os
import numpy as np
from copy import deepcopy
from .. import target
from ..target import BandStructure, bs
from ..models import model
from .. import ref, core, snap
from .. import explore as explorer
from ..explore import explore

PID = "C06"
LEVEL = "model_checking"
RULE = ("explicit-state exploration of the real BandStructure: from a new band, every sequence of edits (item assignment, "
        "set_band_param, whole dictionary, energy scale, unknown name, solving for a doping), discretizations at two levels, "
        "runs, fillings and derived quantities, breadth first, merged only on identical objects, to the depth bound or the "
        "fixpoint.  Model state: current parameters, level and grid last used; in every state every quantity the band shows "
        "is compared with a new band built from the model state and with the reference evaluator.  Second alphabet: edits of "
        "the geometry attributes between discretizations, runs and fillings, each of which must show what a new band with all "
        "present settings shows.")
ASSUME = ["edits of the public geometry attributes (a, b, c, k_max, resolution, number_of_bz, march_square, res_xy_rough) are not "
          "parameter edits: nothing is asked of what is shown until the next discretization, run or filling, which must use them"]

target.CAP = CAP = 24
if "VERIF_EXPLORE_BUDGET" not in os.environ:
    explorer.BUDGET = 60.0

ARR = ["kf", "vf", "dkf", "dks", "dkz", "dos_k", "mass", "dos_epsilon", "number_of_points_per_kz_list"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for n, msq in [("tet", False), ("tet", True), ("ortho", False), ("ortho", True), ("af", False), ("cuprate", True),
                   ("lowsym", False), ("pockets", False)]:
        o = {"tet": "t", "ortho": "tx", "af": "M", "cuprate": "tp", "lowsym": "s", "pockets": "d"}[n]
        out.append({"model": n, "msq": msq, "par": o, "depth": 99 if T else 4})
    for n, msq in [("tet", False), ("tet", True), ("ortho", True), ("lowsym", False), ("af", False)]:
        o = {"tet": "t", "ortho": "tx", "af": "M", "lowsym": "s"}[n]
        out.append({"kind": "geo", "model": n, "msq": msq, "par": o, "depth": 99 if T else 5})
    return out


def absent(v):
    """Nothing, no points or no points on any slice."""
    return v is None or np.size(v) == 0 or (isinstance(v, (list, tuple)) and not any(v))


def alphabet(n, o, msq):
    base = model(n)["band_params"]
    mu = base["mu"]
    whole = dict(base, mu=mu + 0.1)
    ops = [["disc", 0.0], ["disc", 9.0], ["run", 0.0], ["disc", 1e5], ["fill"], ["dos"],
           ["item", "mu", mu + 0.1], ["item", "mu", mu], ["item", "mu", mu * (1 + 4e-6)], ["item", o, round(base[o] * 1.1, 6)], ["set", o, base[o]],
           ["whole", whole], ["scale", 1.1], ["scale", 1.0], ["scale", 1 + 1e-7], ["unknown"], ["solve", 0.4]]
    if msq:
        ops.append(["mass"])
    return ops


def geo(case, res):
    n = case["model"]
    m = model(n, resolution=[7, 7, 3], march_square=case["msq"])
    p = case["par"]
    q = round(1.1 * m["band_params"][p], 6)
    ops = [["disc", 0.0], ["run", 5.0], ["disc", 1e5], ["fill"], ["doping"],
           ["k_max", [2.5, 2.5, 6.0]], ["k_max", [np.pi, np.pi, 2 * np.pi]], ["resolution", [9, 9, 5]], ["resolution", [9, 9, 3]],
           ["a", 1.01 * m["a"]], ["c", 0.7 * m["c"]], ["number_of_bz", 3], ["item", q]]
    ops += [["march_square", not case["msq"]], ["res_xy_rough", 61]] if n in ("tet", "ortho") else []
    memo = {}

    def fresh(s):
        k = snap.state(s)
        if k not in memo:
            d = dict(m, **{x: s[x] for x in s if x not in ("item", "res_xy_rough")})
            d["band_params"] = dict(m["band_params"], **{p: s["item"]})
            f = BandStructure(**d)
            f.res_xy_rough = s["res_xy_rough"]
            memo[k] = f, d
        return memo[k]

    def apply(b, g, op):
        k = op[0]
        g["op"] = None
        try:
            if k == "disc":
                b.discretize_fermi_surface(epsilon=op[1])
            elif k == "run":
                b.runBandStructure(epsilon=op[1])
            elif k == "fill":
                g["got"] = b.update_filling(20, 18, 8)
            elif k == "doping":
                g["got"] = b.doping(20, 18, 8)
            elif k == "item":
                b[p] = op[1]
                g["s"]["item"] = op[1]
            else:
                setattr(b, k, deepcopy(op[1]))
                g["s"][k] = deepcopy(op[1])
                if k == "a" and n == "tet":     # both axes of a square lattice
                    b.b = g["s"]["b"] = op[1]
        except (ValueError, RuntimeError):
            for a in ARR:
                v = getattr(b, a)
                res.check(absent(v), "stale " + a, lambda: "present after %s was refused, with %s" % (op, g["s"]))
            return g
        if k in ("disc", "run", "fill", "doping"):
            g["op"] = op
        return g

    def judge(b, g, path):
        if g["op"] is None:
            return
        w = lambda: "after %s" % path
        k = g["op"][0]
        s = g["s"]
        f, d = fresh(s)
        if k in ("disc", "run"):
            key = snap.state([s, "fs", g["op"]])
            if key not in memo:
                f.discretize_fermi_surface(epsilon=g["op"][1])
                memo[key] = {a: deepcopy(getattr(f, a)) for a in ARR + ["p", "n"]}
                res.saw(f.kf)
            for a in ("kf", "vf", "dkf", "dos_k") + (("dks", "dkz", "number_of_points_per_kz_list") if s["march_square"] else ()):
                v = getattr(b, a)
                res.check(snap.same(v, memo[key][a], 1e-9), "present settings: " + a, lambda: "%s: differs from a new band with %s" % (w(), s))
        grid = [20, 18, 8] if k in ("fill", "doping") else [min(CAP, 10 * x) for x in s["resolution"]] if k == "run" else None
        if grid:
            key = snap.state([s, "n", grid])
            if key not in memo:
                memo[key] = ref.Band(**d).filling(grid)
            n0 = memo[key]
            res.close([b.n, b.p], [n0, 1 - n0], "present settings: filling", w, rtol=0, atol=1e-11)
            if k in ("fill", "doping"):
                res.close(g["got"], n0 if k == "fill" else 1 - n0, "present settings: returned filling", w, rtol=0, atol=1e-11)

    b = BandStructure(**m)
    b.res_xy_rough = 81
    s = {k: deepcopy(getattr(b, k)) for k in ("a", "b", "c", "k_max", "resolution", "number_of_bz", "march_square", "res_xy_rough")}
    s["item"] = m["band_params"][p]
    closed, k = explore(res, b, ops, apply, judge, case["depth"], dict(s=s, op=None, got=None))
    res.note_max("cases cut by the depth bound", 0 if closed else 1)
    res.note_max("states of a case", k)


def run_case(case, res):
    if case.get("kind") == "geo":
        return geo(case, res)
    n, msq = case["model"], case["msq"]
    m = model(n, resolution=[7, 7, 3], march_square=msq)
    ops = alphabet(n, case["par"], msq)
    es = m["energy_scale"]
    memo = {}
    fmemo = {}

    def filling(g, q):
        k = snap.state([g["params"], g["es"], list(q)])
        if k not in fmemo:
            fmemo[k] = ref.Band(**dict(m, band_params=g["params"], energy_scale=g["es"])).filling(q)
        return fmemo[k]

    def fresh(g):
        k = snap.state(g)
        if k not in memo:
            f = BandStructure(**dict(m, band_params=dict(g["params"]), energy_scale=g["es"]))
            f.res_xy_rough = 81
            if g["lev"] is not None:
                f.discretize_fermi_surface(epsilon=g["lev"])
                f.dos_epsilon_func()
                if msq:
                    f.mass_func()
            memo[k] = f
        return memo[k]

    def apply(b, g, op):
        k = op[0]
        try:
            if k == "disc":
                b.discretize_fermi_surface(epsilon=op[1])
                g["lev"] = op[1]
                g["must"] = True
            elif k == "run":
                b.runBandStructure(epsilon=op[1])
                g.update(lev=op[1], must=True, grid=[min(CAP, 10 * x) for x in b.resolution])
            elif k == "fill":
                b.update_filling(20, 18, 8)
                g["grid"] = [20, 18, 8]
            elif k in ("dos", "mass"):
                if g["lev"] is None or b.kf is None:
                    return None
                (b.dos_epsilon_func if k == "dos" else b.mass_func)()
                g[k] = True
            elif k == "unknown":
                before = snap.state(b)
                b["nosuchparameter"] = 3.0
                res.check("nosuchparameter" not in b.band_params, "unknown name", "was added")
                res.check(snap.state(b) == before, "unknown name", "the band changed")
            elif k == "solve":
                b.set_mu_to_doping(op[1], ptol=0.05)
                g["params"]["mu"] = b["mu"]
                g.update(lev=None, grid=None, must=False, dos=False, mass=False)
            else:
                old = dict(g["params"]), g["es"]
                if k == "item":
                    b[op[1]] = op[2]
                    g["params"][op[1]] = op[2]
                elif k == "set":
                    b.set_band_param(op[1], op[2])
                    g["params"][op[1]] = op[2]
                elif k == "whole":
                    d = dict(op[1])
                    b.band_params = d
                    d["mu"] = 77.0
                    g["params"] = dict(op[1])
                elif k == "scale":
                    b.energy_scale = es * op[1]
                    g["es"] = es * op[1]
                if old == (g["params"], g["es"]):
                    # set to what it was: erasing and keeping are both right
                    g.update(grid=None, must=False, dos=False, mass=False)
                else:
                    g.update(lev=None, grid=None, must=False, dos=False, mass=False)
            if k in ("disc", "run"):
                g.update(dos=False, mass=False)
        except (ValueError, RuntimeError):
            if k not in ("disc", "run"):
                return None
            # no surface there: none is to be seen
            g.update(lev=None, must=False, dos=False, mass=False)
        return g

    def judge(b, g, path):
        w = "after %s" % path
        if b.energy_scale != g["es"] or dict(b.band_params) != g["params"]:
            res.fail("parameters", "%s: %s %s" % (w, b.energy_scale, b.band_params))
            return
        for k, v in g["params"].items():
            res.check(b[k] == v and b.get_band_param(k) == v, "parameters", lambda: "%s: %s reads %r, set to %r" % (w, k, b[k], v))
        has = b.kf is not None
        if g["must"]:
            res.check(has, "missing surface", w)
        if g["lev"] is None:
            for a in ARR:
                v = getattr(b, a)
                res.check(absent(v), "stale " + a, lambda: "%s: present after a parameter edit" % w)
        else:
            f = fresh(dict(params=g["params"], es=g["es"], lev=g["lev"]))
            for a in ARR:
                v = getattr(b, a)
                if v is None or (not g["must"] and a.startswith("number") and len(v) == 0):
                    res.check(a in ("dks", "dkz", "mass", "dos_epsilon") or not g["must"], "missing " + a, w)
                    continue
                res.check(snap.same(v, getattr(f, a), 1e-9), "stale " + a, lambda: "%s: differs from a new band" % w)
        if g["lev"] is not None and has:
            if g["dos"]:
                res.check(b.dos_epsilon is not None, "missing dos_epsilon", w)
            if g["mass"]:
                res.check(b.mass is not None, "missing mass", w)
            r = ref.Band(**dict(m, band_params=g["params"], energy_scale=g["es"]))
            res.close(b.vf, r.velocity(*b.kf), "velocity", w, rtol=1e-9)
            # odd grid: the surface is inside the grid cells it cuts
            E = np.abs(r.energy(*b.kf) - g["lev"])
            h = max(x[1] - x[0] for x in r.axes(ref.odd(m["resolution"])))
            res.check(E.max() <= h * np.abs(r.grad(*b.kf)).sum(0).max(), "surface", lambda: "%s: off by %g meV" % (w, E.max()))
            res.saw(b.kf, b.dkf)
        if g["grid"] is None:
            # erased, or whatever is shown is right for the parameters now
            if b.n is not None or b.p is not None:
                ok = b.n is not None and b.p is not None and any(abs(b.n - filling(g, q)) < 1e-12 for q in ([20, 18, 8], [CAP] * 3, [min(CAP, 10 * x) for x in b.resolution])) and abs(b.p - 1 + b.n) < 1e-12
                res.check(ok, "stale filling", lambda: "%s: n=%r" % (w, b.n))
        else:
            if b.n is None:
                res.fail("missing filling", w)
            else:
                res.close([b.n, b.p], [filling(g, g["grid"]), 1 - filling(g, g["grid"])], "stale filling", w, rtol=0, atol=1e-11)

    b = BandStructure(**m)
    b.res_xy_rough = 81     # only the speed of the slice algorithm
    g = dict(params=dict(m["band_params"]), es=es, lev=None, grid=None, must=False, dos=False, mass=False)
    closed, n = explore(res, b, ops, apply, judge, case["depth"], g)
    res.note_max("cases cut by the depth bound", 0 if closed else 1)
    res.note_max("states of a case", n)
