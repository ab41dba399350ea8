"""C01: the velocity is the exact gradient of the dispersion, for any model,
parameters, lattice, parameter order, input shape and edit history."""
import itertools, json, os, subprocess, sys
import numpy as np
from copy import deepcopy
from ..target import BandStructure, REPO
from ..models import M, NAMES, model
from .. import ref, core

PID = "C01"
LEVEL = "exploration"
RULE = ("every band model of the alphabet x every order of inserting its parameters (all permutations up to 4 "
        "parameters, all rotations/reversals/transpositions above) x every single edit and every ordered pair of edits "
        "(parameter set/zeroed/negated, whole dictionary replaced in another order, energy scale, lattice constants, "
        "unknown key, copy) x 5x5x4 wave vectors inside, on the border of and outside the zone in 7 array shapes; plus "
        "compiled (serial and parallel) builds.  Oracle: the model string evaluated by Python with complex-step "
        "derivatives.  Non-trivial = distinct digest of the energies and velocities judged.")
ASSUME = ["JIT-compiled and interpreted builds of the same function agree (checked on the compiled cases)",
          "models are analytic expressions of kx, ky, kz; no abs() or branches"]


# names whose order is easily got wrong: mixed case, digits of several
# lengths, one name a prefix of another
EXTRA = {
    "mixed": dict(band_model="-2*t*cos(a*kx) - 2*T*cos(b*ky) + Delta*cos(a*kx)*cos(b*ky) + M*sin(c*kz) + h*cos(c*kz) - mu"
                             " + Mu*sin(a*kx)",
                  band_params={"t": 1.0, "M": 0.31, "mu": -0.4, "Delta": 0.57, "T": 0.72, "h": -0.19, "Mu": 0.083},
                  a=3.6, b=4.2, c=8.8, energy_scale=95, k_max=[np.pi] * 3, number_of_bz=1),
    "numbered": dict(band_model="-2*t1*cos(a*kx) - 2*t2*cos(b*ky) - 2*t10*cos(c*kz) + t*cos(a*kx)*cos(b*ky) + t1z*sin(a*kx) + t_2*sin(b*ky) - mu",
                     band_params={"t1": 1.0, "t2": 0.63, "t10": 0.27, "t": 0.35, "t1z": 0.12, "t_2": -0.21, "mu": -0.5},
                     a=3.6, b=4.2, c=8.8, energy_scale=95, k_max=[np.pi] * 3, number_of_bz=1),
    # names that mean something to the formula parser
    "reserved": dict(band_model="-2*E*cos(a*kx) - 2*S*cos(b*ky) + beta*cos(a*kx)*cos(b*ky) + I*c*kz/5 + N*sin(a*kx)",
                     band_params={"S": 1.0, "E": 0.81, "beta": -0.4, "I": 0.37, "N": 0.22},
                     a=3.6, b=4.2, c=8.8, energy_scale=95, k_max=[np.pi] * 3, number_of_bz=1),
}
NAMES = NAMES + list(EXTRA)
_model = model


def model(n, **kw):
    return deepcopy(EXTRA[n]) if n in EXTRA else _model(n, **kw)


def kpoints(m):
    kx = np.array([0.0, 0.31, -0.77, 1.0, 1.63]) * np.pi / m["a"]
    ky = np.array([0.0, -0.23, 0.58, -1.0, 2.41]) * np.pi / m["b"]
    kz = np.array([0.0, 0.37, -1.0, 2.9]) * np.pi / m["c"]
    return np.meshgrid(kx, ky, kz, indexing="ij")


def orders(keys, tier):
    n = len(keys)
    if n <= 4 or (tier == "thorough" and n <= 5):
        return [list(p) for p in itertools.permutations(keys)]
    out = [list(keys), list(reversed(keys))]
    for r in range(1, n):
        out.append(keys[r:] + keys[:r])
    for i, j in itertools.combinations(range(n), 2):
        q = list(keys)
        q[i], q[j] = q[j], q[i]
        out.append(q)
    return out


def edits(m):
    keys = sorted(m["band_params"])
    ops = []
    for k in keys:
        ops += [["set", k, 0.417], ["set", k, 0], ["neg", k]]
    ops += [["dict", "sorted"], ["dict", "reversed"], ["dict", "rot"], ["escale", 37.5], ["escale", 1], ["escale", -22.0], ["a", 5.11], ["b", 2.93],
            ["c", 10.7], ["setfn", keys[0], 1.31], ["unknown"], ["copy"], ["disc"], ["fill"]]
    ops += [["nudge", q] for q in [keys[0], keys[-1], "a", "b", "c", "energy_scale"]]
    return ops


def apply(bo, m, op):
    """Apply the edit to the real object and to the expected parameters."""
    k = op[0]
    if k == "set":
        bo[op[1]] = op[2]
        m["band_params"][op[1]] = op[2]
    elif k == "neg":
        bo[op[1]] = -bo[op[1]]
        m["band_params"][op[1]] = -m["band_params"][op[1]]
    elif k == "setfn":
        bo.set_band_param(op[1], op[2])
        m["band_params"][op[1]] = op[2]
    elif k == "dict":
        keys = sorted(m["band_params"])
        if op[1] == "reversed":
            keys = keys[::-1]
        elif op[1] == "rot":
            keys = keys[2:] + keys[:2]
        new = {q: 0.19 + 0.23 * i - 0.11 * (i % 2) for i, q in enumerate(sorted(keys))}
        new = {q: new[q] for q in keys}
        bo.band_params = dict(new)
        m["band_params"] = dict(new)
    elif k == "escale":
        bo.energy_scale = op[1]
        m["energy_scale"] = op[1]
    elif k in ("a", "b", "c"):
        setattr(bo, k, op[1])
        m[k] = op[1]
    elif k == "nudge":          # as a numerical derivative does
        if op[1] in m["band_params"]:
            m["band_params"][op[1]] *= 1 + 3e-6
            bo[op[1]] = m["band_params"][op[1]]
        else:
            m[op[1]] *= 1 + 3e-6
            setattr(bo, op[1], m[op[1]])
    elif k == "disc":           # the object now holds a surface
        bo.resolution = [5, 5, 3]
        try:
            bo.discretize_fermi_surface()
        except (ValueError, RuntimeError):
            pass
    elif k == "fill":
        bo.update_filling(6, 5, 4)
    elif k == "unknown":
        bo["zzz"] = 3.0
    elif k == "copy":
        bo = deepcopy(bo)
    return bo


def cases(tier):
    out = []
    for n in NAMES:
        out.append({"kind": "shapes", "model": n})
    for n in NAMES:
        out.append({"kind": "siblings", "model": n})
    for n in ("cuprate", "lowsym", "free2d", "mixed") if tier != "thorough" else NAMES:
        out.append({"kind": "many", "model": n})
    for n in NAMES:
        out.append({"kind": "digits", "model": n})
    for n in NAMES:
        out.append({"kind": "edit1", "model": n})
    for n in NAMES:
        o = orders(list(model(n)["band_params"]), tier)
        for i in range(0, len(o), 6):
            out.append({"kind": "orders", "model": n, "orders": o[i:i + 6]})
    for n in NAMES:
        nops = len(edits(model(n)))
        for i in range(nops):
            out.append({"kind": "edit2", "model": n, "first": i})
    if tier == "thorough":
        for n in NAMES:
            nops = len(edits(model(n)))
            for i in range(nops):
                for j in range(nops):
                    out.append({"kind": "edit3", "model": n, "first": i, "second": j})
    for n in (NAMES if tier == "thorough" else ["cuprate", "lowsym", "free2d", "linear", "mixed"]):
        for par in (True, False):
            out.append({"kind": "jit", "model": n, "parallel": par})
    return out


def judge(res, bo, m, key, K=None):
    if m["band_params"].get("M") == 0 and m["band_params"].get("t") == 0:
        return  # sqrt(0): not differentiable
    r = ref.Band(**m)
    kx, ky, kz = K if K is not None else kpoints(m)
    keep = [np.array(x) for x in (kx, ky, kz)]
    e = bo.energy_func(kx, ky, kz)
    v = bo.velocity_func(kx, ky, kz)
    er = r.energy(kx, ky, kz)
    vr = r.velocity(kx, ky, kz)
    res.check(len(v) == 3, key, "velocity has %d components" % len(v))
    # a scale of the dispersion, for components that cancel
    sc = abs(m["energy_scale"]) * max(abs(x) for x in m["band_params"].values()) or 1.0
    vs = sc * max(m["a"], m["b"], m["c"]) * ref.MEV * ref.ANG / ref.hbar
    res.close(e, er, key + " energy", "E(k)", rtol=1e-10, atol=1e-11 * sc)
    for i in range(3):
        res.close(v[i], vr[i], key + " velocity " + "xyz"[i], "v_%s" % "xyz"[i], rtol=1e-9, atol=1e-11 * vs)
    for x, y, n in zip((kx, ky, kz), keep, "xyz"):
        res.check(np.array_equal(x, y), key + " input", "k%s was changed in place" % n)
    res.saw(m["band_params"], m["energy_scale"], np.asarray(e), np.asarray(v[0]), np.asarray(v[1]), np.asarray(v[2]))


def run_case(case, res):
    m = model(case["model"])
    kind = case["kind"]
    if kind == "shapes":
        for par in (True, False):
            bo = BandStructure(**m, parallel=par)
            K = kpoints(m)
            judge(res, bo, m, "grid")
            judge(res, bo, m, "1-d", [x.ravel() for x in K])
            judge(res, bo, m, "2-d", [x.reshape(20, 5) for x in K])
            judge(res, bo, m, "strided", [x.reshape(20, 5)[::3, ::-2] for x in K])
            judge(res, bo, m, "transposed", [x.reshape(20, 5).T for x in K])
            judge(res, bo, m, "single", [x.ravel()[37:38] for x in K])
            judge(res, bo, m, "empty", [x.ravel()[:0] for x in K])
            for i in (0, 37, 99):
                judge(res, bo, m, "scalar", [float(x.ravel()[i]) for x in K])
            # a slice at fixed kz, as the surface discretization asks for
            e = bo.energy_func(K[0][:, :, 0], K[1][:, :, 0], float(K[2][0, 0, 1]))
            res.close(e, ref.Band(**m).energy(K[0][:, :, 0], K[1][:, :, 0], float(K[2][0, 0, 1])), "slice energy", "E",
                      rtol=1e-10)
            # repeated evaluation is pure
            judge(res, bo, m, "again")
        if case["model"] in M and M[case["model"]].get("default_model"):
            d = {k: v for k, v in m.items() if k != "band_model"}
            judge(res, BandStructure(**d), m, "default model")
    elif kind == "many":        # as many wave vectors as one likes, in any shape
        bo = BandStructure(**m)
        for n in (4097, 50001, 131073, 262145) + ((1000003,) if case["model"] == "cuprate" else ()):
            i = np.arange(n)
            K = [(((i * q) % 8191) / 4095.5 - 1.0) * np.pi / m[x] for q, x in ((37, "a"), (101, "b"), (997, "c"))]
            judge(res, bo, m, "%d points" % n, K)
        judge(res, bo, m, "square of points", [x[:262144].reshape(512, 512) for x in K])
        judge(res, bo, m, "cube of points", [x[:262144].reshape(64, 64, 64) for x in K])
    elif kind == "digits":      # numbers in the formula, exactly as written
        if "band_model" not in m:
            return
        p = sorted(m["band_params"])[-1]
        for term in ("0.123456789012345*%s*cos(1.0123456789*a*kx)", "%s*cos(a*kx + b*ky)/3", "%s*cos(c*kz)*sqrt(2)/7", "1.00000001*%s*cos(b*ky)",
                     "(%s*1e-9 + 1e-9*%s)*kx", "%s*cos(a*kx/2)**3 - %s*cos(a*kx/2)**3*0.99999999", "123456789.123*%s*sin(c*kz)*1e-8"):
            for bz in ("", " + 2*0.7071067811865476*%s" % p):
                mm = deepcopy(m)
                mm["band_model"] += " + " + term.replace("%s", p) + bz
                judge(res, BandStructure(**mm), mm, "numbers of the formula: " + term)
    elif kind == "siblings":    # several bands of one formula side by side
        ps = sorted(m["band_params"])
        sib = []
        for extra in ({}, {"AA": 5.0}, {"zz": 7.0}, {"k0": 2.0}, {"AA": 1.0, "zz": 3.0}):
            for rev in (False, True):
                mm = deepcopy(m)
                p = dict(mm["band_params"], **extra)
                mm["band_params"] = {k: p[k] for k in sorted(p, reverse=rev)}
                if rev:
                    mm["a"], mm["c"] = 1.3 * mm["a"], 0.8 * mm["c"]
                sib.append((BandStructure(**mm), mm))
        # the same numbers, other names
        mm = deepcopy(m)
        import re
        ren = {k: "q%d" % (len(ps) - i) for i, k in enumerate(ps)}
        mm["band_model"] = re.sub(r"[A-Za-z_][A-Za-z_0-9]*", lambda g: ren.get(g.group(0), g.group(0)), mm["band_model"]) if "band_model" in mm else None
        if mm["band_model"]:
            mm["band_params"] = {ren[k]: v for k, v in m["band_params"].items()}
            sib.append((BandStructure(**mm), mm))
            # the same formula with the roles of two parameters exchanged
            mm = deepcopy(m)
            ren = {ps[0]: ps[-1], ps[-1]: ps[0]}
            mm["band_model"] = re.sub(r"[A-Za-z_][A-Za-z_0-9]*", lambda g: ren.get(g.group(0), g.group(0)), mm["band_model"])
            sib.append((BandStructure(**mm), mm))
        for turn in range(2):
            for j, (bo, mm) in enumerate(sib):
                judge(res, bo, mm, "one of several bands (%d)" % j)
    elif kind == "orders":
        for o in case["orders"]:
            mm = deepcopy(m)
            mm["band_params"] = {k: m["band_params"][k] for k in o}
            judge(res, BandStructure(**mm), m, "order " + ",".join(o))
    elif kind.startswith("edit"):
        ops = edits(m)
        pre = []
        if kind in ("edit2", "edit3"):
            pre.append(ops[case["first"]])
        if kind == "edit3":
            pre.append(ops[case["second"]])
        base = BandStructure(**m)
        for op in ops:
            mm = deepcopy(m)
            bo = deepcopy(base)
            for p in pre + [op]:
                bo = apply(bo, mm, p)
            judge(res, bo, mm, "after " + json.dumps(pre + [op]))
            for k, v in mm["band_params"].items():
                res.check(bo[k] == v and bo.get_band_param(k) == v, "read " + k, "%r != %r" % (bo[k], v))
    elif kind == "jit":
        jit_case(case, res, m)


def jit_case(case, res, m):
    env = dict(os.environ, NUMBA_DISABLE_JIT="0", NUMBA_NUM_THREADS="2", PYTHONPATH=core.VERIF,
               VERIF_REPO=REPO)
    try:
        p = subprocess.run([sys.executable, "-c", _JIT, json.dumps(case)], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=core.VERIF, timeout=350)
    except subprocess.TimeoutExpired:
        raise core.HarnessError("compiled build timed out")
    if p.returncode != 0:
        res.fail("compiled build", p.stderr.decode()[-500:])
        return
    out = json.loads(p.stdout.decode().strip().splitlines()[-1])
    for key, par, e, v in out:
        mm = deepcopy(m)
        mm["band_params"] = par
        r = ref.Band(**mm)
        K = kpoints(mm)
        res.close(e, r.energy(*K).ravel(), "compiled energy " + key, "E", rtol=1e-10)
        vr = r.velocity(*K)
        for i in range(3):
            res.close(v[i], vr[i].ravel(), "compiled velocity " + key, "v", rtol=1e-9, atol=1e-9 * np.max(np.abs(vr)))
        res.saw("jit", case["parallel"], e)


_JIT = """
import sys, json
import numpy as np
from mc.target import BandStructure
from mc.props.c01 import kpoints
from mc.props.c01 import model
case = json.loads(sys.argv[1])
m = model(case["model"])
bo = BandStructure(**m, parallel=case["parallel"])
K = [x.ravel() for x in kpoints(m)]
out = []
def rec(key):
    e = bo.energy_func(*K)
    v = bo.velocity_func(*K)
    out.append([key, dict(bo.band_params), list(map(float, e)), [list(map(float, np.asarray(c))) for c in v]])
rec("fresh")
k = sorted(m["band_params"])[-1]
bo[k] = 0.417
rec("edited")
bo.band_params = {q: 0.3 + 0.1 * i for i, q in enumerate(sorted(m["band_params"], reverse=True))}
rec("replaced")
print(json.dumps(out))
"""
