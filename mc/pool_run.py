"""Run with numba on: the objective evaluated by a real pool of processes, in
several chunkings, against serial evaluations of new objects.  Prints JSON."""
import os, sys, json, tempfile, shutil
os.environ["NUMBA_DISABLE_JIT"] = "0"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, io
from multiprocessing import Pool


def main():
    kind = sys.argv[1]
    d = tempfile.mkdtemp(prefix="c22_")
    out = {}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            from mc import fitlib as fl
            if kind == "parallel1":
                dd, _ = fl.data(d)
                new = lambda: fl.parallel1(fl.member(fixdoping=float(sys.argv[2])), {"tz": [0.05, 0.3], "gamma_0": [5, 20], "mu": [-1, -0.4]}, dd)
                fun = lambda o: o.compute_diff2
            else:
                dd, _ = fl.data_multi(d, (25, 6))
                new = lambda: fl.parallelT({T: {"A": fl.member()} for T in (25, 6)},
                                           {"all": {"A": {"tz": [0.05, 0.3]}}, 25: {"A": {"gamma_0": [5, 20]}}, 6: {"A": {"mu": [-1, -0.4]}}}, dd)
                fun = lambda o: o.compute_fitness
            pts = [[a, b, c] for a in (7.0, 12.0) for b in (-0.8, -0.55) for c in (0.09, 0.21)]
            perm = {"parallel1": lambda a, b, c: dict(gamma_0=a, mu=b, tz=c)}.get(kind)
            o = new()
            names = list(o.free_pars_name) if kind == "parallel1" else ["tz", "gamma_0", "mu"]
            if kind != "parallel1":
                names = [l[2] for l in o.free_params_labels]
            X = [[dict(gamma_0=a, mu=b, tz=c)[n] for n in names] for a, b, c in pts]
            out["serial"] = [float(fun(new())(x)) for x in X]
            out["reused"] = [float(v) for v in map(fun(o), X)]
            for n in (1, 2, 3):
                for chunk in (1, 2, 3, 8):
                    with Pool(n) as pool:
                        out["pool %d, chunks of %d" % (n, chunk)] = [float(v) for v in pool.map(fun(o), X, chunksize=chunk)]
    finally:
        shutil.rmtree(d)
    sys.__stdout__.write("\nRESULT " + json.dumps(out) + "\n")


if __name__ == "__main__":
    main()
