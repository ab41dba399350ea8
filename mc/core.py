"""Explorer core: exhaustive enumeration of finite case spaces and operation
sequences on the real code, run in parallel, with replayable violations.

A check is a module mc.props.<id> with
    PID, LEVEL, RULE (str), ASSUME (list)
    cases(tier)   -> list of JSON-able case descriptors, simplest first; the
                     whole space named in RULE, never a sample of it
    run_case(c)   -> CaseResult
Nothing here is random: VERIF_SEED is recorded and otherwise unused.
"""
import os, sys, json, time, hashlib, traceback, signal, itertools, multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
CASE_TIMEOUT = 400


class Lazy:
    def __init__(self, f):
        self.f = f

    def __str__(self):
        return str(self.f())


class HarnessError(Exception):
    """The check itself cannot run (environment): exit 2, never a verdict."""


class CaseTimeout(BaseException):
    pass


class Res:
    """Result of one case."""
    def __init__(self):
        self.evals = 0          # executions of real code that were judged
        self.nontrivial = set() # digests of distinct judged observations
        self.fails = []         # (key, message)
        self.states = set()     # abstract states visited (model checking)
        self.transitions = 0    # operations of the real code executed and judged
        self.traces = 0         # model traces replayed against the real code
        self.notes = {}         # numeric maxima (worst observed deviation, ...)

    def fail(self, key, msg):
        if len(self.fails) < 20:
            self.fails.append((str(key), str(msg)[:600]))

    def check(self, cond, key, msg=""):
        self.evals += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def saw(self, *objs):
        self.nontrivial.add(digest(*objs))

    def state(self, *objs):
        self.states.add(digest(*objs))

    def note_max(self, name, val):
        val = float(val)
        if val == val and val > self.notes.get(name, float("-inf")):
            self.notes[name] = val

    def close(self, got, want, key, what="", rtol=1e-9, atol=0.0):
        """got and want have the same shape and agree to rtol*max|want|+atol; what may be a function."""
        if callable(what):
            what = Lazy(what)
        import numpy as np
        self.evals += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.fail(key, "%s: got %r, expected %r" % (what, short(got), short(want)))
            return False
        if g.shape != w.shape:
            self.fail(key, "%s: shape %s, expected %s" % (what, g.shape, w.shape))
            return False
        if w.size == 0:
            return True
        fin = np.isfinite(w)
        scale = np.max(np.abs(w[fin])) if fin.any() else 0.0
        with np.errstate(all="ignore"):
            d = np.where(g == w, 0.0, np.abs(g - w))
            d = np.where(np.isnan(g) & np.isnan(w), 0.0, d)
        bad = ~(d <= rtol * scale + atol)
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape) if d.shape else ()
            self.fail(key, "%s: got %.12g, expected %.12g at index %s (tolerance %.3g, %d of %d differ)" % (
                what, g[i], w[i], tuple(int(x) for x in i), rtol * scale + atol, int(bad.sum()), g.size))
            return False
        if scale:
            self.note_max("worst relative deviation", float(np.max(d)) / scale)
        return True


def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


def _canon(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        if o.dtype.kind == "f":
            with np.errstate(all="ignore"):
                o = np.array([float("%.6g" % v) for v in o.ravel()[:4000]]) + 0.0
        return "A%s%s" % (o.shape, hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest())
    if isinstance(o, float):
        return "%.6g" % o
    if isinstance(o, dict):
        return "{" + ",".join(_canon(k) + ":" + _canon(v) for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))) + "}"
    if isinstance(o, (list, tuple)):
        return "[" + ",".join(_canon(v) for v in o) + "]"
    return repr(o)


def digest(*objs):
    return hashlib.sha1("|".join(_canon(o) for o in objs).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ execution
_MOD = None


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(case):
    """Run one case of the loaded check; exceptions become violations."""
    import numpy as np
    res = Res()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    t0 = time.time()
    try:
        with np.errstate(all="ignore"), Quiet():
            _MOD.run_case(case, res)
    except (MemoryError, HarnessError) as ex:
        signal.alarm(0)
        return ("harness", "%s\n%s" % (ex, traceback.format_exc()), case, None, 0)
    except CaseTimeout:
        res.fail("timeout", "the case did not finish within %d s" % CASE_TIMEOUT)
    except OSError as ex:
        signal.alarm(0)
        import errno
        if ex.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
            return ("harness", "%s\n%s" % (ex, traceback.format_exc()), case, None, 0)
        res.fail("exception %s" % type(ex).__name__, traceback.format_exc()[-600:])
    except (Exception, SystemExit) as ex:
        res.fail("exception %s" % type(ex).__name__, traceback.format_exc()[-600:])
    finally:
        signal.alarm(0)
    return ("ok", None, case, res, time.time() - t0)


class Quiet:
    """The code under test prints a lot; keep stdout for verdicts."""
    def __enter__(self):
        import io
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        import warnings
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        self.w.__exit__(*a)


START = time.time()
LIMIT = 780.0       # seconds; the cases left over then are reported as unexplored


def _results(cases):
    serial = getattr(_MOD, "SERIAL", False) or NPROC == 1
    if serial:
        for c in cases:
            yield run_one(c)
        return
    n = min(NPROC, max(1, len(cases)))
    with mp.get_context("fork").Pool(n, maxtasksperchild=None) as pool:
        it = pool.imap(run_one, cases)
        while True:
            try:
                yield it.next(timeout=max(1.0, LIMIT - (time.time() - START)))
            except StopIteration:
                return
            except mp.TimeoutError:
                yield ("late", None, None, None, 0)
                return


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def main_check(mod, tier, replay=None):
    global _MOD
    _MOD = mod
    pid = mod.PID
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from . import explore
    global LIMIT
    if tier == "thorough":
        LIMIT = 5 * 3600.0
        if "VERIF_EXPLORE_BUDGET" not in os.environ:
            explore.BUDGET = 300.0
    if replay:
        with open(replay) as f:
            r = json.load(f)
        cases = [r["case"]]
    else:
        cases = mod.cases(tier)
    known = {k["key"]: k for k in load_known(pid)}
    known_seen = {}
    evals = transitions = traces = 0
    nontriv, states = set(), set()
    notes = {}
    viol = []
    slow = (0, None)
    ncases = 0
    late = False
    for kind, err, case, res, dt in _results(cases):
        if kind == "late":
            late = True
            break
        if kind == "harness":
            print("ERROR: the check could not run case %s\n%s" % (json.dumps(case, default=str), err))
            return 2
        ncases += 1
        evals += res.evals
        transitions += res.transitions
        traces += res.traces
        nontriv |= res.nontrivial
        states |= res.states
        for k, v in res.notes.items():
            notes[k] = max(notes.get(k, float("-inf")), v)
        if dt > slow[0]:
            slow = (dt, case)
        new = []
        for key, msg in res.fails:
            if key in known:
                known_seen.setdefault(key, []).append(case)
            else:
                new.append((key, msg))
        if new:
            viol.append((case, new))
            if replay is None and (len(viol) >= 25 or time.time() - START > LIMIT / 3):
                break
    wall = time.time() - t0
    level = mod.LEVEL
    samples = [cases[i] for i in sorted({0, len(cases) // 3, len(cases) // 2, len(cases) - 1})] if cases else []
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": samples,
        "cases": ncases,
        "exhaustive": len(viol) < 25 and not late and not notes.get("cases cut by the depth bound"),
        "slowest_case_s": round(slow[0], 2),
    }
    if level == "model_checking":
        cov.update(states=len(states), transitions=transitions,
                   traces_validated_against_impl=traces)
    if notes:
        cov["observed_extremes"] = {k: float("%.3g" % v) for k, v in sorted(notes.items())}
    if late:
        cov["cases_not_explored"] = len(cases) - ncases
    if known_seen:
        cov["known_findings_seen"] = {k: len(v) for k, v in known_seen.items()}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level,
          "coverage": cov, "assumptions": mod.ASSUME, "wall_s": round(wall, 2),
          "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s [%s]: %d cases, %d judged executions, %d distinct observations%s, %.1f s" % (
        pid, tier, ncases, evals, len(nontriv),
        ", %d states, %d transitions" % (len(states), transitions) if level == "model_checking" else "", wall))
    for key, cs in sorted(known_seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[key]["what"]))
    if not viol:
        if not replay and (evals == 0 or len(nontriv) < getattr(mod, "MIN_DISTINCT", 2)):
            print("ERROR: vacuous exploration")
            return 2
        return 0
    for n, (case, fails) in enumerate(viol[:5]):
        if replay:
            path = replay
        else:
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "case": case, "fails": fails,
                           "replay_cmd": "./check %s --replay %s" % (pid, path)}, f, indent=1, default=str)
        for key, msg in fails[:4]:
            print("  case %s\n    %s: %s" % (json.dumps(case, default=str)[:300], key, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if len(viol) >= 25:
        print("stopped after %d violating cases" % len(viol))
    return 1


# ------------------------------------------------------------- enumerations
def product(**dims):
    """All combinations, first value of each dimension = default, ordered by
    the number of deviations from the defaults (simplest first)."""
    names = list(dims)
    out = []
    for combo in itertools.product(*[range(len(dims[n])) for n in names]):
        dev = sum(1 for i in combo if i)
        out.append((dev, combo))
    out.sort()
    return [{n: dims[n][i] for n, i in zip(names, combo)} for _, combo in out]


def deviations(bound, **dims):
    """All combinations with at most `bound` dimensions off their default."""
    names = list(dims)
    out = []
    for k in range(bound + 1):
        for which in itertools.combinations(range(len(names)), k):
            for vals in itertools.product(*[range(1, len(dims[names[i]])) for i in which]):
                c = {n: dims[n][0] for n in names}
                for i, v in zip(which, vals):
                    c[names[i]] = dims[names[i]][v]
                out.append(c)
    return out


def sequences(alphabet, depth, mindepth=1):
    """All operation sequences up to the given depth, shortest first."""
    for d in range(mindepth, depth + 1):
        for s in itertools.product(alphabet, repeat=d):
            yield list(s)
