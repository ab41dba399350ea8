"""Explicit-state exploration of real objects: breadth first over deep copies,
states merged only when everything the objects hold is identical."""
import os, time
from copy import deepcopy
from . import snap

# A change of the code may make states never repeat (a counter, say): stop
# then, and say so in the evidence, instead of running for ever.
BUDGET = float(os.environ.get("VERIF_EXPLORE_BUDGET", "15"))
START = time.time()


def budget():
    """All the cases together must fit as well."""
    return min(BUDGET, max(2.0, 12 * BUDGET - (time.time() - START)))


def explore(res, init, ops, apply, judge, depth, ghost0, max_states=10 ** 9):
    """init: real object (any deep-copyable); ops: list of operations;
    apply(obj, ghost, op) -> new ghost, runs op on obj in place;
    judge(obj, ghost, path) checks the object against the model state.
    Merging key: digest of the real object and the ghost.  Returns
    (closed, states): closed = fixpoint reached below the depth bound."""
    t0 = time.time()
    most = budget()
    key0 = snap.state([init, ghost0])
    seen = {key0}
    res.states.add(key0)
    layer = [(init, ghost0, [])]
    judge(init, ghost0, [])
    for d in range(depth):
        nxt = []
        for obj, g, path in layer:
            for op in ops:
                o2, g2 = deepcopy((obj, g))
                g3 = apply(o2, g2, op)
                res.transitions += 1
                if g3 is None:      # operation not enabled / refused
                    continue
                k = snap.state([o2, g3])
                if k in seen:
                    continue
                p2 = path + [op]
                judge(o2, g3, p2)
                if res.fails:
                    return False, len(seen)
                seen.add(k)
                res.states.add(k)
                res.traces += 1
                nxt.append((o2, g3, p2))
                if len(seen) >= max_states or time.time() - t0 > most:
                    return False, len(seen)
        layer = nxt
        if not layer:
            return True, len(seen)
    return False, len(seen)
