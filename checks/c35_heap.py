import numpy as np
from vh import Check, quiet

from rainbow.util.heap import Heap

ck = Check("C35", "sequences of push/update/pop/emptiness queries over few or many keys with distinct, equal, repeated and identical priorities (floats, numpy floats, ints); "
                  "non-trivial: at least one update of a present key. One case = one history.")


def histories(ck):
    rng = ck.rng("hist")
    for k in range(ck.n(1500, 30000)):
        nkeys = int(rng.choice([1, 2, 3, 8, 40]))
        steps = int(rng.integers(1, 120))
        busy = k % 10 == 0                                     # long histories of updates, few of anything else
        if busy:
            steps = int(rng.integers(150, 500))
        kind = rng.integers(0, 4)
        pool = [float(x) for x in rng.integers(-3, 4, size=5)]

        def prio():
            if kind == 0:
                return float(rng.normal())
            if kind == 1:
                return pool[int(rng.integers(0, 5))]       # identical objects, many ties
            if kind == 2:
                return int(rng.integers(0, 6))             # interned ints, ties
            return np.float64(round(rng.normal(), 1)) * 1.0  # equal but distinct objects

        H = Heap()
        model = {}
        log = []
        updates = 0
        with ck.guard("queue.raises"):
            for _ in range(steps):
                c = rng.uniform() * (0.58 if busy else 1.0)
                if c < 0.45:
                    key, v = int(rng.integers(0, nkeys)), prio()
                    if key in model:
                        H.update(key, v)
                        updates += 1
                        log.append(("update", key, v))
                        ck.event("update_present")
                    else:
                        H.push(key, v)
                        log.append(("push", key, v))
                    model[key] = v
                elif c < 0.55 and model:
                    key, v = list(model)[int(rng.integers(0, len(model)))], prio()
                    if rng.uniform() < 0.5:
                        v = model[key]
                    (H.update if rng.uniform() < 0.5 else H.push)(key, v)
                    updates += 1
                    log.append(("update", key, v))
                    model[key] = v
                else:
                    got = H.pop()
                    log.append(("pop", got))
                    if not model:
                        ck.event("pop_empty")
                        ck.expect(got is None, "queue.empty_pop", "popped from an empty queue", got=got, log=log[-20:])
                    else:
                        ok = ck.expect(got in model, "queue.popped_is_present", "popped something not in the queue", got=got, log=log[-30:])
                        if not ok:
                            break
                        best = min(model.values())
                        ck.expect(model[got] == best, "queue.popped_is_smallest", "popped a larger priority than the smallest present", got=got, prio=model[got], best=best, log=log[-30:])
                        del model[got]
                ck.expect(bool(H) == bool(model), "queue.emptiness", "truth value disagrees with the contents", log=log[-30:])
            ck.case(dict(log=log[:40], n=len(log)), nontrivial=updates > 0)
            # drain: everything comes out exactly once in order
            out = []
            for _ in range(len(model) + 1):
                if not H:
                    break
                out.append(H.pop())
            ck.expect(sorted(map(repr, out)) == sorted(map(repr, model)), "queue.drain_exactly_once", "draining lost or repeated elements", out=out, left=model, log=log[-30:])
            if all(o in model for o in out):
                vs = [model[o] for o in out]
                ck.expect(all(a <= b for a, b in zip(vs, vs[1:])), "queue.drain_order", "", order=vs, log=log[-30:])
            ck.expect(H.pop() is None and not H, "queue.empty_pop")


def exhaustive_small(ck):
    """all sequences of a small alphabet up to a bounded length"""
    import itertools
    ops = [("put", 0, 1.0), ("put", 0, 2.0), ("put", 1, 1.0), ("put", 1, 0.0), ("pop",)]
    L = 7 if ck.thorough else 5
    for n in range(1, L + 1):
        for seq in itertools.product(range(len(ops)), repeat=n):
            H, model = Heap(), {}
            ck.evaluations += 1
            with ck.guard("queue.raises"):
                for o in seq:
                    op = ops[o]
                    if op[0] == "put":
                        H.push(op[1], op[2])
                        model[op[1]] = op[2]
                    else:
                        got = H.pop()
                        if model:
                            ck.expect(got in model and model[got] == min(model.values()), "queue.popped_is_smallest", "", seq=[ops[i] for i in seq], got=got)
                            model.pop(got, None)
                        else:
                            ck.expect(got is None, "queue.empty_pop", "", seq=[ops[i] for i in seq])
                    if bool(H) != bool(model):
                        ck.violate("queue.emptiness", "", seq=[ops[i] for i in seq])
    ck.event("small_histories_exhausted_up_to_length", L)


ck.require(update_present=500, pop_empty=50, **{"queue.popped_is_smallest": 1000})
with quiet():
    pass
ck.run(histories, exhaustive_small)
