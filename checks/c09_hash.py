import numpy as np
from vh import Check, small_hash_tables
import ref

from rainbow.geometry.aabb import AABB
from rainbow.geometry.spatial_hashing import HashGird, HashCell

ck = Check("C09", "histories of 1..6 frames with 1..120 insertions into cells -50..50 (few distinct cells, so cells are shared and re-used over frames with gaps), random table sizes and offset tables; "
                  "whole triangle sets hashed by their boxes; box pairs disjoint/touching/nested/with boundary; non-trivial: a cell is used twice.")


def grid(rng):
    with small_hash_tables():
        g = HashGird()
    if rng.uniform() < 0.5:
        g.set_hash_table_size(int(rng.choice([2, 3, 7, 50, 1000])))
    if rng.uniform() < 0.3:
        before = g.hash_table_size
        g.increment_hash_table_size(17)
        ck.expect(g.hash_table_size == before + 17, "size.increment", "the table size is not incremented by the given amount")
    return g


def histories(ck):
    rng = ck.rng("histories")
    for it in range(ck.n(150, 1500)):
        with ck.guard("insert.exception"):
            g = grid(rng)
        span = int(rng.choice([1, 2, 5, 50]))
        frame = int(rng.choice([0, 1, 1, 100]))
        model = {}
        first_frame = frame
        older = []
        ck.case(dict(span=span, first=frame, table=g.hash_table_size, it=it))
        for f in range(int(rng.integers(1, 6))):
            now = []
            for n in range(int(rng.integers(1, 40))):
                c = tuple(int(x) for x in rng.integers(-span, span + 1, size=3))
                item = (int(rng.integers(0, 30)), int(rng.integers(0, 4)), AABB(rng.normal(size=3), rng.normal(size=3) + 5))
                with ck.guard("insert.exception"):
                    h = g.get_prefect_hash_value(*c)
                    got = g.insert(*c, item[0], item[1], item[2], frame)
                    ck.expect(g.get_prefect_hash_value(*c) == h, "hash.deterministic", "the hash code of a cell changed")
                got = [(a, b, id(x)) for a, b, x in got]
                ck.event("insertions")
                same_cell = [x for x in now if x[0] == c]
                want = [(x[1][0], x[1][1], id(x[1][2])) for x in same_cell]
                present = [(x[1][0], x[1][1], id(x[1][2])) for x in now]
                stale = {id(x[1][2]) for x in older}
                ck.event("shared", len(want))
                for w in set(want):
                    ck.expect(got.count(w) >= want.count(w), "insert.missed", "an item inserted earlier in this frame into the same cell is not reported", cell=c, want=want, got=got)
                for w in got:
                    ck.expect(w[2] not in stale, "insert.stale", "an item of an earlier frame is reported", cell=c, got=got)
                    ck.expect(w[2] != id(item[2]), "insert.itself", "the inserted item is reported as its own neighbour", cell=c, got=got)
                    ck.expect(present.count(w) >= got.count(w), "insert.invented", "something is reported more often than it was inserted", cell=c, got=got)
                now.append((c, item))
            older += now
            frame += int(rng.choice([1, 1, 2, 10]))
            ck.event("frames")


def retained(ck):
    """results already handed out must not change when more items come in"""
    rng = ck.rng("retained")
    for it in range(ck.n(40, 300)):
        with ck.guard("insert.exception"):
            g = grid(rng)
            outs = []
            for n in range(8):
                out = g.insert(1, 2, 3, n, 0, AABB([0, 0, 0], [1, 1, 1]), 1)
                outs.append((out, [(a, b) for a, b, _ in out], n))
            ck.case(dict(kind="retained", it=it))
            for out, was, n in outs:
                ck.expect(was == [(i, 0) for i in range(n)] and [(a, b) for a, b, _ in out] == was, "insert.snapshot",
                          "a reported neighbour list is not exactly the earlier items, or changed after it was returned", got=[(a, b) for a, b, _ in out], was=was)


def cells(ck):
    rng = ck.rng("cells")
    for it in range(ck.n(100, 800)):
        c = HashCell()
        ref_stamp, ref_items = 0, []
        stamp = 0
        with ck.guard("cell.exception"):
            for n in range(int(rng.integers(1, 30))):
                stamp += int(rng.choice([0, 0, 1, 3]))
                c.add(n, stamp)
                if stamp > ref_stamp:
                    ref_stamp, ref_items = stamp, []
                ref_items.append(n)
                ck.expect(list(c.object_list) == ref_items and c.size == len(ref_items), "cell.add", "a cell does not hold exactly the items of its newest time stamp", got=list(c.object_list), want=ref_items)
        ck.case(dict(kind="cell", it=it, n=n))


def scene(ck):
    """the intended use: triangles of several bodies hashed by the cells their box covers find every overlapping pair"""
    rng = ck.rng("scene")
    for it in range(ck.n(25, 200)):
        with ck.guard("insert.exception"):
            g = grid(rng)
            X = rng.normal(size=(40, 3)) * 10.0 ** rng.uniform(-1, 1)
            T = np.array([rng.choice(40, 3, replace=False) for _ in range(30)])
            X = X[T].mean(1)[:, None, :] + 0.15 * (X[T] - X[T].mean(1)[:, None, :])
            want_size = 2.2 * np.mean([np.linalg.norm(t[a] - t[b]) for t in X for a, b in ((0, 1), (1, 2), (2, 0))])
            V, F = X.reshape(-1, 3), np.arange(90).reshape(30, 3)
            h = HashGird.compute_optial_cell_size(V, F)
            ck.close(h, want_size, "cell_size", "the cell size is not 2.2 times the mean edge length", tol=1e-12, scale=0)
            g.set_cell_size(h)
            ck.close(g.cell_size, h, "cell_size.set", "cell size not stored")
            ck.case(dict(kind="scene", it=it, h=h))
            for frame in (1, 2, 3):
                X = X + rng.normal(size=(30, 1, 3)) * h * 0.5
                boxes = [AABB.create_from_vertices(t) for t in X]
                found = set()
                for n in range(30):
                    lo = np.floor(boxes[n].min_point / h).astype(int)
                    hi = np.floor(boxes[n].max_point / h).astype(int)
                    for c in np.ndindex(*(hi - lo + 1)):
                        for m, b, box in g.insert(*(int(x) for x in lo + c), n, 0, boxes[n], frame):
                            if m != n and AABB.is_overlap(box, boxes[n]):
                                found.add((min(m, n), max(m, n)))
                want = set()
                for a in range(30):
                    for b in range(a):
                        if (X[a].max(0) >= X[b].min(0)).all() and (X[b].max(0) >= X[a].min(0)).all():
                            want.add((b, a))
                ck.event("scene_pairs", len(want))
                ck.expect(found == want, "scene.pairs", "hashing does not find exactly the pairs of overlapping boxes", missing=sorted(want - found)[:5], extra=sorted(found - want)[:5], frame=frame)


def boxes(ck):
    rng = ck.rng("boxes")
    for it in range(ck.n(1500, 12000)):
        k = rng.integers(0, 4)
        s = 10.0 ** rng.uniform(-2, 2)
        P, Q = rng.normal(size=(int(rng.integers(1, 5)), 3)), rng.normal(size=(int(rng.integers(1, 5)), 3))
        if k == 0:
            P, Q = np.round(P * 2), np.round(Q * 2)
        elif k == 1:
            Q = P[:1] + 0.3 * Q
        bd = float(rng.choice([0, 0, 0.25, 1.0]))
        if k == 3:                               # a hair apart or into each other, beside a boundary of any size
            bd = float(rng.choice([0, 0, 1e-8, 1e-5, 1e-3]))
            ax = int(rng.integers(3))
            Q = P[:1] + 0.3 * Q
            Q[:, ax] += P[:, ax].max() - Q[:, ax].min() + 2 * bd + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-11, -3)
        with ck.guard("aabb.exception"):
            A, B = AABB.create_from_vertices(P), AABB.create_from_vertices(Q.tolist() if k == 2 else Q)
            st = [A.min_point.copy(), A.max_point.copy(), B.min_point.copy(), B.max_point.copy()]
            o1, o2 = AABB.is_overlap(A, B, bd), AABB.is_overlap(B, A, boundary=bd)
            lo, hi = P.min(0).copy(), P.max(0).copy()
            C = AABB(lo, hi)
            lo -= 7.0
            hi += 7.0
            ck.expect(np.array_equal(C.min_point, P.min(0)) and np.array_equal(C.max_point, P.max(0)), "aabb.own", "a box changes with the arrays it was made from")
        ck.expect(np.array_equal(A.min_point, P.min(0)) and np.array_equal(A.max_point, P.max(0)), "aabb.tight", "a box is not the tight box of its points")
        ck.expect(all(np.array_equal(a, b) for a, b in zip(st, [A.min_point, A.max_point, B.min_point, B.max_point])), "aabb.untouched", "testing boxes changed them")
        gap = np.maximum(P.min(0) - Q.max(0), Q.min(0) - P.max(0)).max()
        exact = k == 0                       # integers and quarter boundaries: no rounding
        if exact or abs(gap - 2 * bd) > 1e-12 * (1 if k < 3 else 4):
            ck.expect(bool(o1) == bool(gap <= 2 * bd) and bool(o2) == bool(o1), "aabb.overlap", "box overlap (touching included, each box grown by the boundary) is wrong", gap=gap, boundary=bd, got=[o1, o2])
            ck.event("touching", int(gap == 2 * bd))
            ck.event("apart", int(gap > 2 * bd))
        ck.case(dict(kind="aabb", P=P, Q=Q, bd=bd))


ck.assumptions += ["time stamps never decrease, as in a simulation", "hash collisions may report items of other cells (callers compare boxes afterwards)"]
ck.require(insertions=2000, shared=500, frames=200, scene_pairs=50, touching=10, apart=100)
ck.run(histories, retained, cells, scene, boxes)
