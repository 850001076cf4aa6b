import numpy as np
from vh import Check
import ref

import rainbow.geometry.kdop as KDOP
import rainbow.geometry.kdop_bvh as BVH

ck = Check("C08", "random triangle/tetrahedron/edge sets (1..60 primitives, clustered, flat, repeated, far from the origin) with every K in {3,4}, chunk sizes N=1..31 (odd), envelopes 0..; "
                  "histories of 1..5 moves each followed by a refit (with changing envelope); pairs of trees compared with brute force; non-trivial: at least two primitives in one tree.")

DIRS = {3: np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1.0]]), 4: np.array([[1, 1, 1], [1, 1, -1], [1, -1, 1], [1, -1, -1.0]])}


def prims(rng, m, arity):
    k = rng.integers(0, 5)
    base = rng.normal(size=(m, 1, 3)) * rng.choice([0.5, 2, 6])
    P = base + rng.normal(size=(m, arity, 3)) * rng.choice([0.05, 0.5])
    if k == 1:
        P[:, :, rng.integers(0, 3)] = 0.0
    elif k == 2:
        P = np.round(P)                       # touching boxes
    elif k == 3:
        P += rng.normal(size=3) * 1e4
    V = P.reshape(-1, 3)
    T = np.arange(m * arity).reshape(m, arity)
    if rng.uniform() < 0.4 and len(V) > 3:   # share vertices
        T = np.array([rng.choice(len(V), size=arity, replace=False) for _ in range(m)])
    return V, T


def brute(K, V, T, env):
    """(m,K,2) slabs of every primitive"""
    pr = V[T] @ DIRS[K].T                     # m, arity, K
    return np.stack([pr.min(1) - env, pr.max(1) + env], axis=-1)


def vol(kd):
    return np.array([[s.lower, s.upper] for s in kd.slabs])


def walk(ck, tree, K, V, T, env, tag):
    slabs = brute(K, V, T, env)
    mag = 1 + np.abs(slabs).max()
    try:
        tree.root.slabs, [(n.volume, n.start, n.end) for c in tree.chunks for n in c.nodes]
    except AttributeError:                    # other internal layout: the traversal results alone decide
        ck.event("layout_unknown")
        return slabs
    seen = []
    leaf_vols = {}
    depth_ok = True
    for sub in tree.chunks:
        nodes = sub.nodes

        def rec(i, depth):
            nonlocal depth_ok
            if depth > 64:
                depth_ok = False
                return []
            nd = nodes[i]
            ck.event("nodes_visited")
            if nd.start == nd.end:
                below = [nd.start]
                seen.append(nd.start)
                leaf_vols[nd.start] = vol(nd.volume)
            else:
                below = []
                for c in range(nd.start, nd.end + 1):
                    below += rec(c, depth + 1)
            b = np.array(below)
            v = vol(nd.volume)
            enc = (v[:, 0] <= slabs[b, :, 0].min(0) + 1e-12 * mag).all() and (v[:, 1] >= slabs[b, :, 1].max(0) - 1e-12 * mag).all()
            ck.expect(enc, tag + ".encloses", "a tree node does not enclose a primitive below it", node=v, below=below[:5])
            return below

        rec(0, 0)
    ck.expect(depth_ok, tag + ".acyclic", "a subtree does not end")
    ck.expect(sorted(seen) == list(range(len(T))), tag + ".leaves", "not every primitive occurs in exactly one leaf", leaves=sorted(seen)[:40], n=len(T))
    for p, v in leaf_vols.items():
        if 0 <= p < len(T):
            ck.close(v, slabs[p], tag + ".leaf_tight", "a leaf volume is not the tight volume of its primitive plus the envelope", tol=1e-11, scale=mag)
    r = vol(tree.root)
    ck.close(r, np.c_[slabs[:, :, 0].min(0), slabs[:, :, 1].max(0)], tag + ".root", "the root volume is not the volume of all primitives", tol=1e-11, scale=mag)
    return slabs


def compare(ck, A, B, sa, sb, tag):
    res = BVH.traversal(A, B)
    lo = np.maximum(sa[:, None, :, 0], sb[None, :, :, 0])
    hi = np.minimum(sa[:, None, :, 1], sb[None, :, :, 1])
    gap = (hi - lo).min(-1)                   # >=0: volumes overlap
    mag = 1 + max(np.abs(sa).max(), np.abs(sb).max())
    must = {(int(i), int(j)) for i, j in zip(*np.nonzero(gap > 1e-11 * mag))}
    may = {(int(i), int(j)) for i, j in zip(*np.nonzero(gap >= -1e-11 * mag))}
    got = [(int(i), int(j)) for i, j in res]
    ck.event("pairs_expected", len(must))
    ck.event("pairs_rejected", gap.size - len(may))
    ck.expect(must <= set(got), tag + ".missed", "the traversal misses an overlapping pair", missing=sorted(must - set(got))[:5], expected=len(must))
    ck.expect(set(got) <= may, tag + ".invented", "the traversal reports a pair whose volumes do not overlap", extra=sorted(set(got) - may)[:5])
    ck.expect(len(got) == len(set(got)), tag + ".duplicate", "the traversal reports a pair twice")


def trees(ck):
    rng = ck.rng("trees")
    for it in range(ck.n(160, 1500)):
        if ck.time_left() < 0:
            break
        K = int(rng.choice([3, 4]))
        N = int(rng.choice([1, 3, 5, 7, 9, 11, 15, 31, 63, 127]))
        data = []
        arity = int(rng.choice([2, 3, 3, 4]))
        for _ in range(2):
            m = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, int(rng.integers(1, 60))]))
            data.append(prims(rng, m, arity))
        if rng.uniform() < 0.5:               # bring B near A
            data[1] = (data[1][0] - data[1][0].mean(0) + data[0][0].mean(0) + rng.normal(size=3) * 0.5, data[1][1])
        env = float(rng.choice([0.0, 0.0, 0.01, 0.3]))
        env2 = float(rng.choice([env, 0.1]))
        ck.case(dict(K=K, N=N, m=[len(d[1]) for d in data], arity=arity, env=env, V=data[0][0][:2]), nontrivial=max(len(d[1]) for d in data) > 1)
        keep = [(V.copy(), T.copy()) for V, T in data]
        with ck.guard("bvh.exception"):
            tr = [BVH.make_bvh(V, T, K, N, e) for (V, T), e in zip(data, (env, env2))]
            sl = [walk(ck, t, K, V, T, e, "build") for t, (V, T), e in zip(tr, data, (env, env2))]
            compare(ck, tr[0], tr[1], *sl, "build")
            compare(ck, tr[1], tr[0], sl[1], sl[0], "build")
            compare(ck, tr[0], tr[0], sl[0], sl[0], "self")
            ck.expect(all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(data, keep)), "build.arguments_untouched", "building or traversing a tree changed the mesh")
            for step in range(int(rng.integers(1, 5))):
                w = int(rng.integers(0, 2))
                V, T = data[w]
                mode = rng.integers(0, 4)
                if mode == 0:
                    V = V + rng.normal(size=3) * 2
                elif mode == 1:
                    V = V @ ref.rand_rot(rng).T
                elif mode == 2:
                    V = V + rng.normal(size=V.shape) * 0.5
                else:
                    V = V * rng.uniform(0.05, 0.6)   # shrinking: stale volumes would be too big
                data[w] = (V, T)
                e = float(rng.choice([0.0, 0.02, 0.2]))
                BVH.refit_bvh(V, T, tr[w], K, e)
                ck.event("refits")
                sl[w] = walk(ck, tr[w], K, V, T, e, "refit")
                compare(ck, tr[0], tr[1], *sl, "refit")
                compare(ck, tr[1], tr[0], sl[1], sl[0], "refit")


def kdops(ck):
    rng = ck.rng("kdops")
    for K in (3, 4):
        with ck.guard("kdop.exception"):
            d = np.asarray(KDOP.get_direction_table(K), float)
        ck.close(d, DIRS[K], "kdop.directions", "the direction table changed")
    for it in range(ck.n(300, 3000)):
        K = int(rng.choice([3, 4]))
        A = rng.normal(size=(int(rng.integers(1, 6)), 3)) * 10.0 ** rng.uniform(-2, 3)
        B = rng.normal(size=(int(rng.integers(1, 6)), 3)) * 10.0 ** rng.uniform(-2, 3)
        if rng.uniform() < 0.4:
            A, B = np.round(A), np.round(B)
        env = float(rng.choice([0, 0, 0.5]))
        ck.case(dict(kind="kdop", K=K, A=A, B=B, env=env))
        with ck.guard("kdop.exception"):
            a, b = KDOP.make(K, A, env), KDOP.make(K, B, env)
            u = KDOP.union(a, b)
            ov, ov2 = KDOP.overlap(a, b), KDOP.overlap(b, a)
        sa, sb = brute(K, A, np.arange(len(A))[None], env)[0], brute(K, B, np.arange(len(B))[None], env)[0]
        mag = 1 + np.abs(sa).max() + np.abs(sb).max()
        ck.close(vol(a), sa, "kdop.make", "a volume is not tight around its points plus the envelope", tol=1e-12, scale=mag)
        ck.close(vol(u), np.c_[np.minimum(sa[:, 0], sb[:, 0]), np.maximum(sa[:, 1], sb[:, 1])], "kdop.union", "the union of two volumes is wrong", tol=1e-12, scale=mag)
        gap = (np.minimum(sa[:, 1], sb[:, 1]) - np.maximum(sa[:, 0], sb[:, 0])).min()
        if abs(gap) > 1e-11 * mag or (np.round(A) == A).all() and (np.round(B) == B).all():
            ck.expect(ov == (gap >= 0) and ov2 == ov, "kdop.overlap", "overlap of two volumes is wrong (touching counts as overlap)", gap=gap, got=[ov, ov2])
            ck.event("overlap_yes", int(gap >= 0))
            ck.event("overlap_touch", int(gap == 0))
    ck.expect_error(lambda: KDOP.overlap(KDOP.make(3, np.zeros((1, 3))), KDOP.make(4, np.zeros((1, 3)))), "kdop.mixed", "overlap of volumes with different directions did not fail")
    ck.expect_error(lambda: KDOP.union(KDOP.make(3, np.zeros((1, 3))), KDOP.make(4, np.zeros((1, 3)))), "kdop.mixed", "union of volumes with different directions did not fail")


ck.assumptions += ["the envelope is added to the projections onto the (unnormalised) slab directions, as kdop.make documents by its construction"]
ck.require(pairs_expected=2000, pairs_rejected=5000, refits=100, overlap_yes=20, overlap_touch=3)
ck.run(trees, kdops)
