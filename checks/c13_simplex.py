import itertools

import numpy as np
from vh import Check
import ref

import rainbow.geometry.barycentric as B
import rainbow.geometry.tetrahedron as TET

ck = Check("C13", "random edges/triangles/tetrahedra of both orientations with sizes 1e-2..1e2, aspect ratios up to 1e3 and offsets up to 100 sizes; points inside, outside in every sign region, "
                  "on vertices/edges/faces; every pyramid resolution 2..12; non-trivial: non-degenerate simplex not axis aligned.")


def simplex(rng, n):
    """n points with bounded degeneracy"""
    while True:
        X = rng.normal(size=(n, 3))
        k = rng.integers(0, 5)
        if k == 0 and n > 2:
            X[-1] = X[:-1].mean(0) + rng.normal(size=3) * 10.0 ** rng.uniform(-3, 0)     # sliver
        elif k == 1:
            X = np.eye(3)[rng.permutation(3)][:min(n, 3)]
            X = np.r_[np.zeros((1, 3)), X][:n]
        elif k == 2:
            X = np.round(X * 3)
        M = (X[1:] - X[0])
        s = np.linalg.svd(M, compute_uv=False)
        if s[-1] > 1e-3 * s[0] and s[0] > 0.1:
            break
    size = 10.0 ** rng.uniform(-5, 3)
    return X * size + rng.normal(size=3) * size * rng.choice([0, 1, 100]), size, s[0] / s[-1]


def weights(rng, n):
    k = rng.integers(0, 5)
    w = rng.dirichlet(np.ones(n))
    if k == 0:
        w = rng.normal(size=n) * 2
    elif k == 1:
        w[rng.integers(0, n)] = 0
    elif k == 2:
        w = np.eye(n)[rng.integers(0, n)]
    elif k == 3:
        w[rng.integers(0, n)] *= -1
    if abs(w.sum()) < 0.1:
        w[0] += 1
    return w / w.sum()


FN = {2: (B.compute_barycentric_edge, B.is_inside_edge), 3: (B.compute_barycentric_triangle, B.is_inside_triangle), 4: (B.compute_barycentric_tetrahedron, B.is_inside_tetrahedron)}


def bary(ck):
    rng = ck.rng("bary")
    for it in range(ck.n(1500, 12000)):
        n = 2 + it % 3
        X, size, cond = simplex(rng, n)
        w = weights(rng, n)
        p = w @ X
        off = np.zeros(3)
        if n < 4 and rng.uniform() < 0.5:      # leave the line/plane orthogonally
            M = (X[1:] - X[0])
            u, s, vt = np.linalg.svd(M)
            off = vt[n - 1:].T @ rng.normal(size=4 - n) * size * 3
        f, inside = FN[n]
        keep = X.copy()
        tol = 1e-10 * cond * (1 + np.abs(X).max() / size)
        ck.case(dict(n=n, X=X, w=w, off=off))
        with ck.guard("barycentric.exception"):
            got = np.array(f(*X, p + off))
            ck.expect(np.array_equal(X, keep), "barycentric.untouched", "arguments changed")
            if not ck.expect(got.shape == (n,) and np.isfinite(got).all(), "barycentric.shape", "not %d finite coordinates" % n, got=got):
                continue
            ck.close(got, w, "barycentric.%d" % n, "barycentric coordinates do not reproduce the (projected) point", tol=tol, scale=1, X=X, p=p + off)
            ck.close(got.sum(), 1.0, "barycentric.sum", "barycentric coordinates do not sum to one", tol=tol + 1e-12)
            # linear fields are interpolated exactly
            g, c = rng.normal(size=3), rng.normal()
            ck.close(got @ (X @ g + c), p @ g + c, "barycentric.linear", "a linear field is not interpolated exactly", tol=tol * 10, scale=size + np.abs(X).max())
            if abs(w).min() > 100 * tol and (np.abs(w - 1) > 100 * tol).all():
                ck.expect(bool(inside(*got)) == bool((w > 0).all()), "inside.%d" % n, "a point is not classified by its coordinates", w=w, got=got)
                ck.event("inside_%d_%s" % (n, bool((w > 0).all())))
            # any numbering of the corners gives the permuted coordinates
            perm = list(rng.permutation(n))
            g2 = np.array(f(*X[perm], p + off))
            ck.close(g2, w[perm], "barycentric.numbering", "renumbering the corners does not renumber the coordinates", tol=tol, scale=1)


def inside_exact(ck):
    """classification of explicitly given coordinates"""
    rng = ck.rng("inside")
    for it in range(ck.n(600, 5000)):
        n = 2 + it % 3
        w = weights(rng, n)
        if abs(w).min() < 1e-6 or abs(w - 1).min() < 1e-6:
            continue
        with ck.guard("inside.exception"):
            ck.expect(bool(FN[n][1](*w)) == bool((w > 0).all()), "inside.given", "explicit coordinates are classified wrongly", w=w)
            bad = w.copy()
            bad[rng.integers(0, n)] += rng.choice([-1, 1]) * rng.uniform(1.5, 3)      # one coordinate leaves [0,1]
            ck.expect(not FN[n][1](*bad), "inside.given_outside", "coordinates outside [0,1] are accepted", w=bad)
            ck.expect(all(FN[n][1](*e) for e in np.eye(n)), "inside.corners", "a corner is not part of its simplex")
            ck.expect(bool(FN[n][1](*np.full(n, 1 / n))), "inside.centre", "the centre is not inside")
        ck.case(dict(kind="given", w=w))


def tets(ck):
    rng = ck.rng("tets")
    for it in range(ck.n(500, 5000)):
        X, size, cond = simplex(rng, 4)
        if it % 8 == 0:                          # flat ones
            X = rng.normal(size=(4, 3))
            X[-1] = rng.dirichlet(np.ones(3)) @ X[:-1] + rng.normal(size=3) * 10.0 ** rng.uniform(-4.5, -2.5)
            s = np.linalg.svd(X[1:] - X[0], compute_uv=False)
            size, cond = 10.0 ** rng.uniform(-3, 3), s[0] / s[-1]
            X = X * size
        a, b, c, d = X
        v6 = np.linalg.det(np.array([b - a, c - a, d - a]))
        ck.case(dict(kind="tet", X=X))
        eps = 1e-11 * cond * (1 + np.abs(X).max() / size)
        ext = np.linalg.norm(X[1:] - X[0], axis=1).max()
        with ck.guard("tet.exception"):
            ck.close(TET.compute_signed_volume(*X), v6 / 6, "tet.volume", "signed volume", tol=eps, scale=0 if abs(v6) > 1e-6 * ext ** 3 else ext ** 3)
            ck.expect(bool(TET.is_left_orientation(*X)) == bool(v6 < 0), "tet.orientation", "orientation test wrong", v6=v6)
            ck.event("left" if v6 < 0 else "right")
            for p in list(itertools.permutations(range(4)))[::5]:
                sg = np.linalg.det(np.eye(4)[list(p)])
                ck.close(TET.compute_signed_volume(*X[list(p)]), sg * v6 / 6, "tet.volume_sign", "an odd permutation does not flip the volume", tol=eps, scale=0 if abs(v6) > 1e-6 * ext ** 3 else ext ** 3)
            Y = X if v6 > 0 else X[[1, 0, 2, 3]]
            g = np.array(B.compute_barycentric_derivatives_tetrahedron(*Y))
            M = np.c_[np.ones(4), (Y - Y[0]) / ext]
            want = np.linalg.inv(M)[1:].T / ext
            ck.close(g, want, "tet.gradients", "gradients of the barycentric coordinates", tol=1e-9 * cond ** 2, scale=1 / ext)
            ck.close(g.sum(axis=0) * ext, np.zeros(3), "tet.gradients_sum", "gradients do not cancel", tol=1e-9 * cond ** 2)
            if cond < 3e4:
                far = 1 + np.abs(X).max() / ext
                cen, r = TET.compute_circumscribed_sphere(*X)
                if r < 50 * ext:
                    ck.close(np.linalg.norm(X - cen, axis=1), np.full(4, r), "tet.circumsphere", "the corners are not on the circumscribed sphere", tol=min(1e-9 * cond ** 3, 1e-13 * far * cond ** 2 + 1e-12), scale=ext)
                    ck.event("circumsphere")
                cen, r = TET.compute_inscribed_sphere(*Y)
                w = np.array([1 - q.sum() if i == 0 else q[i - 1] for q in [np.linalg.solve((Y[1:] - Y[0]).T, cen - Y[0])] for i in range(4)])
                nn = [np.linalg.norm(x) for x in want]
                dist = w / np.array(nn)
                ck.close(dist, np.full(4, abs(r)), "tet.insphere", "the inscribed sphere does not touch the four faces from inside", tol=1e-12 * far * cond ** 2 + 1e-11, scale=abs(r))
                ck.expect(w.min() > 0 and r > 0, "tet.insphere_inside", "the inscribed sphere centre is outside or its radius not positive", w=w, r=r)


def samples(ck):
    for N in [*range(2, ck.n(15, 22)), 31, 50, *ck.rng("samples").choice(np.arange(22, 70), ck.n(2, 8), replace=False).tolist()]:
        ck.case(dict(kind="samples", N=N))
        with ck.guard("samples.exception"):
            S = np.asarray(TET.generate_sample_points(N))
            I = np.asarray(TET.generate_interior_sample_points(N))
        want = sorted((i, j, k, N - 1 - i - j - k) for i in range(N) for j in range(N - i) for k in range(N - i - j))
        got = [tuple(int(round(x * (N - 1))) for x in s) for s in S]
        ck.expect(S.ndim == 2 and S.shape[1] == 4 and sorted(got) == want and np.abs(S * (N - 1) - np.round(S * (N - 1))).max() < 1e-9, "samples.pyramid", "the sample points are not the whole pyramid lattice, once each", n=len(S), want=len(want))
        ck.close(S.sum(axis=1), np.ones(len(S)), "samples.sum", "a sample's coordinates do not sum to one", tol=1e-12)
        wi = sorted(w for w in want if min(w) > 0)
        gi = sorted(tuple(int(round(x * (N - 1))) for x in s) for s in I.reshape(-1, 4))
        ck.expect(gi == wi, "samples.interior", "the interior samples are not exactly the strictly interior lattice points", got=gi[:4], want=wi[:4], N=N)
    ck.expect_error(lambda: TET.generate_sample_points(1), "samples.rejects", "a pyramid with one layer was accepted")


ck.require(inside_2_True=20, inside_3_True=20, inside_4_True=20, inside_2_False=20, inside_3_False=20, inside_4_False=20, left=50, right=50, circumsphere=50)
ck.run(bary, inside_exact, tets, samples)
