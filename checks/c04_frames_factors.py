import math
import numpy as np
import ref
from vh import Check

import rainbow.math.vector3 as V3
import rainbow.math.matrix3 as M3
import rainbow.math.functions as FN

ck = Check("C04", "vectors random, axis aligned, with ties and of size 1e-100..1e100; matrices random, near the identity, rotations, ill conditioned to 1e4, mirrored, repeated singular values; "
                  "non-trivial: not a multiple of the identity/axis.")


def vectors(ck):
    rng = ck.rng("vec")
    for k in range(ck.n(4000, 60000)):
        u = ref.hostile_axis(rng)
        s = 10.0 ** rng.choice([0.0, rng.uniform(-3, 3), rng.uniform(-100, 100)])
        n = u * s
        n0 = n.copy()
        ck.case(dict(n=n))
        with ck.guard("vector.raises"):
            t, b, m = V3.make_orthonormal_vectors(n)
            F = np.array([t, b, m])
            ck.close(F @ F.T, np.eye(3), "frame.orthonormal", "t,b,n not orthonormal", tol=1e-10, n=n)
            ck.close(np.cross(t, b), m, "frame.right_handed", tol=1e-10, n=n)
            ck.close(m, u, "frame.keeps_direction", tol=1e-12, n=n)
            ck.close(V3.unit(n), u, "vector.unit", tol=1e-12)
            ck.expect(np.array_equal(n, n0), "vector.argument_changed", "", n=n0)
            a, c = rng.integers(-2, 3, size=3).astype(float), rng.integers(-2, 3, size=3).astype(float)
            if k % 2:
                a, c = rng.normal(size=3), rng.normal(size=3)
            if k % 5 == 0:
                c = a.copy()
                m = int(rng.integers(0, 3))
                d = rng.choice([0.0, 1e-12, -1e-12, 1e-15, -1e-15, 1e-9, -1e-9])
                c[m] += d
                if rng.random() < 0.5:           # and then the other way round, and more
                    c[m + 1:] -= np.sign(d) * rng.uniform(0.1, 2)
            ta, tc = tuple(a), tuple(c)
            ck.expect(V3.less(a, c) == (ta < tc), "order.less", "", a=a, c=c)
            ck.expect(V3.greather(a, c) == (ta > tc), "order.greater", "", a=a, c=c)
            ck.expect(V3.less_than_equal(a, c) == (ta <= tc), "order.less_equal", "", a=a, c=c)
            ck.expect(V3.greather_than_equal(a, c) == (ta >= tc), "order.greater_equal", "", a=a, c=c)
            j = V3.max_abs_component(a)
            ck.expect(j in (0, 1, 2) and abs(a[j]) == np.abs(a).max(), "order.max_abs_component", "", a=a, j=j)
            ck.close(V3.cross(a, c), [a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0]], "vector.cross", tol=1e-13)
            ck.close(V3.norm(a), math.sqrt((a * a).sum()), "vector.norm", tol=1e-14)
            ck.close(M3.star(a) @ c, np.cross(a, c), "matrix.star", tol=1e-13)
            ck.close(M3.star(a), -M3.star(a).T, "matrix.star_skew", tol=0)
            ck.expect(tuple(a) == ta and tuple(c) == tc, "vector.argument_changed")
            ck.close(M3.diag(*a), np.diag(a), "matrix.diag", tol=0)
            ck.close(M3.diag_from_array(a), np.diag(a), "matrix.diag_from_array", tol=0)
            M = rng.normal(size=(3, 3))
            ck.close(M3.make(*M.ravel()), M, "matrix.make", tol=0)
            ck.close(M3.make_from_rows(*M), M, "matrix.rows", tol=0)
            ck.close(M3.make_from_cols(*M.T), M, "matrix.cols", tol=0)
            ck.close(V3.make(*a), a, "vector.make", tol=0)
            x = float(rng.choice([10.0 ** rng.uniform(-12, 1), 1e-4, 1e-4 * (1 + 1e-9)])) * rng.choice([-1, 1])
            ck.close(FN.sinc(x), math.sin(x) / x, "sinc", tol=1e-13, x=x)
            xs = np.array([0.0, x, 2 * x])
            ck.close(FN.sinc(xs), [1.0, math.sin(x) / x, math.sin(2 * x) / (2 * x)], "sinc.array", tol=1e-13, x=x)
    for X, w in ((V3.zero, 0.0), (V3.ones, 1.0)):
        a = X()
        a += 1
        ck.expect(np.array_equal(X(), np.full(3, w)), "vector.constants_fresh")
    for X, e in ((V3.i, 0), (V3.j, 1), (V3.k, 2)):
        a = X()
        ck.close(a, np.eye(3)[e], "vector.axes", tol=0)


def matrix(rng):
    k = rng.integers(0, 8)
    U, W = ref.rand_rot(rng), ref.rand_rot(rng)
    if k == 0:
        return rng.normal(size=(3, 3))
    if k == 1:
        return np.eye(3) + rng.normal(size=(3, 3)) * 10.0 ** rng.uniform(-12, -2)
    if k == 2:
        return U
    if k == 3:
        return U @ np.diag(10.0 ** rng.uniform(-2.5, 2.5, 3)) @ W
    if k == 4:
        return U @ np.diag([-1.0, 1, 1]) @ W * rng.uniform(0.1, 10)
    if k == 5:
        s = rng.uniform(0.2, 5)
        return U @ np.diag([s, s, rng.uniform(0.2, 5)]) @ W
    if k == 6:
        return np.diag(rng.choice([-2.0, -1, 0.5, 1, 1, 3], size=3))
    return U * rng.uniform(1e-3, 1e3)


def matrices(ck):
    rng = ck.rng("mat")
    for k in range(ck.n(3000, 50000)):
        A = matrix(rng)
        if np.linalg.cond(A) > 1e4:
            continue
        A0 = A.copy()
        nA = np.abs(A).max()
        tol = 1e-11 * np.linalg.cond(A) ** 2 + 1e-9
        ck.case(dict(A=A))
        if np.linalg.det(A) < 0:
            ck.event("mirrored")
        with ck.guard("matrix.raises"):
            R, S = M3.polar_decomposition(A)
            ck.close(R @ S, A, "polar.product", tol=1e-9, scale=nA, A=A)
            ck.close(R @ R.T, np.eye(3), "polar.orthogonal", tol=tol, A=A)
            ck.close(S, S.T, "polar.symmetric", tol=1e-10, scale=nA)
            ck.expect(np.linalg.eigvalsh(S).min() > 0, "polar.positive", "", A=A, S=S)
            Uu, s, Vt = np.linalg.svd(A)
            ck.close(R, Uu @ Vt, "polar.rotation", tol=tol, A=A)
            ck.close(S, Vt.T @ np.diag(s) @ Vt, "polar.stretch", tol=tol, scale=nA, A=A)
            ck.close(np.linalg.det(R), np.sign(np.linalg.det(A)), "polar.handedness", tol=tol, A=A)
            n = int(rng.integers(1, 5))
            As = np.array([A] + [m for m in (matrix(rng) for _ in range(20)) if np.linalg.cond(m) < 1e4][:n])
            rng.shuffle(As)
            As0 = As.copy()
            Rs, Ss = M3.polar_decomposition_array(As)
            for i in range(len(As)):
                Ri, Si = M3.polar_decomposition(As[i])
                ck.close(Rs[i], Ri, "polar.batch_rotation", tol=2 * tol + 1e-8, A=As[i])
                ck.close(Ss[i], Si, "polar.batch_stretch", tol=1e-8, scale=np.abs(As[i]).max(), A=As[i])
            ck.expect(np.array_equal(A, A0) and np.array_equal(As, As0), "matrix.argument_changed", "polar decomposition changed its input")
            N = np.asarray(M3.ortonormalize(A))
            ck.close(N @ N.T, np.eye(3), "ortonormalize.orthonormal", tol=1e-9 * np.linalg.cond(A) + 1e-12, A=A)
            ck.close(np.linalg.det(N), 1.0, "ortonormalize.right_handed", tol=1e-9 * np.linalg.cond(A) + 1e-12, A=A)
            ck.close(N[0], A0[0] / np.linalg.norm(A0[0]), "ortonormalize.first_direction", tol=1e-11, A=A)
            ck.close(np.dot(N[2], A0[1]), 0, "ortonormalize.second_in_plane", tol=1e-10 * np.linalg.cond(A) ** 2, scale=nA, A=A0)
            ck.expect(np.dot(N[1], A0[1]) > 0, "ortonormalize.second_direction", "", A=A0)
            ck.expect(np.array_equal(A, A0), "matrix.argument_changed", "ortonormalize changed its input", A=A0, after=A)
    for k in range(ck.n(300, 4000)):             # two rows that nearly agree still span a plane
        a = ref.rand_unit(rng)
        b = np.cross(a, ref.rand_unit(rng))
        b /= np.linalg.norm(b)
        d = 10.0 ** rng.uniform(-11, -3)
        s = 10.0 ** rng.uniform(-3, 3)
        A = np.array([a, rng.choice([-1, 1]) * a + d * b, rng.normal(size=3)]) * s
        ck.case(dict(nearly_parallel=d, s=s))
        with ck.guard("matrix.raises"):
            N = np.asarray(M3.ortonormalize(A))
            ck.close(np.linalg.norm(N[:2], axis=1), np.ones(2), "ortonormalize.unit_rows", tol=1e-9, d=d, s=s)
            ck.close(N @ N.T, np.eye(3), "ortonormalize.orthonormal", tol=1e-14 / d + 1e-9, A=A)
            ck.close(N[1], b, "ortonormalize.second", "the second axis does not lie in the plane of the first two rows", tol=1e-14 / d + 1e-9, A=A)
    sing = np.diag([1.0, 0.0, 2.0])
    ck.expect_error(lambda: M3.polar_decomposition(sing), "polar.singular_rejected", "exactly singular matrix accepted")
    ck.expect_error(lambda: M3.polar_decomposition_array(np.array([np.eye(3), sing])), "polar.singular_rejected", "exactly singular matrix accepted")


def variance(ck):
    rng = ck.rng("pca")
    for k in range(ck.n(800, 10000)):
        W = ref.rand_rot(rng) if k % 5 else np.eye(3)[rng.permutation(3)]
        sd = np.array([3.0, 1.0, rng.uniform(0.01, 1.0)])[rng.permutation(3)]
        n = int(rng.integers(4, 60))
        P = (rng.normal(size=(n, 3)) * sd) @ W.T + rng.normal(size=3) * 10
        P0 = P.copy()
        ck.case(dict(P=P))
        mean = P.mean(axis=0)
        Cv = (P - mean).T @ (P - mean) / (n - 1)
        ev, evec = np.linalg.eigh(Cv)
        with ck.guard("pca.raises"):
            m, val, vec = FN.PCA(P)
            ck.close(m, mean, "pca.mean", tol=1e-10)
            ck.close(np.sort(np.real(val)), ev, "pca.variances", tol=1e-9)
            ck.close(Cv @ vec, vec * val, "pca.eigenvectors", tol=1e-8)
            d = np.asarray(FN.direction_of_most_variance(P))
            ck.close(np.linalg.norm(d), 1.0, "pca.direction_unit", tol=1e-9)
            ck.close(d @ Cv @ d, ev[2], "pca.direction_of_most_variance", "not the direction of most variance", tol=1e-8, P=P, d=d)
            ck.expect(np.array_equal(P, P0), "pca.argument_changed")


ck.require(mirrored=50, **{"frame.orthonormal": 100, "pca.direction_of_most_variance": 50})
ck.run(vectors, matrices, variance)
