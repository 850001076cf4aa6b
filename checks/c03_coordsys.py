import numpy as np
import ref
from vh import Check

import rainbow.math.coordsys as C

ck = Check("C03", "pairs and triples of frames from special and random unit quaternions (either sign) and origins of size 1e-6..1e6, acting on tracer points; "
                  "non-trivial: some frame differs from the identity.")


def frame(rng):
    q = ref.hostile_unit_quat(rng)
    r = rng.normal(size=3) * 10.0 ** rng.uniform(-6, 6) * rng.choice([0.0, 1.0, 1.0, 1.0])
    return C.make(r.copy(), q.copy()), ref.qmat(q), r


def laws(ck):
    rng = ck.rng("laws")
    for k in range(ck.n(2500, 40000)):
        (A, RA, ra), (B, RB, rb), (D, RD, rd) = frame(rng), frame(rng), frame(rng)
        p, v = rng.normal(size=3) * 10.0 ** rng.uniform(-3, 3), rng.normal(size=3)
        sc = 1 + np.abs(p).max() + np.abs(ra).max() + np.abs(rb).max() + np.abs(rd).max()
        ck.case(dict(A=[ra, A.q], B=[rb, B.q], p=p))
        before = [x.copy() for x in (A.r, A.q, B.r, B.q, p, v)]
        with ck.guard("frame.raises"):
            ck.close(C.xform_point(A, p), RA @ p + ra, "frame.point", tol=1e-10, scale=sc)
            ck.close(C.xform_vector(A, v), RA @ v, "frame.direction_ignores_origin", tol=1e-10)
            M = rng.normal(size=(3, 3))
            ck.close(C.xform_matrix(A, M), RA @ M, "frame.matrix", tol=1e-10)
            AB = C.concat(A, B)
            ck.close(C.xform_point(AB, p), RA @ (RB @ p + rb) + ra, "frame.composition_point", tol=1e-10, scale=sc)
            ck.close(C.xform_vector(AB, v), RA @ (RB @ v), "frame.composition_direction", tol=1e-10)
            ck.close(ref.qmat(AB.q), RA @ RB, "frame.composition_orientation", tol=1e-10)
            ck.close(np.linalg.norm(AB.q), 1, "frame.unit_orientation", tol=1e-12)
            L, Rr = C.concat(C.concat(A, B), D), C.concat(A, C.concat(B, D))
            ck.close(C.xform_point(L, p), C.xform_point(Rr, p), "frame.associative", tol=1e-10, scale=sc)
            iA = C.inverse(A)
            for X, name in ((C.concat(iA, A), "left"), (C.concat(A, iA), "right")):
                ck.close(C.xform_point(X, p), p, "frame.inverse_" + name, tol=1e-10, scale=sc)
                ck.close(ref.qmat(X.q), np.eye(3), "frame.inverse_orientation_" + name, tol=1e-10)
            ck.close(C.xform_point(iA, C.xform_point(A, p)), p, "frame.inverse_point", tol=1e-10, scale=sc)
            ck.close(C.xform_point(C.inverse(AB), p), C.xform_point(C.concat(C.inverse(B), iA), p), "frame.inverse_of_product", tol=1e-10, scale=sc)
            F = C.make_coordsys_from_to(A, B)
            ck.close(C.xform_point(F, p), RB.T @ (RA @ p + ra - rb), "frame.from_to_point", tol=1e-10, scale=sc)
            ck.close(ref.qmat(F.q), RB.T @ RA, "frame.from_to_orientation", tol=1e-10)
            I = C.CoordSys()
            ck.close(C.xform_point(I, p), p, "frame.identity_point", tol=0)
            ck.close(C.xform_point(C.concat(I, A), p), RA @ p + ra, "frame.identity_left", tol=1e-10, scale=sc)
            ck.close(C.xform_point(C.concat(A, I), p), RA @ p + ra, "frame.identity_right", tol=1e-10, scale=sc)
            q = rng.normal(size=3)
            d = C.xform_point(A, p) - C.xform_point(A, p + q)
            ck.close(np.linalg.norm(d), np.linalg.norm(q), "frame.preserves_distance", tol=1e-9, scale=sc)
            w = rng.normal(size=3)
            ck.close(np.cross(C.xform_vector(A, v), C.xform_vector(A, w)), C.xform_vector(A, np.cross(v, w)), "frame.preserves_handedness", tol=1e-9)
            after = (A.r, A.q, B.r, B.q, p, v)
            ck.expect(all(np.array_equal(x, y) for x, y in zip(before, after)), "frame.arguments_unchanged", "an operation modified its input")
            # results are independent of later changes to a fresh identity frame
            I.r += 1.0
            J = C.CoordSys()
            ck.expect(np.array_equal(J.r, np.zeros(3)) and np.array_equal(J.q, [1, 0, 0, 0]), "frame.fresh_identity", "identity frames share state")


def long_products(ck):
    rng = ck.rng("chain")
    for k in range(ck.n(20, 200)):
        n = int(rng.integers(5, 400))
        with ck.guard("frame.raises"):
            X = C.CoordSys()
            R, r = np.eye(3), np.zeros(3)
            for _ in range(n):
                (A, RA, ra) = frame(rng)
                A.r = A.r / (1e-9 + np.abs(A.r).max())
                ra = A.r
                X = C.concat(X, A)
                R, r = R @ RA, R @ ra + r
            ck.case(dict(chain=n, k=k))
            ck.close(np.linalg.norm(X.q), 1, "frame.unit_after_long_product", tol=1e-12)
            ck.close(ref.qmat(X.q), R, "frame.long_product", tol=1e-9)
            ck.close(X.r, r, "frame.long_product_origin", tol=1e-9, scale=n)


ck.require(**{"frame.composition_point": 100, "frame.long_product": 10})
ck.run(laws, long_products)
