import math
import numpy as np
import ref
from vh import Check

import rainbow.math.quaternion as Q
import rainbow.math.matrix3 as M3
import rainbow.math.expmap as EXPMAP
import rainbow.math.euler as EULER
import rainbow.math.angle as ANGLE

ck = Check("C01", "random and special (identity, half turn, axis aligned, antipodal, 1e-12..1e-2 next to them) rotations; "
                  "non-trivial: the rotation is not the identity. One case = one rotation (or pair) through all conversions.")


def rz_ry_rx(e):
    return ref.rodrigues([0, 0, 1], e.gamma) @ ref.rodrigues([0, 1, 0], e.beta) @ ref.rodrigues([1, 0, 0], e.alpha)


def conversions(ck):
    rng = ck.rng("conv")
    fixed = [(a, t) for a in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 1, 0], [1, 1, 1], [0, 1, -1])
             for t in (0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, 2 * math.pi / 3, 1e-9, math.pi - 1e-9, math.pi + 1e-9)]
    for k in range(ck.n(2500, 40000)):
        axis, angle = fixed[k] if k < len(fixed) else ref.hostile_rotation(rng)
        axis = np.asarray(axis, float)
        R = ref.rodrigues(axis, angle)
        u = axis / np.linalg.norm(axis)
        v = rng.normal(size=3) * 10.0 ** rng.uniform(-3, 3)
        sv = np.linalg.norm(v)
        ck.case(dict(axis=axis, angle=angle), nontrivial=abs(math.sin(angle / 2)) > 1e-13)
        with ck.guard("conversion.raises"):
            scale = 10.0 ** rng.uniform(-2, 2) if k % 8 else 1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -2)      # also axes that are nearly unit
            q = Q.Ru(angle, axis * scale)
            ck.close(ref.qmat(q), R, "quaternion.from_axis_angle", tol=1e-11)
            ck.close(M3.Ru(angle, axis * scale), R, "matrix.from_axis_angle", tol=1e-11)
            for s in (1.0, -1.0):
                qs = s * q
                qs0 = qs.copy()
                ck.close(Q.rotate(qs, v), R @ v, "quaternion.rotate", tol=1e-11, scale=sv)
                ck.close(Q.rotate_array(qs, np.array([v, -2 * v, u])), np.array([R @ v, -2 * R @ v, R @ u]), "quaternion.rotate_array", tol=1e-11, scale=sv)
                ck.close(Q.to_matrix(qs), R, "quaternion.to_matrix", tol=1e-11)
                ck.close(Q.to_matrix(qs * scale), R, "quaternion.to_matrix_nonunit", tol=1e-11)
                ck.close(Q.unit(qs * scale), qs, "quaternion.unit", tol=1e-12)
                ck.close(ref.qmat(Q.conjugate(qs)), R.T, "quaternion.conjugate", tol=1e-11)
                th, n = Q.to_angle_axis(qs)
                if np.linalg.norm(n) > 0:
                    ck.close(ref.rodrigues(n, th), R, "quaternion.to_angle_axis", tol=1e-10)
                    ck.close(np.linalg.norm(n), 1.0, "quaternion.to_angle_axis_unit", tol=1e-10)
                else:
                    ck.close(R, np.eye(3), "quaternion.to_angle_axis", tol=1e-10)
                # angle about the known axis, in (-pi, pi]
                for d in (1.0, -1.0):
                    if abs(math.sin(angle / 2)) > 1e-9:
                        a = Q.to_angle(qs, d * u)
                        ck.close(ref.rodrigues(d * u, a), R, "quaternion.to_angle", tol=1e-9)
                        ck.expect(-math.pi - 1e-9 <= a <= math.pi + 1e-9, "quaternion.to_angle_range", "angle out of (-pi,pi]", a=a)
                lv = EXPMAP.log(qs)
                ck.close(EXPMAP.to_expmap(qs), lv, "expmap.to_expmap", tol=1e-12)
                ck.close(ref.expm3(lv), R, "expmap.log" if qs[0] != 0 else "expmap.log.zero_scalar", "exp(log q) is another rotation", tol=1e-9, q=qs)
                if qs[0] != 0:
                    ck.close(ref.qmat(EXPMAP.exp(lv)), R, "expmap.exp_log", tol=1e-9)
                e = EULER.make_euler_xyz_from_quaternion(qs)
                ck.close(rz_ry_rx(e), R, "euler.from_quaternion", tol=2e-7, q=qs)
                ck.expect(np.array_equal(qs, qs0), "quaternion.argument_changed")
            for M in (R, Q.to_matrix(q)):
                M0 = M.copy()
                p = Q.from_matrix(M)
                ck.close(ref.qmat(p), R, "quaternion.from_matrix", tol=1e-10, R=R)
                ck.close(np.linalg.norm(p), 1.0, "quaternion.from_matrix_unit", tol=1e-10)
                e = EULER.make_euler_xyz_from_matrix(M)
                ck.close(rz_ry_rx(e), R, "euler.from_matrix", tol=2e-7, R=R)
                ck.expect(np.array_equal(M, M0), "matrix.argument_changed")
            w = angle * u
            w0 = w.copy()
            ck.close(ref.qmat(EXPMAP.exp(w)), R, "expmap.exp", tol=1e-10, v=w)
            ck.close(ref.qmat(EXPMAP.exp(w, False)), R, "expmap.exp_plain", tol=1e-10, v=w)
            ck.close(ref.qmat(EXPMAP.to_quaternion(w)), R, "expmap.to_quaternion", tol=1e-10)
            ck.close(EXPMAP.to_matrix(w), R, "expmap.to_matrix", tol=1e-10)
            big = w + 2 * math.pi * int(rng.integers(-3, 4)) * u
            ck.close(ref.qmat(EXPMAP.exp(big)), R, "expmap.exp_many_turns", tol=1e-9, v=big)
            ck.expect(np.array_equal(w, w0), "expmap.argument_changed")


def exact_half_turns(ck):
    """half turns stored with a scalar part that is exactly zero"""
    rng = ck.rng("half")
    for k in range(ck.n(60, 600)):
        n = ref.hostile_axis(rng)
        q = np.array([0.0, *n])
        R = 2 * np.outer(n, n) - np.eye(3)
        ck.case(dict(half_turn=n))
        with ck.guard("conversion.raises"):
            ck.close(ref.expm3(EXPMAP.log(q)), R, "expmap.log.zero_scalar", tol=1e-9, q=q)
            ck.close(Q.to_matrix(q), R, "quaternion.to_matrix", tol=1e-11)
            th, m = Q.to_angle_axis(q)
            ck.close(ref.rodrigues(m, th), R, "quaternion.to_angle_axis", tol=1e-10)
            ck.close(ref.qmat(Q.from_matrix(R)), R, "quaternion.from_matrix", tol=1e-10)
            ck.close(rz_ry_rx(EULER.make_euler_xyz_from_quaternion(q)), R, "euler.from_quaternion", tol=2e-7)


def gimbal(ck):
    rng = ck.rng("gimbal")
    for k in range(ck.n(600, 10000)):
        g, a = rng.uniform(-math.pi, math.pi, 2)
        b = rng.choice([-1, 1]) * (math.pi / 2 - rng.choice([0.0, 0.0, 1e-12, 1e-10, 1e-8, 3e-8, 1e-7, 1e-5]))
        R = ref.rodrigues([0, 0, 1], g) @ ref.rodrigues([0, 1, 0], b) @ ref.rodrigues([1, 0, 0], a)
        ck.case(dict(gimbal=[g, b, a]))
        with ck.guard("euler.raises"):
            q = ref.qmul(ref.qmul(ref.quat([0, 0, 1], g), ref.quat([0, 1, 0], b)), ref.quat([1, 0, 0], a))
            ck.close(rz_ry_rx(EULER.make_euler_xyz_from_matrix(R)), R, "euler.gimbal_matrix", tol=2e-7, angles=[g, b, a])
            ck.close(rz_ry_rx(EULER.make_euler_xyz_from_quaternion(q)), R, "euler.gimbal_quaternion", tol=2e-7, angles=[g, b, a])
            # away from the poles the three angles are unique
            b2 = rng.uniform(-1.4, 1.4)
            R2 = ref.rodrigues([0, 0, 1], g) @ ref.rodrigues([0, 1, 0], b2) @ ref.rodrigues([1, 0, 0], a)
            e = EULER.make_euler_xyz_from_matrix(R2)
            ck.close([e.alpha, e.beta, e.gamma], [a, b2, g], "euler.angles_recovered", tol=1e-9)
            ck.close(Q.Rz(g), ref.quat([0, 0, 1], g), "quaternion.Rz", tol=1e-12)
            ck.close(Q.Ry(b), ref.quat([0, 1, 0], b), "quaternion.Ry", tol=1e-12)
            ck.close(Q.Rx(a), ref.quat([1, 0, 0], a), "quaternion.Rx", tol=1e-12)
            ck.close(M3.Rz(g) @ M3.Ry(b) @ M3.Rx(a), R, "matrix.RzRyRx", tol=1e-12)
            ck.close(ANGLE.degrees_to_radians(ANGLE.radians_to_degrees(a)), a, "angle.round_trip", tol=1e-13)
            ck.close(ANGLE.radians_to_degrees(a), math.degrees(a), "angle.degrees", tol=1e-13)


def composition(ck):
    rng = ck.rng("comp")
    group = ref.cube_group()
    pairs = [(A, B) for A in group for B in group] if ck.thorough else []
    for k in range(ck.n(1200, 20000)):
        if k < 24:
            A = group[k]
            ck.case(dict(cube=A))
            with ck.guard("conversion.raises"):
                ck.close(ref.qmat(Q.from_matrix(A)), A, "quaternion.from_cube_rotation", tol=1e-12)
                ck.close(rz_ry_rx(EULER.make_euler_xyz_from_matrix(A)), A, "euler.cube_rotation", tol=1e-7)
        if k < len(pairs):
            A, B = pairs[k]
            with ck.guard("conversion.raises"):
                q = Q.prod(Q.from_matrix(A), Q.from_matrix(B))
                ck.close(ref.qmat(q), A @ B, "quaternion.prod_cube", tol=1e-11)
        a, b = ref.hostile_unit_quat(rng), ref.hostile_unit_quat(rng)
        x = rng.normal(size=3)
        ck.case(dict(a=a, b=b))
        with ck.guard("compose.raises"):
            c = Q.prod(a, b)
            ck.close(c, ref.qmul(a, b), "quaternion.prod", tol=1e-12)
            ck.close(Q.rotate(c, x), ref.qmat(a) @ (ref.qmat(b) @ x), "quaternion.prod_is_composition", tol=1e-11)
            ck.close(Q.prod(a, Q.conjugate(a)), [1, 0, 0, 0], "quaternion.inverse", tol=1e-12)
            ck.close(Q.prod(Q.identity(), a), a, "quaternion.identity", tol=1e-14)
            N = int(rng.integers(1, 5))
            qs = np.array([ref.rand_quat(rng) for _ in range(N)])
            ck.close(Q.prod_array(a, qs), [ref.qmul(a, y) for y in qs], "quaternion.prod_array_left", tol=1e-12)
            ck.close(Q.prod_array(qs, a), [ref.qmul(y, a) for y in qs], "quaternion.prod_array_right", tol=1e-12)
            h = Q.hat(a)
            ck.close(np.dot(h, a), 0.0, "quaternion.hat_orthogonal", tol=1e-12)
            ck.close(np.linalg.norm(h), 1.0, "quaternion.hat_unit", tol=1e-12)
            ck.close(Q.from_vector3(x), [0, *x], "quaternion.pure", tol=0)


def interpolation(ck):
    rng = ck.rng("slerp")
    for k in range(ck.n(1500, 25000)):
        a = ref.hostile_unit_quat(rng)
        kind = rng.integers(0, 4)
        if kind == 0:
            b = ref.hostile_unit_quat(rng)
        else:  # close to a, to -a, or orthogonal
            om = [10.0 ** rng.uniform(-9, -1), rng.uniform(0, math.pi / 2), math.pi / 2 - 10.0 ** rng.uniform(-12, -3)][kind - 1]
            d = rng.normal(size=4)
            d -= (d @ a) * a
            d /= np.linalg.norm(d)
            b = (math.cos(om) * a + math.sin(om) * d) * rng.choice([-1.0, 1.0])
        b = b / np.linalg.norm(b)
        if abs(a @ b) < 1e-6:
            continue  # both arcs have the same length
        t = float(rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 1), rng.uniform(0, 1)]))
        bb = b if a @ b > 0 else -b
        # exact relative rotation from a to the nearer of +-b
        rel = ref.qmul(ref.qconj(a), bb)
        half = math.atan2(np.linalg.norm(rel[1:]), rel[0])
        n = rel[1:] / np.linalg.norm(rel[1:]) if np.linalg.norm(rel[1:]) > 0 else np.array([1.0, 0, 0])
        want = ref.qmul(a, np.array([math.cos(t * half), *(math.sin(t * half) * n)]))
        ck.case(dict(a=a, b=b, t=t), nontrivial=half > 0)
        a0, b0 = a.copy(), b.copy()
        with ck.guard("slerp.raises"):
            got = Q.slerp(a, b, t)
            ck.expect(np.all(np.isfinite(got)) and ref.same_rot(got, want) < 1e-8, "slerp.shortest_arc_constant_speed",
                      "interpolated rotation is not on the shortest arc", got=got, want=want, a=a, b=b, t=t)
            ck.close(np.linalg.norm(got), 1.0, "slerp.unit", tol=1e-9)
            ck.expect(ref.same_rot(Q.slerp(a, b, -0.5), a) < 1e-9 and ref.same_rot(Q.slerp(a, b, 1.5), b) < 1e-8, "slerp.clamped")
            ck.close(Q.lerp(a, b, t), (1 - t) * a + t * b, "lerp", tol=1e-12)
            ck.expect(np.array_equal(a, a0) and np.array_equal(b, b0), "slerp.argument_changed")


ck.require(**{"expmap.log": 100, "euler.gimbal_quaternion": 100, "slerp.shortest_arc_constant_speed": 100, "quaternion.prod": 100})
ck.run(conversions, exact_half_turns, gimbal, composition, interpolation)
