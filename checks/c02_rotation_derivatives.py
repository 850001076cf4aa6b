import math
import numpy as np
import ref
from vh import Check

import rainbow.math.expmap as EXPMAP

ck = Check("C02", "rotation vectors of length 0, 1e-12..1e-2, around the series switch, ordinary, next to and beyond a half turn, "
                  "axis aligned or not, times a component index or an angular velocity; non-trivial: non-zero vector.")


def vectors(rng):
    a = ref.hostile_axis(rng)
    k = rng.integers(0, 7)
    if k == 0:
        t = 0.0
    elif k == 1:
        t = 10.0 ** rng.uniform(-12, -2)
    elif k == 2:
        t = 1e-6 * (1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-6, -1))
    elif k == 3:
        t = math.pi + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-8, -1)
    elif k == 4:
        t = rng.uniform(math.pi, 2 * math.pi - 0.02)
    else:
        t = rng.uniform(0.01, math.pi)
    return t * a


def quat_of(v):
    """unit quaternion (cos, sin) of a complex-valued rotation vector: analytic, for complex-step differences"""
    t2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    if abs(t2) < 1e-4:
        c = 1 - t2 / 8 + t2 ** 2 / 384 - t2 ** 3 / 46080
        s = 0.5 * (1 - t2 / 24 + t2 ** 2 / 1920 - t2 ** 3 / 322560)
    else:
        t = np.sqrt(t2)
        c, s = np.cos(t / 2), np.sin(t / 2) / t
    return np.array([c, s * v[0], s * v[1], s * v[2]])


def mat_of(q):
    s, x, y, z = q
    n = s * s + x * x + y * y + z * z
    return np.array([[s * s + x * x - y * y - z * z, 2 * (x * y - s * z), 2 * (x * z + s * y)],
                     [2 * (x * y + s * z), s * s - x * x + y * y - z * z, 2 * (y * z - s * x)],
                     [2 * (x * z - s * y), 2 * (y * z + s * x), s * s - x * x - y * y + z * z]]) / n


def partials(ck):
    rng = ck.rng("partials")
    h = 1e-30
    for k in range(ck.n(3000, 60000)):
        v = vectors(rng)
        t = np.linalg.norm(v)
        ck.case(dict(v=v), nontrivial=t > 0)
        if t > math.pi:
            ck.event("beyond_half_turn")
        if 0 < t < 1e-6:
            ck.event("below_series_switch")
        v0 = v.copy()
        with ck.guard("derivative.raises"):
            for i in range(3):
                vc = v.astype(complex)
                vc[i] += 1j * h
                qc = quat_of(vc)
                # The quaternion of a vector is unique up to sign; the derivative must be that of one branch.
                dq = np.imag(qc) / h
                # derivative of the matrix at v through the product rule on the real quaternion
                dR = np.imag(mat_of(qc)) / h
                got = np.asarray(EXPMAP.dQdv_i(v, i))
                ck.expect(np.all(np.isfinite(got)) and min(np.abs(got - dq).max(), np.abs(got + dq).max()) < 1e-8, "derivative.quaternion",
                          "dQ/dv differs from the true derivative", v=v, i=i, got=got, want=dq)
                ck.close(EXPMAP.dRdv_i(v, i), dR, "derivative.matrix", "dR/dv differs from the true derivative", tol=1e-8, v=v, i=i)
            ck.expect(np.array_equal(v, v0), "derivative.argument_changed")


def rates(ck):
    rng = ck.rng("rates")
    for k in range(ck.n(2500, 40000)):
        v = vectors(rng)
        t = np.linalg.norm(v)
        om = ref.hostile_axis(rng) * rng.uniform(0.1, 5)
        ck.case(dict(v=v, omega=om), nontrivial=t > 0)
        with ck.guard("rate.raises"):
            got = np.asarray(EXPMAP.dvdt(om, v), float)
            # exact: omega = J_l(v) vdot with the left Jacobian of the rotation vector
            K = ref.skew(v)
            if t < 1e-3:
                a, b = 0.5 - t * t / 24, 1 / 6 - t * t / 120
            else:
                a, b = 2 * (math.sin(t / 2) / t) ** 2, (t - math.sin(t)) / t ** 3
            J = np.eye(3) + a * K + b * K @ K
            ck.close(J @ got, om, "rate.vector_rate", "the rate of the rotation vector does not produce the angular velocity", tol=1e-8, v=v, omega=om)
            ck.close(got, np.linalg.solve(J, om), "rate.solve", tol=1e-7, v=v, omega=om)
        w = v * rng.choice([1.0, -1.0, 1 + 4 * rng.uniform()])
        w0 = w.copy()
        with ck.guard("reparameterize.raises"):
            r = np.asarray(EXPMAP.reparameterization(w), float)
            ck.close(ref.expm3(r), ref.expm3(w), "reparameterize.same_rotation", tol=1e-9, v=w)
            ck.expect(np.linalg.norm(r) <= math.pi + 1e-12, "reparameterize.at_most_half_turn", "", v=w, r=r)
            if np.linalg.norm(w) <= math.pi:
                ck.expect(np.array_equal(r, w), "reparameterize.short_vector_unchanged", "", v=w, r=r)
            ck.expect(np.array_equal(w, w0), "reparameterize.argument_changed")
    ck.expect_error(lambda: EXPMAP.dQdv_i(np.ones(3), 3), "derivative.bad_index", "component index 3 accepted")
    ck.expect_error(lambda: EXPMAP.dQdv_i(np.ones(3), -1), "derivative.bad_index", "component index -1 accepted")


ck.require(beyond_half_turn=50, below_series_switch=50, **{"rate.vector_rate": 100})
ck.run(partials, rates)
