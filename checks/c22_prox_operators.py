import itertools
from types import SimpleNamespace

import numpy as np
from vh import Check

import rainbow.simulators.prox_rigid_bodies.api as RIGID
import rainbow.simulators.prox_rigid_bodies.prox_operators as OP
import rainbow.simulators.proximal_contact.proximal_operators as PC

ck = Check("C22", "vectors of length 0..1e8 (axis aligned, on the boundary, a hair in- and outside, generic) projected on spheres and ellipsoids of radii 0..1e6 with ratios up to 1e6 and normal forces -1..1e6, through every "
                  "implementation (rigid, compiled, ellipsoid, origin); optimality certified by the support function of the set; non-trivial: a vector outside its set.")

ENGINE = RIGID.create_engine()


def support(radii, d):
    return float(np.linalg.norm(radii * d))


def certify(ck, z, x, radii, name, tol):
    """x is the projection of z on the ellipsoid iff x is in it and no point of it lies further along z - x"""
    m = max(1.0, float(np.max(radii)))
    x = np.asarray(x, float)
    if not ck.expect(np.all(np.isfinite(x)) and x.shape == (3,), name + ".finite", "a projection is not a finite triple", z=z, radii=radii, x=x):
        return
    pos = radii > 0
    ck.expect(np.all(x[~pos] == 0.0), name + ".flat", "a component with zero radius is not removed", z=z, radii=radii, x=x)
    if pos.any():
        # how far outside, measured along the ray from the centre
        s = float(np.linalg.norm(x[pos] / radii[pos]))
        over = (s * s - 1) / max(2 * float(np.linalg.norm(x[pos] / radii[pos] ** 2)), 1e-300)
        ck.expect(s <= 1 + 1e-9 or over <= tol * m, name + ".member", "a projection is outside the set", z=z, radii=radii, x=x, level=s)
    zz = z.copy()
    d = zz - x
    D = float(np.linalg.norm(d))
    if D > tol * m:
        gap = support(radii, d / D) - float(x @ (d / D))
        ck.expect(gap <= tol * m + 1e-12 * float(np.linalg.norm(z)), name + ".nearest", "another point of the set is closer to the vector", z=z, radii=radii, x=x, gap=gap)


def vectors(rng, radii):
    m = max(float(np.max(radii)), 1e-6)
    for _ in range(6):
        yield rng.normal(size=3) * m * 10 ** rng.uniform(-2, 2)
    for i in range(3):
        a = np.zeros(3)
        a[i] = rng.choice([-1, 1]) * m * 10 ** rng.uniform(-2, 2)
        yield a
    a = rng.normal(size=3) * m
    a[int(rng.integers(3))] = 0.0
    yield a
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    for f in (1.0, 1 - 1e-9, 1 + 1e-9, 1 + 1e-4, 1 - 1e-4, 1e3):
        yield radii * u * f
    yield np.zeros(3)
    yield rng.normal(size=3) * 1e-12


def spheres(ck):
    rng = ck.rng("spheres")
    impl = dict(rigid=OP.prox_sphere, compiled=PC.prox_sphere)
    for it in range(ck.n(2500, 40000)):
        if ck.time_left() < 0:
            break
        mu = float(rng.choice([0.0, 0.5, 1.0, 10 ** rng.uniform(-6, 6)]))
        xn = float(rng.choice([0.0, 1.0, -1.0, 10 ** rng.uniform(-6, 4), -10 ** rng.uniform(-6, 2)]))
        R = mu * max(xn, 0.0)
        radii = np.array([R, R, R])
        zs = list(vectors(rng, radii))
        for name, f in impl.items():
            out = []
            for z in zs:
                ck.case(dict(op=name, mu=mu, xn=xn, z=z), nontrivial=np.linalg.norm(z) > R)
                with ck.guard("sphere.exception"):
                    x = np.array(f(z[0], z[1], z[2], mu, xn), float)
                out.append(x)
                if R == 0:
                    ck.expect(np.all(x == 0), "sphere.origin", "without radius the projection is not the origin", z=z, mu=mu, xn=xn, x=x)
                    continue
                if np.linalg.norm(z) <= R * (1 - 1e-14):
                    ck.expect(np.array_equal(x, z), "sphere.inside", "a vector inside is changed", z=z, R=R, x=x)
                else:
                    ck.close(x, z * (R / max(np.linalg.norm(z), R)), "sphere.point", "the projection on the sphere is wrong", tol=1e-14, scale=R)
                ck.expect(np.linalg.norm(x) <= R * (1 + 1e-14), "sphere.member", "the projection is outside the sphere", z=z, R=R, x=x)
                with ck.guard("sphere.exception"):
                    y = np.array(f(x[0], x[1], x[2], mu, xn), float)
                ck.close(y, x, "sphere.idempotent", "projecting twice differs from once", tol=1e-15, scale=R)
            for (i, j) in ((0, 1), (2, 3), (4, 9), (11, 12)):
                ck.expect(np.linalg.norm(out[i] - out[j]) <= np.linalg.norm(zs[i] - zs[j]) * (1 + 1e-12) + 1e-12 * R, "sphere.nonexpansive", "the projection moves vectors apart", zi=zs[i], zj=zs[j], R=R)
        for z in zs[:3]:
            with ck.guard("origin.exception"):
                ck.expect(np.all(np.array(PC.prox_origin(z[0], z[1], z[2], mu, xn)) == 0), "origin.zero", "the projection on the origin is not the origin")


def ellipsoids(ck):
    rng = ck.rng("ellipsoids")
    f = PC.prox_ellipsoid
    for it in range(ck.n(1200, 20000)):
        if ck.time_left() < 0:
            break
        mus = 10 ** rng.uniform(-3, 3, size=3) if rng.random() < 0.3 else rng.uniform(0.05, 2, size=3)
        if rng.random() < 0.4:
            mus[rng.permutation(3)[:int(rng.integers(1, 4))]] = 0.0
        elif rng.random() < 0.15:
            mus[:] = mus[0]
        elif rng.random() < 0.2:
            mus[1] = mus[0]
        xn = float(rng.choice([0.0, 1.0, -1.0, 10 ** rng.uniform(-2, 3)]))
        radii = mus * max(xn, 0.0)
        zs = [z for z in vectors(rng, radii)]
        out, worst = [], 0.0
        for z in zs:
            as_np = rng.random() < 0.5
            arg = [np.float64(v) if as_np else float(v) for v in (*z, *mus, xn)]
            ck.case(dict(op="ellipsoid", mus=mus, xn=xn, z=z), nontrivial=True)
            x = None
            try:
                with ck.guard("ellipsoid.exception", "the ellipsoid projection raises"):
                    x = np.array(f(ENGINE, *arg), float)
            except Exception as ex:
                if type(ex).__module__.startswith("numba"):
                    ck.violate("ellipsoid.exception", "the compiled ellipsoid projection rejects its arguments: %s" % str(ex)[:200])
                else:
                    raise
            if x is None:
                return
            out.append(x)
            if xn <= 0 or not mus.any():
                ck.expect(np.all(x == 0), "ellipsoid.origin", "without radius the projection is not the origin", z=z, mus=mus, xn=xn, x=x)
                continue
            m = max(1.0, radii.max())
            # bisection on the multiplier stops at an absolute tolerance relative to the largest quantity involved
            big = max(1.0, radii.max(), np.abs(z).max())
            pos = radii[radii > 0]
            tol = 2e-8 * (big / m) * (1 + (big / pos.min()) if len(pos) else 1)
            tol = max(1e-8, min(tol, 1e-2))
            worst = max(worst, tol)
            level = np.sum((z[radii > 0] / pos) ** 2)
            if np.all(z[radii == 0] == 0) and level < 1 - 1e-12:
                ck.expect(np.array_equal(x, z), "ellipsoid.inside", "a vector inside is changed", z=z, radii=radii, x=x)
            certify(ck, z, x, radii, "ellipsoid", tol)
            if level > 1.5 and tol <= 1e-6:
                ck.event("ellipsoid_outside_sharp")
            with ck.guard("ellipsoid.exception"):
                y = np.array(f(ENGINE, *x, *mus, xn), float)
            ck.close(y, x, "ellipsoid.idempotent", "projecting twice differs from once", tol=tol, scale=m)
        if len(out) == len(zs) and xn > 0 and mus.any():
            for (i, j) in ((0, 1), (2, 3), (4, 9), (11, 12)):
                ck.expect(np.linalg.norm(out[i] - out[j]) <= np.linalg.norm(zs[i] - zs[j]) * (1 + 1e-9) + 4 * worst * m, "ellipsoid.nonexpansive", "the projection moves vectors apart", zi=zs[i], zj=zs[j], radii=radii)


def sharp(ck):
    """radii and vectors of order one: the projection is accurate to the solver's tolerance"""
    rng = ck.rng("sharp")
    for it in range(ck.n(2500, 30000)):
        if ck.time_left() < 0:
            break
        mus = rng.uniform(0.2, 1.5, size=3)
        if it % 3 == 0:
            mus[int(rng.integers(3))] = 0.0
        elif it % 5 == 0:                        # nearly a sphere
            mus = mus[0] + rng.normal(size=3) * 10 ** rng.uniform(-5, -2)
        xn = float(rng.uniform(0.5, 3))
        radii = mus * xn
        z = rng.normal(size=3) * rng.uniform(0.5, 6)
        ck.case(dict(op="sharp", mus=mus, xn=xn, z=z))
        if ck.violations:                        # an operator that raises was reported above
            return
        x = None
        with ck.guard("ellipsoid.exception", "the ellipsoid projection raises"):
            x = np.array(PC.prox_ellipsoid(ENGINE, *z, *mus, xn), float)
        if x is None:
            return
        # reference: Newton/bisection on the multiplier in 60 digits is not needed, doubles are enough here
        p = radii > 0
        if np.all(z[~p] == 0) and np.sum((z[p] / radii[p]) ** 2) <= 1:
            want = z
        else:
            r2, zz = radii[p] ** 2, z[p]
            want = np.zeros(3)
            if np.sum((zz / radii[p]) ** 2) <= 1:
                want[p] = zz
            else:
                lo, hi = 0.0, float(np.max(radii) * np.linalg.norm(z)) + 1.0
                for _ in range(200):
                    t = 0.5 * (lo + hi)
                    if np.sum(r2 * zz * zz / (r2 + t) ** 2) > 1:
                        lo = t
                    else:
                        hi = t
                want[p] = r2 * zz / (r2 + 0.5 * (lo + hi))
        ck.close(x, want, "ellipsoid.point", "the projection on the ellipsoid is wrong", tol=1e-6, scale=1.0, z=z, radii=radii)


ck.require(**{"sphere.point": 5000, "sphere.inside": 3000, "ellipsoid.nearest": 2500, "ellipsoid.inside": 1000, "ellipsoid.point": 1000})
ck.run(spheres, ellipsoids, sharp)
