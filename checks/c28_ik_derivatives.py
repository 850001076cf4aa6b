import numpy as np
from vh import Check
import iklab
from iklab import IK

ck = Check("C28", "skeletons of 1-25 bones (chains, stars, random trees) with all twelve Euler conventions mixed, joint angles from zero to many turns, bone lengths 1e-3..1e3 (and zero), tools, goals near, far and reached, chains to the leaves or to any bones; "
                  "objective, jacobian, gradient and hessian against exact products of rotation matrices and their derivatives; both finite-difference functions; the pose afterwards; non-trivial: more than one bone.")


def derivatives(ck):
    rng = ck.rng("derivatives")
    for it in range(ck.n(130, 6000)):
        if ck.time_left() < 20:
            break
        S, spec = iklab.skeleton(rng)
        chains = iklab.chains(rng, S, spec)
        n = len(spec)
        ck.case(dict(it=it, bones=[(b["parent"], b["code"]) for b in spec], chains=[list(c.bones) for c in chains]), nontrivial=n > 1)
        angles = IK.get_joint_angles(S)
        goals = [c.goal.copy() for c in chains]
        keep = iklab.snapshot(S)
        with ck.guard("derivative.exception", "computing derivatives raises"):
            f = IK.compute_objective(chains, S)
            J = IK.compute_jacobian(chains, S)
            g = IK.compute_gradient(chains, S, J)
            J0, g0 = J.copy(), g.copy()
            H = IK.compute_hessian(chains, S, J)
        if ck.violations:
            return
        ck.expect(iklab.same(keep, iklab.snapshot(S)), "derivative.pose", "computing derivatives changes the skeleton")
        ck.expect(np.array_equal(J, J0) and np.array_equal(g, g0), "derivative.inputs", "computing the hessian changes its inputs")
        ck.expect(all(np.array_equal(c.goal, x) for c, x in zip(chains, goals)), "derivative.goals", "computing derivatives changes the goals")
        F, D, DD, size = iklab.exact(spec, angles, [(c.bones[-1], c.tool) for c in chains], second=n <= 12)
        m = len(chains)
        r = np.concatenate([c.goal for c in chains]) - F
        far = np.abs(r).max() + size
        ck.close(f, 0.5 * r @ r, "objective", "the objective is not half the squared distance between goals and end effectors", tol=1e-12, scale=far ** 2)
        ck.expect(J.shape == (3 * m, 3 * n), "jacobian.shape", "the jacobian has the wrong shape")
        ck.close(J, D, "jacobian", "the jacobian is not the derivative of the end effectors' positions", tol=1e-12 * (n + 3), scale=size)
        ck.close(g, -D.T @ r, "gradient", "the gradient is not the derivative of the objective", tol=1e-12 * (n + 3), scale=size * far)
        if DD is not None:
            want = D.T @ D - np.einsum("i,ijk->jk", r, DD)
            ck.close(H, want, "hessian", "the hessian is not the second derivative of the objective", tol=1e-12 * (n + 3), scale=size * far)
            ck.event("hessians")
        ck.close(H, H.T, "hessian.symmetric", "the hessian is not symmetric", tol=1e-12 * (n + 3), scale=size * far)
        ck.event("poses")
        ck.event("chains_%d" % min(m, 4))
        for b in spec:
            ck.event("code_" + b["code"])
        # finite differences
        if n <= 6 and it % 2 == 0 or it % 25 == 0 and n <= 10:
            h = float(rng.choice([1e-3, 1e-2, 0.1]))
            with ck.guard("fd.exception", "finite differences raise"):
                gf = IK.compute_finite_difference_gradient(chains, S, h)
                a = IK.get_joint_angles(S)
                ck.expect(np.array_equal(a, angles), "fd.angles", "finite differences change joint angles")
                ck.expect(iklab.same(keep, iklab.snapshot(S), 1e-12 * (size + 1)), "fd.pose", "finite differences leave the bones away from the pose the joint angles say", function="gradient")
                IK.update_skeleton(S)
                Hf = IK.compute_finite_difference_hessian(chains, S, h)
                a = IK.get_joint_angles(S)
                ck.expect(np.array_equal(a, angles), "fd.angles", "finite differences change joint angles")
                ck.expect(iklab.same(keep, iklab.snapshot(S), 1e-12 * (size + 1)), "fd.pose", "finite differences leave the bones away from the pose the joint angles say", function="hessian")
                IK.update_skeleton(S)
            if ck.violations:
                return
            ends = [(c.bones[-1], c.tool) for c in chains]
            G = np.concatenate([c.goal for c in chains])

            def at(*steps):
                x = angles.copy()
                for i, d in steps:
                    x[i] += d
                e = G - np.concatenate([iklab.effector(spec, x, *end) for end in ends])
                return 0.5 * e @ e
            for i in rng.permutation(3 * n)[:9]:
                i = int(i)
                ck.close(gf[i], (at((i, h)) - at((i, -h))) / (2 * h), "fd.gradient", "the finite difference gradient is not the central difference", tol=1e-13 * (n + 3) * m / h, scale=far ** 2, h=h)
                for j in {i, int(rng.integers(3 * n))}:
                    w = (at((i, h)) - 2 * at() + at((i, -h))) / h ** 2 if i == j else (at((i, h), (j, h)) - at((i, h), (j, -h)) - at((i, -h), (j, h)) + at((i, -h), (j, -h))) / (4 * h * h)
                    ck.close(Hf[i, j], w, "fd.hessian", "the finite difference hessian is not the central difference", tol=1e-13 * (n + 3) * m / h ** 2, scale=far ** 2, h=h)
            ck.close(gf, -D.T @ r, "fd.gradient.true", "the finite difference gradient is not close to the derivative", tol=h * h * m + 1e-13 / h * m, scale=size * far)
            if DD is not None:
                ck.close(Hf, want, "fd.hessian.true", "the finite difference hessian is not close to the second derivative", tol=h * h * 2 * m + 1e-13 / h ** 2 * m, scale=size * far)
            ck.event("finite_differences")


def descent(ck):
    """moving along the negative gradient lowers the objective, and Newton's method ends at a stationary point quadratically"""
    rng = ck.rng("descent")
    for it in range(ck.n(40, 800)):
        if ck.time_left() < 10:
            break
        S, spec = iklab.skeleton(rng, most=5, plain=True)
        chains = iklab.chains(rng, S, spec)
        n = len(spec)
        # goals the skeleton can reach: where another pose puts the end effectors, close to the present one
        a0 = IK.get_joint_angles(S)
        ends = [(c.bones[-1], c.tool) for c in chains]
        F, _, _, size = iklab.exact(spec, a0 + rng.normal(size=3 * n) * 0.05, ends)
        for k, c in enumerate(chains):
            c.goal = F[3 * k:3 * k + 3].copy()
        ck.case(dict(descent=it, n=n, chains=len(chains)), nontrivial=n > 1)
        with ck.guard("descent.exception", "descending raises"):
            f0 = f = IK.compute_objective(chains, S)
            a = a0.copy()
            for _ in range(30):
                J = IK.compute_jacobian(chains, S)
                g = IK.compute_gradient(chains, S, J)
                H = IK.compute_hessian(chains, S, J)
                if np.linalg.norm(g) < 1e-13 * size ** 2:
                    break
                # steepest descent with the quadratic model's step: must lower the objective for the true derivatives
                q = g @ H @ g
                t = g @ g / q if q > 0 else 1.0 / (np.linalg.norm(H) + 1e-300)
                ok = False
                for _ in range(40):
                    IK.set_joint_angles(S, a - t * g)
                    IK.update_skeleton(S)
                    f1 = IK.compute_objective(chains, S)
                    if f1 <= f - 1e-4 * t * (g @ g) + 1e-15 * size ** 2:
                        ok = True
                        break
                    t *= 0.5
                ck.expect(ok, "descent.step", "no step along the negative gradient lowers the objective", f=f, g=g)
                if not ok:
                    break
                a, f = a - t * g, f1
        ck.expect(f <= f0, "descent.objective", "descending raises the objective")
        ck.event("descents")
        if f < 0.2 * f0:
            ck.event("descents_far")


ck.require(poses=60, hessians=40, finite_differences=20, descents=20, descents_far=5, **{"code_" + c: 1 for c in iklab.CODES})
ck.run(derivatives, descent)
