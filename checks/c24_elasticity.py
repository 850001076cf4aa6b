import numpy as np
from vh import Check

import ref
import soft
from soft import API

import rainbow.simulators.prox_soft_bodies.mechanics as MECH
import rainbow.simulators.prox_soft_bodies.solver as SOLVER

ck = Check("C24", "3 material models x deformation gradients with singular values 0.2..5 (rotations, tiny strains, one stretched axis, generic), Young moduli 1e-2..1e9, Poisson ratios 0..0.49; meshes of 4 families, a tenth of a millimetre to a kilometre in size with random "
                  "displacements and rigid motions; stresses and nodal forces against numerical differentiation of the energies and an independent implementation; non-trivial: strain above 1e-3.")


def rotation(rng):
    q = rng.normal(size=4)
    return ref.qmat(q / np.linalg.norm(q))


def deformation(rng):
    kind = rng.choice(["generic", "tiny", "axis", "rotation", "equal"])
    if kind == "generic":
        s = np.exp(rng.uniform(np.log(0.2), np.log(5), 3))
    elif kind == "tiny":
        s = 1 + rng.normal(size=3) * 10 ** rng.uniform(-8, -3)
    elif kind == "axis":
        s = np.ones(3)
        s[int(rng.integers(3))] = np.exp(rng.uniform(np.log(0.2), np.log(5)))
    elif kind == "equal":
        s = np.full(3, np.exp(rng.uniform(np.log(0.3), np.log(3))))
    else:
        s = np.ones(3)
    return kind, rotation(rng) @ np.diag(s) @ rotation(rng)


def models(ck):
    rng = ck.rng("models")
    for it in range(ck.n(2100, 20000)):
        if ck.time_left() < 0:
            break
        name = soft.MODELS[it % 3]
        M = getattr(API, name)
        E, nu = 10 ** rng.uniform(-2, 9), float(rng.choice([0.0, 0.3, 0.49, rng.uniform(0, 0.49)]))
        kind, F = deformation(rng)
        ck.case(dict(model=name, E=E, nu=nu, kind=kind, F=F), nontrivial=kind not in ("tiny", "rotation"))
        lam, mu = soft.lame(E, nu)
        with ck.guard("model.exception", "a material model raises"):
            l2, m2 = API.first_lame(E, nu), API.second_lame(E, nu)
            P = np.array(M.pk1_stress(F.copy(), lam, mu), float)
            W = float(M.energy_density(F.copy(), lam, mu))
        if ck.violations:
            continue
        ck.close([l2, m2], [lam, mu], "lame", "the Lame parameters are wrong", tol=1e-12, scale=0.0 + 1e-300)
        S = (lam + 2 * mu) * max(1.0, np.abs(F).max() ** 3)           # size of the stresses at hand
        # stress is the derivative of the energy
        h = 1e-4
        N = np.zeros((3, 3))
        with ck.guard("model.exception", "a material model raises"):
            for i in range(3):
                for j in range(3):
                    d = np.zeros((3, 3))
                    d[i, j] = h
                    w = [float(M.energy_density(F + k * d, lam, mu)) for k in (-2, -1, 1, 2)]
                    N[i, j] = (w[0] - 8 * w[1] + 8 * w[2] - w[3]) / (12 * h)
        ck.close(P / S, N / S, "derivative." + name, "the stress is not the derivative of the energy", tol=2e-8 if kind != "axis" else 2e-7, F=F)
        ck.close(P / S, soft.stress(name, F, lam, mu) / S, "stress." + name, "the stress is not that of the model", tol=1e-10, F=F)
        ck.close(W / S, soft.energy(name, F, lam, mu) / S, "energy." + name, "the energy is not that of the model", tol=1e-10, F=F)
        # rotations after and before
        Q = rotation(rng)
        with ck.guard("model.exception", "a material model raises"):
            ck.close(np.array(M.pk1_stress(Q @ F, lam, mu)) / S, Q @ P / S, "turned.stress", "the stress does not turn with the body", tol=1e-10, F=F, Q=Q)
            ck.close(float(M.energy_density(Q @ F, lam, mu)) / S, W / S, "turned.energy", "the energy depends on a rigid rotation", tol=1e-10, F=F, Q=Q)
            ck.close(np.array(M.pk1_stress(F @ Q, lam, mu)) / S, P @ Q / S, "isotropic.stress", "the material has a preferred direction", tol=1e-10, F=F, Q=Q)
            ck.close((P @ F.T - F @ P.T) / S / max(1, np.abs(F).max()), np.zeros((3, 3)), "moment", "the stress exerts a moment", tol=1e-11, F=F)
            # rest, and linear elasticity next to it
            R = rotation(rng)
            ck.close(np.array(M.pk1_stress(R, lam, mu)) / (lam + 2 * mu), np.zeros((3, 3)), "rest.stress", "a rotated body at rest is under stress", tol=1e-11)
            if name != "SNH":
                ck.close(float(M.energy_density(R, lam, mu)) / (lam + 2 * mu), 0.0, "rest.energy", "a body at rest stores energy", tol=1e-12)
            e = rng.normal(size=(3, 3))
            e = 0.5 * (e + e.T) / np.abs(e).max()
            h = 1e-6
            lin = (np.array(M.pk1_stress(np.eye(3) + h * e, lam, mu)) - np.array(M.pk1_stress(np.eye(3) - h * e, lam, mu))) / (2 * h)
            ck.close(lin / (lam + 2 * mu), (lam * np.trace(e) * np.eye(3) + 2 * mu * e) / (lam + 2 * mu), "linear", "small strains are not linear elastic", tol=1e-6, strain=e)
            # Young modulus and Poisson ratio of a pulled bar
            bar = np.diag([1.0, -nu, -nu]) * h
            pull = (np.array(M.pk1_stress(np.eye(3) + bar, lam, mu)) - np.array(M.pk1_stress(np.eye(3) - bar, lam, mu))) / (2 * h)
            ck.close(pull / (lam + 2 * mu), np.diag([E, 0, 0]) / (lam + 2 * mu), "young", "a pulled bar does not show Young modulus and Poisson ratio", tol=1e-6, E=E, nu=nu)


def tensors(ck):
    rng = ck.rng("tensors")
    for it in range(ck.n(100, 1000)):
        K = int(rng.integers(1, 6))
        F = np.array([deformation(rng)[1] for _ in range(K)])
        S = rng.normal(size=(K, 3, 3))
        S = S + np.swapaxes(S, 1, 2)
        ck.case(dict(kind="tensors", F=F))
        with ck.guard("tensor.exception"):
            ck.close(MECH.right_cauchy_strain_tensor(F[0]), F[0].T @ F[0], "tensor.cauchy_green", tol=1e-12)
            ck.close(MECH.green_strain_tensor(F[0]), 0.5 * (F[0].T @ F[0] - np.eye(3)), "tensor.green", tol=1e-12)
            ck.close(MECH.cauchy_stress_tensor(F, S), [f @ s @ f.T / np.linalg.det(f) for f, s in zip(F, S)], "tensor.cauchy", tol=1e-10)


def library(ck):
    """ready-made materials: usable, told apart, and found however their name is written"""
    rng = ck.rng("library")
    seen = {}
    for name in ("cartilage", "cortical bone", "cancellous bone", "rubber", "concrete", "copper", "steel", "aluminium", "glass"):
        ck.case(dict(kind="library", name=name))
        with ck.guard("library.exception", "a ready-made material raises"):
            got = {tuple(MECH.create_material_parameters(n)) for n in (name, name.upper(), name.title(), "".join(c.upper() if rng.random() < 0.5 else c for c in name))}
            ck.expect(len(got) == 1, "library.name", "a ready-made material depends on the case of its name", name=name, got=got)
            E, nu, rho = sorted(got)[0]
            e = soft.engine()
            API.create_material(e, "m")
            API.set_elasticity(e, "m", E, nu)
            API.set_mass_density(e, "m", rho)
        ck.expect(E > 0 and 0 <= nu < 0.5 and rho > 0, "library.values", "a ready-made material is no material", name=name, E=E, nu=nu, rho=rho)
        seen[name] = (E, nu, rho)
    ck.expect(len(set(seen.values())) == len(seen), "library.distinct", "two different ready-made materials are the same", seen=seen)
    with ck.guard("library.exception"):
        a, b = MECH.create_material_parameters(None), MECH.create_material_parameters()
    ck.expect(tuple(a) == tuple(b) and a[0] > 0, "library.default", "the default material is not one")


def bodies(ck):
    """nodal forces of whole meshes, read off the velocities of one step of the simulator"""
    rng = ck.rng("bodies")
    for it in range(ck.n(90, 900)):
        if ck.time_left() < 0:
            break
        e = soft.engine(resolution=6, use_spatial_hashing=bool(rng.random() < 0.3))
        B = []
        size = 1.0 if it % 3 else float(10 ** rng.uniform(-4, 3))        # from a tenth of a millimetre to a kilometre
        for k in range(int(rng.integers(1, 3))):
            V, T = soft.mesh(rng)
            V = (V + np.array([10.0 * k, 0, 0])) * size
            with ck.guard("body.exception", "a sound mesh is refused"):
                B.append(soft.Body(e, "b%d" % k, V, T, model=str(rng.choice(soft.MODELS)), E=10 ** rng.uniform(2, 6), nu=rng.uniform(0, 0.45), rho=10 ** rng.uniform(1, 4)))
        if ck.violations:
            continue
        shifts = []
        for k, b in enumerate(B):
            kind = rng.choice(["noise", "rigid", "affine", "bend"])
            x0 = b.x0
            c = x0.mean(axis=0)
            R = rotation(rng) if kind != "bend" else np.eye(3)
            if kind == "noise":
                y = (x0 - c) @ R.T
                d = rng.normal(size=x0.shape)
                s = 0.15 * np.ptp(x0, axis=0).min() / 4
                while np.any(soft.volumes(y + s * d, b.T) < 0.1 * b.vol):
                    s *= 0.7
                y = y + s * d
            elif kind == "affine":
                y = (x0 - c) @ deformation(rng)[1].T
            elif kind == "bend":
                y = x0 - c
                y = y + np.stack([0 * y[:, 0], 0.2 / size * y[:, 0] ** 2, 0 * y[:, 0]], 1)
            else:
                y = (x0 - c) @ R.T
            y = y + (np.array([40.0 * k, 0, 0]) + rng.normal(size=3)) * size
            if np.any(soft.volumes(y, b.T) < 0.02 * b.vol):
                y = x0.copy()
            shifts.append((kind, y))
            API.set_spatial_coordinates(e, b.name, y)
        ck.case(dict(kind="bodies", bodies=[(b.model, len(b.x0), len(b.T), s[0]) for b, s in zip(B, shifts)], size=size, E=[b.E for b in B]), nontrivial=any(s[0] != "rigid" for s in shifts))
        dt = 1e-7 * size
        e.params.envelope *= size
        e.params.time_step = dt
        with ck.guard("body.exception", "a step of a deformed body raises"):
            API.simulate(e, dt, True)
        if ck.violations:
            continue
        if len(e.contact_points):
            ck.event("selfcontact")
            continue
        if not 0.01 < size < 100:
            ck.event("body.odd_size")
        total = 0.0
        for b, (kind, y) in zip(B, shifts):
            lam, mu = soft.lame(b.E, b.nu)
            x1, u1 = b.state()
            ck.close(x1, y + dt * u1, "body.moved", "a node does not move with its velocity", tol=1e-12)
            f = b.mass[:, None] * u1 / dt
            want = b.elastic(y)
            area = np.ptp(b.x0, axis=0).max() ** 2
            S = (lam + 2 * mu) * area * 1.0
            ck.close(f / S, want / S, "body.forces", "nodal forces are not those of the stored energy", tol=1e-8, model=b.model, deformation=kind)
            M = getattr(API, b.model)
            # directional derivative of the stored energy, in the repository's own energy density
            d = rng.normal(size=y.shape)
            d /= np.abs(d).max()
            h = 1e-5 * np.ptp(b.x0, axis=0).min() / 4
            en = lambda model, F, l, m: float(M.energy_density(F, l, m))
            w = [b.stored(y + k * h * d, en) for k in (-2, -1, 1, 2)]
            slope = (w[0] - 8 * w[1] + 8 * w[2] - w[3]) / (12 * h)
            ref_size = S * np.sqrt(len(y)) + abs(slope)
            ck.close(float(np.sum(f * d)) / ref_size, -slope / ref_size, "body.gradient", "nodal forces are not the negative gradient of the elastic energy", tol=1e-6, model=b.model, deformation=kind)
            ck.close(f.sum(axis=0) / S, np.zeros(3), "body.sum", "elastic forces do not add up to zero", tol=1e-8)
            r = y - y.mean(axis=0)
            ck.close(np.cross(r, f).sum(axis=0) / S / max(1e-9, np.abs(r).max()), np.zeros(3), "body.torque", "elastic forces have a torque", tol=1e-8)
            if kind == "rigid":
                ck.close(f / S, np.zeros_like(f), "body.rigid", "a rigidly moved body feels elastic forces", tol=1e-8)
            total += b.stored(x1)
        log = [l for l in API.get_log(e) if "elastic_energy" in l]
        scale = sum(b.E * abs(b.vol.sum()) for b in B)
        ck.close(log[-1]["elastic_energy"] / scale, total / scale, "body.energy", "the reported elastic energy is not the stored one", tol=1e-9)


def inverted(ck):
    """bodies with a flat or an inside-out element have no elastic energy: they are refused, when made and when deformed"""
    rng = ck.rng("inverted")
    for it in range(ck.n(30, 300)):
        V, T = soft.mesh(rng)
        size = np.ptp(V, axis=0).max()
        k = int(rng.integers(len(T)))
        flat = rng.random() < 0.3
        e = soft.engine(resolution=4)
        if it % 2:
            W, U = V.copy(), T.copy()
            if flat and len(T) == 1:
                W[U[k, 3]] = W[U[k, 0]]
            else:
                U[k] = U[k][[0, 2, 1, 3]]
            ck.case(dict(kind="inverted", created=it, element=k))
            ck.expect_error(lambda: soft.Body(e, "b", W * 10 ** rng.uniform(-1, 1), U), "inverted.created", "a body with an inside-out element is accepted")
        else:
            with ck.guard("inverted.exception"):
                b = soft.Body(e, "b", V, T)
                y = b.x0.copy()
                t = b.T[k]
                c, n = y[t[1]], np.cross(y[t[2]] - y[t[1]], y[t[3]] - y[t[1]])
                n /= np.linalg.norm(n)
                y[t[0]] -= n * ((y[t[0]] - c) @ n) * rng.uniform(1.05, 2.0)      # through the opposite face
                API.set_spatial_coordinates(e, "b", y)
            if ck.violations:
                return
            e.params.time_step = 1e-6 * size
            ck.case(dict(kind="inverted", deformed=it, element=k))
            ck.expect_error(lambda: API.simulate(e, e.params.time_step), "inverted.deformed", "a body turned inside out is simulated on")


ck.require(**{"inverted.deformed": 10, "inverted.created": 10, "derivative.SVK": 200, "derivative.COR": 200, "derivative.SNH": 200, "linear": 500, "body.forces": 20, "body.gradient": 20, "body.rigid": 3, "body.energy": 15, "body.odd_size": 5})
ck.run(models, tensors, library, bodies, inverted)
