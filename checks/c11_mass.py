import numpy as np
from vh import Check
import meshes
import ref

import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.mass as MASS

ck = Check("C11", "12 families of closed solids (convex, concave, thin, needle, genus one, random hulls) with random proportions, sizes 1e-3..1e3, offsets up to 50 sizes, "
                  "rotations including axis permutations and tiny angles, vertex/triangle relabellings, densities 1e-2..2e4; non-trivial: offset, rotated body.")


def tens(p):
    return np.array([[p.Ixx, p.Ixy, p.Ixz], [p.Ixy, p.Iyy, p.Iyz], [p.Ixz, p.Iyz, p.Izz]])


def placed(rng):
    kind = meshes.KINDS[int(rng.integers(len(meshes.KINDS)))] if rng.random() < 0.8 else "cube"
    V, T = meshes.make(kind, rng)
    size = float(10 ** rng.uniform(-3, 3)) if rng.random() < 0.6 else float(rng.choice([0.01, 0.1, 1.0, 10.0]))
    m = rng.random()
    if m < 0.25:
        R = np.eye(3)
    elif m < 0.45:
        g = ref.cube_group()
        R = g[int(rng.integers(len(g)))]
    elif m < 0.6:
        R = ref.rodrigues(ref.rand_unit(rng), float(10 ** rng.uniform(-9, -1)))
    else:
        R = ref.rand_rot(rng)
    far = 0.0 if rng.random() < 0.25 else float(10 ** rng.uniform(-1, 1.7)) if rng.random() < 0.75 else float(10 ** rng.uniform(-8, -1))
    off = far * ref.rand_unit(rng) * size
    if rng.random() < 0.15:
        off = off * (rng.random(3) < 0.5)
    V = V * size @ R.T + off
    p = rng.permutation(len(V))
    inv = np.argsort(p)
    V2, T2 = V[p], inv[T]
    T2 = T2[rng.permutation(len(T2))]
    k = rng.integers(0, 3, len(T2))
    T2 = np.stack([np.roll(t, s) for t, s in zip(T2, k)])
    return kind, size, far, off, np.ascontiguousarray(V2), np.ascontiguousarray(T2.astype(np.int64)), R


def integrals(ck):
    rng = ck.rng("integrals")
    for it in range(ck.n(700, 9000)):
        if ck.time_left() < 0:
            break
        kind, size, far, off, V, T, R = placed(rng)
        rho = float(10 ** rng.uniform(-2, 4.3)) if it % 3 else 1.0
        ck.case(dict(kind=kind, size=size, far=far, rho=rho, n=len(T), off=off), nontrivial=far > 0)
        vol, com, I = ref.mesh_volume_centroid_inertia(V, T)
        V0, T0 = V.copy(), T.copy()
        with ck.guard("mass.exception", "mass properties of a closed surface raise"):
            p = MASS.compute_mass_properties(V, T, rho)
            ck.expect(np.array_equal(V, V0) and np.array_equal(T, T0), "mass.mutates", "the caller's mesh is changed")
            L = np.abs(V).max()                          # distance scale about the model origin
            amp = (L / size) ** 3 * max(1.0, size ** 3 / vol)
            tol = 1e-12 * max(1.0, amp)
            if tol > 1e-3:
                ck.event("ill_conditioned")
                continue
            ck.close(p.mass, rho * vol, "mass.mass", "mass is not density times volume", tol=tol, scale=0)
            ck.close([p.x, p.y, p.z], com, "mass.com", "centre of mass", tol=tol * 4, scale=L)
            I0 = I + vol * (com @ com * np.eye(3) - np.outer(com, com))
            ck.close(tens(p), rho * I0, "mass.inertia", "inertia about the model origin", tol=tol * 4, scale=rho * vol * L * L)
            r, q, m, Ib = MASS.xform_model_2_body_space(p)
            r, q, Ib = np.asarray(r, float), np.asarray(q, float), np.asarray(Ib)
            ck.expect(np.isrealobj(Ib) and Ib.shape == (3,), "frame.shape", "principal moments are not three reals", I=Ib)
            ck.close(m, rho * vol, "frame.mass", tol=tol, scale=0)
            ck.close(r, com, "frame.origin", "the body frame is not at the centre of mass", tol=tol * 4, scale=L)
            ck.close(np.linalg.norm(q), 1.0, "frame.unit", "the body frame orientation is no unit quaternion", tol=1e-9)
            itol = 1e-12 * max(1.0, (L / size) ** 2) * max(1.0, (L / size)) * max(1.0, size ** 3 / vol) * 20
            A = ref.qmat(q) @ np.diag(np.real(Ib)) @ ref.qmat(q).T
            if itol < 1e-3:
                ck.close(A, rho * I, "frame.diagonalises", "the principal frame and moments do not reproduce the inertia about the centre of mass",
                         tol=itol, scale=rho * np.abs(I).max())
            ck.close(MASS.update_inertia_tensor(ref.qmat(q), np.real(Ib)), A, "frame.update_inertia", "R I R^T", tol=1e-12, scale=np.abs(A).max())
            ck.event("solids")


def reject(ck):
    rng = ck.rng("reject")
    for it in range(ck.n(30, 200)):
        kind, size, far, off, V, T, R = placed(rng)
        if size < 0.05 or far > 5:
            continue
        ck.case(dict(kind=kind, inside_out=True, size=size))
        ck.expect_error(lambda: MASS.compute_mass_properties(V, T[:, ::-1].copy(), 1.0), "mass.inside_out",
                        "an inside-out surface has no mass properties but got some")


def shapes(ck):
    """the body-frame mesh of an engine shape, its frame and its unit density properties"""
    rng = ck.rng("shapes")
    for it in range(ck.n(90, 700)):
        if ck.time_left() < 0:
            break
        kind, size, far, off, V, T, R = placed(rng)
        if far > 20 or not 0.01 <= size <= 100:
            continue
        ck.case(dict(kind=kind, size=size, far=far, off=off, engine=True))
        vol, com, I = ref.mesh_volume_centroid_inertia(V, T)
        L = np.abs(V).max()
        with ck.guard("shape.exception"):
            e = API.create_engine()
            e.params.resolution = 4
            e.params.envelope = 0.01 * size
            mesh = API.create_mesh(V, T)
            Vm, Tm = np.copy(mesh.V), np.copy(mesh.T)
            ck.expect(sorted(map(tuple, np.round(Vm / size, 9))) == sorted(map(tuple, np.round(V / size, 9))), "shape.mesh_vertices",
                      "create_mesh changed the vertices")
            ck.close(ref.mesh_volume_centroid_inertia(Vm, Tm)[0], vol, "shape.mesh_volume", "create_mesh changed the solid", tol=1e-9 * max(1, (L / size) ** 3), scale=0)
            API.create_shape(e, "s", mesh)
            s = e.shapes["s"]
            tol = 1e-12 * max(1.0, (L / size) ** 3) * max(1.0, size ** 3 / vol) * 20
            if tol > 1e-4:
                ck.event("ill_conditioned")
                continue
            v2, c2, I2 = ref.mesh_volume_centroid_inertia(s.mesh.V, s.mesh.T)
            ck.close(v2, vol, "shape.volume", "the body frame mesh encloses another volume (mirrored or scaled)", tol=1e-9 + tol, scale=0)
            ck.close(c2, np.zeros(3), "shape.com", "the body frame mesh is not centred at its centre of mass", tol=tol, scale=L)
            ck.close(I2, np.diag(np.asarray(s.inertia)), "shape.principal", "the inertia of the body frame mesh is not the stored diagonal one", tol=tol,
                     scale=np.abs(I).max())
            ck.close(s.mass, vol, "shape.mass", tol=tol, scale=0)
            back = s.mesh.V @ ref.qmat(np.asarray(s.q)).T + np.asarray(s.r)
            ck.close(back, Vm, "shape.roundtrip", "body frame vertices placed by the stored frame do not give the original shape", tol=1e-10 + tol, scale=L)
            ck.expect(np.array_equal(s.mesh.T, Tm), "shape.topology", "the triangles changed")
            API.create_rigid_body(e, "b")
            API.connect_shape(e, "b", "s")
            rho = float(10 ** rng.uniform(-2, 4))
            API.set_mass_properties(e, "b", rho)
            b = e.bodies["b"]
            ck.close(b.mass, rho * vol, "shape.body_mass", tol=tol + 1e-9, scale=0)
            ck.close(np.sort(b.inertia), np.sort(rho * np.linalg.eigvalsh(I)), "shape.body_inertia", "body inertia is not density times the principal moments", tol=tol, scale=rho * np.abs(I).max())
            # any mass set later does not depend on earlier densities
            API.set_mass_properties(e, "b", 2.0)
            ck.close(b.mass, 2 * vol, "shape.density_again", tol=tol + 1e-9, scale=0)
            ck.event("shapes")


ck.require(solids=400, shapes=40)
ck.require(**{"frame.diagonalises": 300, "mass.inside_out": 8, "shape.roundtrip": 30})
ck.run(integrals, reject, shapes)
