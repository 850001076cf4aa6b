import math

import numpy as np
from vh import Check
import ref

import rainbow.geometry.surface_mesh as SM

ck = Check("C10", "every surface generator over random dimensions (1e-2..1e2, aspect up to 50) and every small slice/segment count (3..14 plus larger), hulls of random/degenerate-rich point sets, "
                  "histories of translate/rotate/scale/scale_to_unit/axis_sort on the results; non-trivial: closed mesh with more than 4 triangles.")


def swept_volume(profile, J):
    """exact volume of the polyhedron swept from a radius/height profile with J slices"""
    v = 0.0
    for (r0, y0), (r1, y1) in zip(profile[:-1], profile[1:]):
        v += (y1 - y0) * (r0 * r0 + r0 * r1 + r1 * r1) / 3
    return J / 2 * math.sin(2 * math.pi / J) * v


def solid(ck, V, T, tag, volume=None, size=1.0, convex=True, strict=True):
    """closed, oriented, no unused vertices, the right volume; returns False on the first defect"""
    V, T = np.asarray(V, float), np.asarray(T)
    ok = ck.expect(T.ndim == 2 and T.shape[1] == 3 and V.ndim == 2 and V.shape[1] == 3 and T.min() >= 0 and T.max() < len(V) and np.isfinite(V).all(),
                   tag + ".arrays", "malformed mesh arrays", V=V.shape, T=T.shape)
    if not ok:
        return False
    ok &= ck.expect(ref.surface_defects(T) == 0, tag + ".closed", "the surface is not closed and consistently oriented", T=T[:6])
    ok &= ck.expect(len(np.unique(T)) == len(V), tag + ".unused", "some vertices belong to no triangle")
    euler = len(V) - len({(min(a, b), max(a, b)) for t in T for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))}) + len(T)
    ck.expect(euler == (0 if tag == "torus" else 2), tag + ".genus", "the surface is not a %s" % ("torus" if tag == "torus" else "sphere"), euler=euler)
    vol = ref.mesh_volume_centroid_inertia(V, T)[0]
    if volume is not None:
        ok &= ck.close(vol, volume, tag + ".volume", "the enclosed volume is not the exact one", tol=1e-9, scale=0)
    else:
        ok &= ck.expect(vol > 0, tag + ".volume_sign", "the triangles face inwards")
    if convex:
        a, b, c = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
        n = np.cross(b - a, c - a)
        area = np.linalg.norm(n, axis=1)
        ext = (V.max(0) - V.min(0)).max()
        good = area > 1e-9 * ext * ext
        n = n[good] / area[good, None]
        h = np.einsum("tk,vk->tv", n, V) - np.einsum("tk,tk->t", n, a[good])[:, None]
        ok &= ck.expect(h.max() <= 1e-7 * ext, tag + ".outward", "a triangle of a convex shape does not face outwards", worst=h.max())
    ck.event("meshes")
    return bool(ok)


def dim(rng):
    return float(10.0 ** rng.uniform(-2, 2) if rng.uniform() < 0.6 else rng.choice([1.0, 2.0, 0.5]))


def gens(ck):
    rng = ck.rng("gens")
    for it in range(ck.n(420, 4000)):
        if ck.time_left() < 0:
            break
        J = int(rng.integers(3, 15) if rng.uniform() < 0.85 else rng.integers(15, 40))
        S = int(rng.integers(3, 15) if rng.uniform() < 0.85 else rng.integers(15, 30))
        s = dim(rng)
        d = s * rng.uniform(0.2, 5, size=3)
        kind = ["box", "cuboid", "cylinder", "cone", "conical", "sphere", "ellipsoid", "capsule", "torus", "sweep"][it % 10]
        ck.case(dict(kind=kind, J=J, S=S, d=d))
        area = J / 2 * math.sin(2 * math.pi / J)          # of the unit polygon
        with ck.guard(kind + ".exception"):
            if kind == "box":
                V, T = SM.create_box(*d)
                if solid(ck, V, T, kind, float(np.prod(d))):
                    ck.close(np.r_[V.min(0), V.max(0)], np.r_[-d / 2, d / 2], kind + ".extent", "a box has the wrong extent", tol=1e-12, scale=0)
                    ck.expect(len(V) == 8 and len(T) == 12, kind + ".count", "a box is not 8 vertices and 12 triangles")
            elif kind == "cuboid":
                w, h, e = d / 2
                P = np.array([(-w, -h, e), (w, -h, e), (w, h, e), (-w, h, e), (-w, -h, -e), (w, -h, -e), (w, h, -e), (-w, h, -e)])
                M = np.eye(3) + 0.3 * rng.normal(size=(3, 3))
                if np.linalg.det(M) < 0.2:
                    M = np.eye(3)
                P = P @ M.T + rng.normal(size=3) * s
                V, T = SM.create_cuboid(*P)
                if solid(ck, V, T, kind, float(np.prod(d)) * np.linalg.det(M)):
                    ck.close(V, P, kind + ".corners", "the corners of a cuboid are not the given points", tol=1e-12, scale=0)
            elif kind == "cylinder":
                seg = int(rng.integers(1, 6))
                r, h = d[:2]
                V, T = SM.create_cylinder(r, h, J, seg) if rng.uniform() < 0.8 or J != 12 else SM.create_cylinder(r, h)
                if solid(ck, V, T, kind, area * r * r * h):
                    y = V[:, 1]
                    ck.close([y.min(), y.max()], [-h / 2, h / 2], kind + ".height", "a cylinder is not centred with the given height", tol=1e-9, scale=0)
                    rho = np.hypot(V[:, 0], V[:, 2])
                    ck.expect((np.abs(rho - r) < 1e-9 * r).sum() == len(V) - 2 and (rho < 1e-9 * r).sum() == 2, kind + ".radius", "cylinder vertices are not on the given radius", rho=rho[:8], r=r)
            elif kind == "cone":
                r, h = d[:2]
                V, T = SM.create_cone(r, h, J)
                if solid(ck, V, T, kind, area * r * r * h / 3):
                    ck.close([V[:, 1].min(), V[:, 1].max()], [0, h], kind + ".height", "a cone does not stand on y=0 with the given height", tol=1e-9, scale=h)
                    ck.expect(np.allclose(np.hypot(V[:, 0], V[:, 2]), r * (1 - V[:, 1] / h) * (np.hypot(V[:, 0], V[:, 2]) > 1e-9 * r), atol=1e-9 * r), kind + ".radius", "cone vertices are not on the cone")
            elif kind == "conical":
                r0, r1, h = d
                V, T = SM.create_conical(r0, r1, h, J)
                if solid(ck, V, T, kind, area * h * (r0 * r0 + r0 * r1 + r1 * r1) / 3):
                    rho, y = np.hypot(V[:, 0], V[:, 2]), V[:, 1]
                    ring = rho > 1e-9 * max(r0, r1)
                    ck.close([y.min(), y.max()], [0, h], kind + ".height", "a truncated cone does not stand on y=0 with the given height", tol=1e-9, scale=h)
                    ck.close(rho[ring], (r0 + (r1 - r0) * y / h)[ring], kind + ".radius", "truncated cone vertices have the wrong radius", tol=1e-9, scale=0)
            elif kind in ("sphere", "ellipsoid"):
                r = d[0]
                ax = d if kind == "ellipsoid" else np.array([r, r, r])
                V, T = SM.create_sphere(r, J, S) if kind == "sphere" else SM.create_ellipsoid(*ax, J, S)
                th = [math.pi * i / (S - 1) for i in range(S)]
                vol = swept_volume([(math.sin(t), -math.cos(t)) for t in th], J) * np.prod(ax)
                if solid(ck, V, T, kind, vol):
                    ck.close(np.sum((V / ax) ** 2, axis=1), np.ones(len(V)), kind + ".radius", "vertices are not on the sphere/ellipsoid", tol=1e-9)
                    ck.close([V[:, 1].min(), V[:, 1].max()], [-ax[1], ax[1]], kind + ".height", "the poles are missing", tol=1e-9, scale=0)
                    ck.expect(vol < 4 / 3 * math.pi * np.prod(ax), kind + ".inscribed", "not inscribed")
            elif kind == "capsule":
                r, h = d[:2]
                V, T = SM.create_capsule(r, h, J, S)
                th = [math.pi * i / (S - 1) for i in range(S)]
                if S % 2 == 0:
                    vol = swept_volume([(r * math.sin(t), -r * math.cos(t) + (-h / 2 if i < S / 2 else h / 2)) for i, t in enumerate(th)], J)
                else:
                    vol = None
                if solid(ck, V, T, kind, vol, convex=True):
                    y = np.clip(V[:, 1], -h / 2, h / 2)
                    ck.close(np.sqrt(V[:, 0] ** 2 + V[:, 2] ** 2 + (V[:, 1] - y) ** 2), np.full(len(V), r), kind + ".radius", "capsule vertices are not at radius distance from the axis", tol=1e-9, scale=0)
                    ck.close([V[:, 1].min(), V[:, 1].max()], [-h / 2 - r, h / 2 + r], kind + ".height", "a capsule has the wrong height", tol=1e-9, scale=0)
                    exact = math.pi * r * r * h + 4 / 3 * math.pi * r ** 3
                    got = ref.mesh_volume_centroid_inertia(V, T)[0]
                    ck.expect(got < exact and (J < 15 or S < 15 or got > 0.75 * exact), kind + ".inscribed", "capsule volume does not approach the exact one from below", got=got, exact=exact)
            elif kind == "torus":
                r = d[0]
                R = r * rng.uniform(1.2, 6)
                V, T = SM.create_torus(R, r, S, J)
                if solid(ck, V, T, kind, J * math.sin(2 * math.pi / J) * (S / 2 * r * r * math.sin(2 * math.pi / S)) * R, convex=False):
                    ck.close((np.hypot(V[:, 0], V[:, 1]) - R) ** 2 + V[:, 2] ** 2, np.full(len(V), r * r), kind + ".radius", "torus vertices are not on the torus", tol=1e-9, scale=0)
                    a, b, c = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
                    n = np.cross(b - a, c - a)
                    m = (a + b + c) / 3
                    if J >= 5 and S >= 5:
                        ring = m.copy()
                        ring[:, 2] = 0
                        ring *= (R * math.cos(math.pi / J) / np.linalg.norm(ring, axis=1))[:, None]
                        ck.expect(np.mean(np.einsum("ij,ij->i", n, m - ring) > 0) > 0.95, kind + ".outward", "torus triangles face inwards")
            else:
                n = int(rng.integers(3, 9))
                y = np.sort(rng.uniform(-1, 1, size=n)) * s
                rad = np.r_[0, rng.uniform(0.2, 1, size=n - 2), 0] * s
                prof = [np.array([a, b, 0.0]) for a, b in zip(rad, y)]
                keep = [p.copy() for p in prof]
                V, T = SM.profile_sweep(prof, J)
                if solid(ck, V, T, kind, swept_volume(list(zip(rad, y)), J), convex=False):
                    ck.expect(all(np.array_equal(p, q) for p, q in zip(prof, keep)), kind + ".profile_untouched", "sweeping changed the profile")
                    want = sorted([(round(a / s, 7), round(b / s, 7)) for a, b in zip(rad, y)])
                    got = sorted({(round(float(np.hypot(v[0], v[2])) / s, 7), round(float(v[1]) / s, 7)) for v in V})
                    ck.close(np.array(got) if len(got) == len(want) else np.zeros(1), np.array(want), kind + ".profile", "the swept vertices do not lie on the profile circles", tol=1e-6)
    for bad in (lambda: SM.profile_sweep([np.zeros(3), np.array([0, 1.0, 0])], 5), lambda: SM.profile_sweep([np.zeros(3), np.array([1, 0.5, 0]), np.array([0, 1.0, 0])], 2)):
        ck.expect_error(bad, "sweep.rejects", "a degenerate sweep was accepted")


def fine(ck):
    """surfaces of more than 2^15 vertices: still closed, and close to the smooth body"""
    rng = ck.rng("fine")
    a, b = int(rng.integers(182, 200)), int(rng.integers(182, 200))
    r, h = rng.uniform(0.3, 3), rng.uniform(0.5, 4)
    for name, make, want in (("sphere", lambda: SM.create_sphere(r, a, b), 4 / 3 * np.pi * r ** 3),
                             ("capsule", lambda: SM.create_capsule(r, h, a, b), None),
                             ("torus", lambda: SM.create_torus(r + h, r, a, b), 2 * np.pi ** 2 * (r + h) * r * r),
                             ("cylinder", lambda: SM.create_cylinder(r, h, 16400 + a, 1), np.pi * r * r * h)):
        ck.case(dict(kind="fine", shape=name, n=(a, b)))
        with ck.guard("fine.exception", "a fine surface can not be made"):
            V, T = make()
        T = np.asarray(T)
        ck.expect(len(V) > 2 ** 15 and T.min() == 0 and T.max() == len(V) - 1 and ref.surface_defects(T) == 0, "fine.closed", "a fine surface is not closed", shape=name, vertices=len(V), lowest=T.min(), highest=T.max())
        if T.min() >= 0 and T.max() < len(V):
            vol = ref.mesh_volume_centroid_inertia(V, T)[0]
            ck.expect(vol > 0 if want is None else abs(vol / want - 1) < 0.01, "fine.volume", "a fine surface does not approach the smooth body", shape=name, volume=vol, want=want)


def hulls(ck):
    rng = ck.rng("hulls")
    for it in range(ck.n(120, 1200)):
        k = it % 5
        n = int(rng.integers(4, 40))
        P = rng.normal(size=(n, 3))
        if k == 1:
            P = P / np.linalg.norm(P, axis=1)[:, None]
        elif k == 2:
            g = int(rng.integers(2, 4))
            P = np.array([[x, y, z] for x in range(g) for y in range(g) for z in range(g)], float)   # many coplanar points
        elif k == 3:
            P = P * np.array([1, 1, 0.02])
        elif k == 4:
            P = np.r_[P, P[:2]] if n < 6 else np.r_[P, 0.3 * P]
        P = P * dim(rng) + rng.normal(size=3) * rng.choice([0, 1, 50])
        P0 = P.copy()
        ck.case(dict(kind="hull", n=len(P), style=k, P=P[:3]))
        with ck.guard("hull.exception"):
            V, T = SM.create_convex_hull(P if rng.uniform() < 0.5 else list(P))
        ck.expect(np.array_equal(P, P0), "hull.input_untouched", "the hull changed its input")
        import scipy.spatial
        vol = scipy.spatial.ConvexHull(P0).volume
        V, T = np.asarray(V), np.asarray(T)
        if not solid(ck, V, T, "hull"):
            continue
        ck.close(ref.mesh_volume_centroid_inertia(V, T)[0], vol, "hull.volume", "hull volume", tol=1e-6, scale=0)
        known = {tuple(p) for p in P0}
        ck.expect(all(tuple(v) in known for v in V), "hull.vertices", "a hull vertex is not an input point")
        a, b, c = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
        nn = np.cross(b - a, c - a)
        nn = nn / np.maximum(np.linalg.norm(nn, axis=1), 1e-300)[:, None]
        ext = (V.max(0) - V.min(0)).max()
        h = (np.einsum("tk,vk->tv", nn, P0) - np.einsum("tk,tk->t", nn, a)[:, None])
        ck.expect(h.max() <= 1e-6 * ext, "hull.contains", "an input point lies outside the hull", worst=h.max())


def triset(V, T, scale):
    """multiset of oriented triangles by coordinates"""
    out = []
    for t in T:
        p = [tuple(np.round(V[i] / scale, 9) + 0.0) for i in t]
        k = p.index(min(p))
        out.append(tuple(p[k:] + p[:k]))
    return sorted(out)


def transforms(ck):
    rng = ck.rng("transforms")
    for it in range(ck.n(120, 1200)):
        V, T = [lambda: SM.create_box(1, 2, 3), lambda: SM.create_cone(1, 2, 7), lambda: SM.create_sphere(1, 6, 5), lambda: SM.create_torus(2, .5, 4, 5)][it % 4]()
        if it % 3 == 1:
            V = V * 10 ** rng.uniform(-4, 4)
        mesh = SM.Mesh(V, T)
        V0, T0 = V.copy(), T.copy()
        X = V.copy().astype(float)
        Tx = T.copy()
        ops = []
        ck.case(dict(kind="transform", it=it))
        with ck.guard("transform.exception"):
            for _ in range(int(rng.integers(1, 7))):
                op = ["translate", "rotate", "scale", "unit", "sort"][int(rng.integers(0, 5))]
                ops.append(op)
                if op == "translate":
                    r = rng.normal(size=3) * 3
                    ret = SM.translate(mesh, r)
                    X = X + r
                    ck.expect(ret is mesh, "transform.returns", "translate does not return the mesh")
                elif op == "rotate":
                    q = ref.hostile_unit_quat(rng)
                    ret = SM.rotate(mesh, q)
                    X = X @ ref.qmat(q).T
                    ck.expect(ret is mesh, "transform.returns", "rotate does not return the mesh")
                elif op == "scale":
                    a = rng.uniform(0.3, 3, size=3)
                    ret = SM.scale(mesh, *a)
                    X = X * a
                    ck.expect(ret is mesh, "transform.returns", "scale does not return the mesh")
                elif op == "unit":
                    SM.scale_to_unit(mesh)
                    c = (X.min(0) + X.max(0)) / 2
                    X = (X - c) / (X.max(0) - X.min(0)).max() + c
                    e = mesh.V.max(0) - mesh.V.min(0)
                    ck.close(e.max(), 1.0, "transform.unit_box", "scaling to unit does not give a unit box", tol=1e-9)
                else:
                    axis = rng.normal(size=3) if rng.uniform() < 0.7 else np.eye(3)[rng.integers(0, 3)]
                    before = triset(mesh.V, mesh.T, np.abs(mesh.V).max())
                    SM.axis_sort(mesh, axis)
                    pr = mesh.V @ axis / np.linalg.norm(axis)
                    ck.expect((np.diff(pr) >= -1e-9 * (1 + np.abs(pr).max())).all(), "sort.order", "vertices are not ordered along the axis")
                    ck.expect(triset(mesh.V, mesh.T, np.abs(mesh.V).max()) == before, "sort.same_mesh", "sorting changed the triangles")
                    mean = mesh.T.mean(axis=1)
                    ck.expect((np.diff(mean) >= -1e-12).all(), "sort.triangles", "triangles are not ordered by their vertices")
                    X, Tx = mesh.V.copy(), mesh.T.copy()
                if not ck.close(mesh.V, X, "transform." + op, "a mesh transform is not exact", tol=1e-8, ops=ops):
                    break
                ck.expect(np.array_equal(mesh.T, Tx), "transform.triangles", "a transform changed the triangles")
                lo, hi = SM.aabb(mesh)
                ck.close(np.r_[lo, hi], np.r_[mesh.V.min(0), mesh.V.max(0)], "transform.aabb", "the bounding box is wrong", tol=1e-12)
            ck.expect(np.array_equal(V, V0) and np.array_equal(T, T0), "transform.copy", "transforming a mesh changed the arrays it was built from")
            ck.expect(ref.surface_defects(mesh.T) == 0 and ref.mesh_volume_centroid_inertia(mesh.V, mesh.T)[0] > 0, "transform.closed", "a transformed mesh is no longer closed and outward", ops=ops)
            ck.event("transforms", len(ops))


ck.assumptions += ["scale factors are positive (a reflection would turn the surface inside out)", "capsules with an odd number of rings are only compared with the inscribed bounds"]
ck.require(meshes=350, transforms=200, **{"sort.same_mesh": 20, "hull.contains": 50})
ck.run(gens, fine, hulls, transforms)
