import numpy as np
from vh import Check, quiet
import ref

import rainbow.geometry.grid3 as GRID
import rainbow.geometry.mean_curvature as MC
import rainbow.geometry.surface_mesh as SM

ck = Check("C07", "closed surfaces (own tetra/box/L-shape/star-shaped and the repository's generators) under random placement and scale 1e-2..1e2, grids with 3..14 nodes per axis "
                  "and padding 0..0.5 size; curvature of quadratic fields at every interior node and of sphere/cylinder/plane/torus distances; non-trivial: every grid has nodes on both sides.")


def box(a, b, c):
    V = np.array([[x, y, z] for x in (-a, a) for y in (-b, b) for z in (-c, c)], float)
    T = [(0, 1, 3), (0, 3, 2), (4, 6, 7), (4, 7, 5), (0, 4, 5), (0, 5, 1), (2, 3, 7), (2, 7, 6), (0, 2, 6), (0, 6, 4), (1, 5, 7), (1, 7, 3)]
    return V, np.array(T)


def lshape():
    P = np.array([(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)], float)
    n = len(P)
    V = np.array([(x, y, z) for z in (0, 1.0) for x, y in P])
    cap = [(0, 1, 3), (1, 2, 3), (0, 3, 4), (0, 4, 5)]
    T = [(a, c, b) for a, b, c in cap] + [(a + n, b + n, c + n) for a, b, c in cap]
    for i in range(n):
        j = (i + 1) % n
        T += [(i, j, j + n), (i, j + n, i + n)]
    return V, np.array(T)


def octa_star(rng):
    """star-shaped bumpy octahedron subdivided once"""
    V = [np.array(v, float) for v in [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]]
    T = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
    lut = {}

    def mid(a, b):
        k = (min(a, b), max(a, b))
        if k not in lut:
            m = V[a] + V[b]
            V.append(m / np.linalg.norm(m))
            lut[k] = len(V) - 1
        return lut[k]

    T2 = []
    for a, b, c in T:
        ab, bc, ca = mid(a, b), mid(b, c), mid(c, a)
        T2 += [(a, ab, ca), (ab, b, bc), (ca, bc, c), (ab, bc, ca)]
    V = np.array(V) * rng.uniform(0.6, 1.4, size=(len(V), 1))
    return V, np.array(T2)


def shapes(rng):
    k = int(rng.integers(0, 10))
    if k == 0:
        s = rng.uniform(0.2, 2, size=3)
        return "box", *box(*s)
    if k == 1:
        return "lshape", *lshape()
    if k in (2, 3):
        return "star", *octa_star(rng)
    if k == 4:
        V = rng.normal(size=(4, 3))
        T = np.array([(1, 0, 2), (0, 1, 3), (1, 2, 3), (2, 0, 3)])
        if np.dot(V[3] - V[0], np.cross(V[1] - V[0], V[2] - V[0])) < 0:
            T = T[:, ::-1]
        return "tetra", V, T
    if k == 5:
        return "sphere", *SM.create_sphere(rng.uniform(0.3, 2), int(rng.integers(4, 10)), int(rng.integers(4, 9)))
    if k == 6:
        return "cylinder", *SM.create_cylinder(rng.uniform(0.3, 2), rng.uniform(0.3, 2), int(rng.integers(4, 10)), int(rng.integers(1, 3)))
    if k == 7:
        return "cone", *SM.create_cone(rng.uniform(0.3, 2), rng.uniform(0.3, 2), int(rng.integers(4, 10)))
    if k == 8:
        return "capsule", *SM.create_capsule(rng.uniform(0.3, 1), rng.uniform(0.3, 2), int(rng.integers(4, 9)), int(rng.integers(4, 9)))
    return "torus", *SM.create_torus(rng.uniform(1, 2), rng.uniform(0.2, 0.6), int(rng.integers(4, 7)), int(rng.integers(5, 9)))


def node_coords(g_min, g_max, dims):
    ax = [np.linspace(g_min[a], g_max[a], dims[a]) for a in range(3)]
    return np.array([(ax[0][i], ax[1][j], ax[2][k]) for k in range(dims[2]) for j in range(dims[1]) for i in range(dims[0])])


def sdf(ck):
    rng = ck.rng("sdf")
    for it in range(ck.n(70, 700)):
        if ck.time_left() < 0:
            break
        name, V, T = shapes(rng)
        size = 10.0 ** rng.uniform(-2, 2)
        if rng.uniform() < 0.4:
            V = np.array(V) * size
        else:
            V = np.array(V) @ ref.rand_rot(rng).T * size + rng.normal(size=3) * size * rng.choice([0, 1, 10])
        T = np.array(T)
        dims = [int(x) for x in rng.integers(3, 15, size=3)]
        pad = float(rng.choice([0.0, 0.05, 0.2, 0.5]) * size)
        ck.case(dict(shape=name, verts=V[:3], dims=dims, pad=pad, n=len(T)))
        V0, T0 = V.copy(), T.copy()
        with ck.guard("sdf.exception"), quiet():
            if rng.uniform() < 0.2:
                g = GRID.create_signed_distance(V, T, *dims)
                pad = 0.5
            else:
                g = GRID.create_signed_distance(V, T, *dims, boundary=pad)
            ck.expect(np.array_equal(V, V0) and np.array_equal(T, T0), "sdf.arguments_untouched", "sampling a distance field changed the mesh")
            ck.close(g.min_coord, V.min(0) - pad, "sdf.box", "the grid box is not the mesh box plus the padding", tol=1e-9, scale=size)
            ck.close(g.max_coord, V.max(0) + pad, "sdf.box", "the grid box is not the mesh box plus the padding", tol=1e-9, scale=size)
            if not ck.expect((g.I, g.J, g.K) == tuple(dims) and len(np.ravel(g.values)) == np.prod(dims), "sdf.resolution", "wrong grid resolution"):
                continue
            P = node_coords(V.min(0) - pad, V.max(0) + pad, dims)
            d = ref.mesh_distance(P, V, T)
            w = ref.winding_number(P, V, T)
            val = np.array([g.get_node_value(i, j, k) for k in range(dims[2]) for j in range(dims[1]) for i in range(dims[0])])
            ck.close(np.abs(val), d, "sdf.magnitude", "a sampled value is not the distance to the surface", tol=2e-6, scale=size, shape=name)
            far = d > 1e-5 * size
            wrong = far & ((val < 0) != (w > 0.5))
            ck.expect(not wrong.any(), "sdf.sign", "a sampled distance has the wrong sign", where=P[wrong][:3], value=val[wrong][:3])
            ck.event("nodes_inside", int((far & (w > 0.5)).sum()))
            ck.event("nodes_outside", int((far & (w < 0.5)).sum()))
            # the interpolated field: 1-Lipschitz samples, so it stays within one cell diagonal of the distance
            diag = np.linalg.norm(g.spacing)
            Q = g.min_coord + rng.uniform(size=(12, 3)) * (g.max_coord - g.min_coord)
            dq = ref.mesh_distance(Q, V, T) * np.where(ref.winding_number(Q, V, T) > 0.5, -1, 1)
            for p, x in zip(Q, dq):
                got = GRID.get_value(g, p)
                ck.expect(abs(got - x) <= diag * 1.0001 + 1e-6 * size, "sdf.interpolated", "the interpolated distance is farther from the distance than a cell diagonal", p=p, got=got, want=x, diag=diag)
            # gradient of the interpolated field never exceeds the Lipschitz bound sqrt(3) and points outward across a face region
            for p in Q[:4]:
                gr = GRID.get_gradient(g, p)
                ck.expect(np.linalg.norm(gr) <= np.sqrt(3) * (1 + 1e-5) + 1e-6, "sdf.gradient_bound", "the interpolated gradient exceeds the Lipschitz bound of distance samples", p=p, got=gr)


def sdf_box(ck):
    """analytic box: the field is exact; near the middle of each face the field is linear, so interpolation and gradient are exact"""
    rng = ck.rng("box")
    for it in range(ck.n(40, 300)):
        s = 10.0 ** rng.uniform(-2, 2)
        h = rng.uniform(0.5, 1.0, size=3) * s
        c = rng.normal(size=3) * s
        V, T = box(*h)
        dims = [int(x) for x in rng.integers(9, 16, size=3)]
        pad = 0.3 * s
        ck.case(dict(kind="box", h=h, c=c, dims=dims))
        with ck.guard("sdf.exception"), quiet():
            g = GRID.create_signed_distance(V + c, T, *dims, boundary=pad)
            for a in range(3):
                for sg in (-1, 1):
                    p = c.copy()
                    p[a] += sg * h[a]
                    n = np.zeros(3)
                    n[a] = sg
                    others = [h[b] for b in range(3) if b != a]
                    off = rng.uniform(-0.05, 0.05) * s
                    # the closest feature stays this face in the whole cell around p
                    if min(min(others), h[a]) < 2.5 * max(g.spacing) + abs(off):
                        continue
                    ck.event("face_probe")
                    ck.close(GRID.get_value(g, p + off * n), off, "sdf.face_value", "the interpolated distance at a flat face is wrong", tol=1e-6, scale=s)
                    ck.close(GRID.get_gradient(g, p + off * n), n, "sdf.face_gradient", "the interpolated gradient at a flat face is not the outward unit normal", tol=2e-5)
    ck.expect_error(lambda: GRID.create_signed_distance(*box(1, 1, 1), 3, 3, 3, boundary=-0.1), "sdf.negative_padding", "negative padding accepted")


def curv(g, H, x):
    n = np.linalg.norm(g)
    l = n if n >= 0.5 else 1.0
    return (np.trace(H) * (g @ g) - g @ H @ g) / l ** 3, n


def curvature(ck):
    rng = ck.rng("quadratic")
    for it in range(ck.n(60, 500)):
        dims = [int(x) for x in rng.integers(3, 8, size=3)]
        ext = rng.uniform(0.3, 3, size=3) * 10.0 ** rng.uniform(-1, 1)
        mn = rng.normal(size=3)
        phi = GRID.Grid(mn.copy(), mn + ext, *dims)
        A = rng.normal(size=(3, 3))
        A = (A + A.T) * 10.0 ** rng.uniform(-1, 1.5) / ext.max()
        b = ref.rand_unit(rng) * rng.uniform(0.2, 2)
        c0 = mn + 0.5 * ext
        P = node_coords(mn, mn + ext, dims)
        D = P - c0
        phi.values = D @ b + 0.5 * np.einsum("ni,ij,nj->n", D, A, D) + rng.normal()
        ck.case(dict(kind="quadratic", dims=dims, ext=ext, A=A, b=b))
        v0 = phi.values.copy()
        with ck.guard("curvature.exception"):
            kap = MC.create_from_sdf(phi)
        ck.expect(np.array_equal(phi.values, v0), "curvature.input_untouched", "computing curvature changed the distance field")
        ck.expect((kap.I, kap.J, kap.K) == tuple(dims), "curvature.resolution", "curvature grid has another resolution")
        ck.close(np.r_[kap.min_coord, kap.max_coord], np.r_[mn, mn + ext], "curvature.box", "curvature grid has another box")
        lim = 1 / (ext / (np.array(dims) - 1)).min()
        for k in range(1, dims[2] - 1):
            for j in range(1, dims[1] - 1):
                for i in range(1, dims[0] - 1):
                    d = D[i + dims[0] * (j + dims[1] * k)]
                    want, n = curv(b + A @ d, A, d)
                    if abs(n - 0.5) < 1e-6:
                        continue
                    ck.event("curvature_nodes")
                    ck.event("curvature_clamped", int(abs(want) > lim))
                    ck.close(kap.get_node_value(i, j, k), np.clip(want, -lim, lim), "curvature.quadratic",
                             "the curvature of a quadratic field (exact under central differences) is wrong", tol=1e-7, scale=1 / ext.min())
    rng = ck.rng("analytic")
    for it in range(ck.n(16, 100)):
        s = 10.0 ** rng.uniform(-1.5, 1.5)
        kind = ["sphere", "cylinder", "plane", "torus"][it % 4]
        n = int(rng.integers(17, 22)) if not ck.thorough else int(rng.integers(17, 33))
        dims = [n, n + int(rng.integers(0, 3)), n - int(rng.integers(0, 3))]
        R = ref.rand_rot(rng)
        off = rng.normal(size=3) * 0.05 * s
        mn, mx = -1.5 * s * np.ones(3), 1.5 * s * np.ones(3)
        P = node_coords(mn, mx, dims)
        X = (P - off) @ R
        if kind == "sphere":
            phi = np.linalg.norm(X, axis=1) - s
            want = 2 / s
        elif kind == "cylinder":
            phi = np.linalg.norm(X[:, :2], axis=1) - s
            want = 1 / s
        elif kind == "plane":
            phi = X[:, 0]
            want = 0.0
        else:
            rho = np.linalg.norm(X[:, :2], axis=1)
            q = np.c_[rho - s, X[:, 2]]
            phi = np.linalg.norm(q, axis=1) - 0.35 * s
            want = None
        g = GRID.Grid(mn, mx, *dims)
        g.values = phi
        ck.case(dict(kind=kind, s=s, dims=dims))
        with ck.guard("curvature.exception"):
            kap = MC.create_from_sdf(g)
        h = g.spacing.max()
        cnt = 0
        for k in range(1, dims[2] - 1):
            for j in range(1, dims[1] - 1):
                for i in range(1, dims[0] - 1):
                    l = i + dims[0] * (j + dims[1] * k)
                    if abs(phi[l]) > h:
                        continue
                    if kind == "torus":
                        rho_l, r_l = rho[l], 0.35 * s + phi[l]
                        if r_l < 2.0 * h:
                            continue
                        w = 1 / r_l + (rho_l - s) / (r_l * rho_l)
                        tol = 0.35
                    else:
                        r = s + phi[l]
                        w = {"sphere": 2 / r, "cylinder": 1 / r, "plane": 0.0}[kind]
                        tol = 0.06
                    cnt += 1
                    ck.close(kap.get_node_value(i, j, k) * s, w * s, "curvature." + kind, "mean curvature next to the surface of a %s is wrong" % kind, tol=tol)
        ck.event("curvature_surface_nodes", cnt)


ck.assumptions += ["the mean curvature is the sum of the principal curvatures (2/r on a sphere), clamped to one over the smallest spacing, and is 0 on the outermost nodes, as the code documents",
                   "gradients shorter than 0.5 are not normalised (regularisation of the medial axis)"]
ck.require(**{"sdf.sign": 40, "sdf.magnitude": 40, "nodes_inside": 1000, "nodes_outside": 5000, "face_probe": 20, "curvature_nodes": 1000, "curvature_clamped": 1, "curvature.sphere": 50, "curvature.torus": 20})
ck.run(sdf, sdf_box, curvature)
