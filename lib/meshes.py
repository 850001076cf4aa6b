"""Closed, outward-oriented triangle meshes built here (independently of the repository)."""
import itertools

import numpy as np


def _orient(V, T):
    """Flip all faces when the enclosed volume is negative."""
    V = np.asarray(V, float)
    T = np.asarray(T, np.int64)
    a, b, c = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
    if np.einsum("ij,ij->i", a, np.cross(b, c)).sum() < 0:
        T = T[:, ::-1].copy()
    return V, T


def box(hx=0.5, hy=0.5, hz=0.5):
    V = np.array(list(itertools.product((-hx, hx), (-hy, hy), (-hz, hz))))
    Q = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
    T = []
    for a, b, c, d in Q:
        T += [(a, b, c), (a, c, d)]
    return _orient(V, T)


def grid_box(hx, hy, hz, n):
    """Box whose faces are split into n x n quads (two triangles each), welded."""
    idx, V, T = {}, [], []

    def vid(k):
        if k not in idx:
            idx[k] = len(V)
            V.append([(2.0 * k[0] / n - 1) * hx, (2.0 * k[1] / n - 1) * hy, (2.0 * k[2] / n - 1) * hz])
        return idx[k]

    for ax in range(3):
        for side in (0, n):
            u, v = (ax + 1) % 3, (ax + 2) % 3
            for i in range(n):
                for j in range(n):
                    q = []
                    for di, dj in ((0, 0), (1, 0), (1, 1), (0, 1)):
                        k = [0, 0, 0]
                        k[ax], k[u], k[v] = side, i + di, j + dj
                        q.append(vid(tuple(k)))
                    if side == 0:
                        q = q[::-1]
                    T += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
    return _orient(V, T)


def tetra():
    V = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) / np.sqrt(3)
    return _orient(V, [(0, 1, 2), (0, 3, 1), (0, 2, 3), (1, 3, 2)])


def octahedron():
    V = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.0]])
    T = []
    for sx in (0, 1):
        for sy in (2, 3):
            for sz in (4, 5):
                t = (sx, sy, sz)
                n = np.cross(V[t[1]] - V[t[0]], V[t[2]] - V[t[0]])
                T.append(t if n @ V[list(t)].sum(0) > 0 else t[::-1])
    return _orient(V, T)


def sphere(r=1.0, levels=2):
    V, T = octahedron()
    V = [list(v) for v in V]
    T = [tuple(t) for t in T]
    for _ in range(levels):
        mid, out = {}, []

        def m(a, b):
            k = (min(a, b), max(a, b))
            if k not in mid:
                p = np.array(V[a]) + np.array(V[b])
                V.append(list(p / np.linalg.norm(p)))
                mid[k] = len(V) - 1
            return mid[k]

        for a, b, c in T:
            ab, bc, ca = m(a, b), m(b, c), m(c, a)
            out += [(a, ab, ca), (b, bc, ab), (c, ca, bc), (ab, bc, ca)]
        T = out
    return _orient(np.array(V) * r, T)


def prism(profile, h):
    """Extrude a star-shaped (about its centroid) polygon in the xy plane to z in [-h/2, h/2]."""
    P = np.asarray(profile, float)
    n = len(P)
    c = P.mean(0)
    V = [(x, y, -h / 2) for x, y in P] + [(x, y, h / 2) for x, y in P] + [(c[0], c[1], -h / 2), (c[0], c[1], h / 2)]
    T = []
    for i in range(n):
        j = (i + 1) % n
        T += [(i, j, n + j), (i, n + j, n + i), (2 * n, j, i), (2 * n + 1, n + i, n + j)]
    return _orient(V, T)


def cylinder(r=0.5, h=1.0, n=12):
    a = 2 * np.pi * np.arange(n) / n
    return prism(np.stack([r * np.cos(a), r * np.sin(a)], 1), h)


def cone(r=0.5, h=1.0, n=10):
    a = 2 * np.pi * np.arange(n) / n
    V = [(r * np.cos(t), r * np.sin(t), 0.0) for t in a] + [(0, 0, 0.0), (0, 0, h)]
    T = []
    for i in range(n):
        j = (i + 1) % n
        T += [(n, j, i), (i, j, n + 1)]
    return _orient(V, T)


def star_prism(rng, n=5, h=0.7):
    """Concave extruded star."""
    a = 2 * np.pi * np.arange(2 * n) / (2 * n)
    r = np.where(np.arange(2 * n) % 2, 0.35 + 0.2 * rng.random(), 1.0)
    return prism(np.stack([r * np.cos(a), r * np.sin(a)], 1), h)


def l_shape(a=1.0, t=0.4, h=0.5):
    """L-shaped extruded profile (concave, no symmetry plane through the axes in general)."""
    P = np.array([(0, 0), (a, 0), (a, t), (t, t), (t, a), (0, a)], float)
    n = 6
    V = [(x, y, 0.0) for x, y in P] + [(x, y, h) for x, y in P]
    tri = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5)]
    T = []
    for i in range(n):
        j = (i + 1) % n
        T += [(i, j, n + j), (i, n + j, n + i)]
    for x, y, z in tri:
        T += [(z, y, x), (n + x, n + y, n + z)]
    return _orient(V, T)


def torus(R=1.0, r=0.35, n=14, m=8):
    V, T = [], []
    for i in range(n):
        for j in range(m):
            a, b = 2 * np.pi * i / n, 2 * np.pi * j / m
            V.append(((R + r * np.cos(b)) * np.cos(a), (R + r * np.cos(b)) * np.sin(a), r * np.sin(b)))
    for i in range(n):
        for j in range(m):
            a, b, c, d = i * m + j, ((i + 1) % n) * m + j, ((i + 1) % n) * m + (j + 1) % m, i * m + (j + 1) % m
            T += [(a, b, c), (a, c, d)]
    return _orient(V, T)


def convex_random(rng, n=14):
    from scipy.spatial import ConvexHull
    P = rng.normal(size=(n, 3))
    P /= np.linalg.norm(P, axis=1)[:, None]
    P *= np.array([1.0, rng.uniform(0.5, 1), rng.uniform(0.5, 1)])
    H = ConvexHull(P)
    used = np.unique(H.simplices)
    V = P[used]
    T = np.searchsorted(used, H.simplices)
    c = V.mean(0)
    out = []
    for t in T:
        nrm = np.cross(V[t[1]] - V[t[0]], V[t[2]] - V[t[0]])
        out.append(t if nrm @ (V[t[0]] - c) > 0 else t[::-1])
    return _orient(V, np.array(out))


KINDS = ["box", "slab", "tetra", "octa", "sphere", "cyl", "cone", "star", "lshape", "torus", "hull", "needle"]


def make(kind, rng):
    """A unit-ish sized closed mesh of the named kind with random proportions."""
    u = lambda a, b: float(rng.uniform(a, b))
    if kind == "box":
        return box(u(.3, .8), u(.3, .8), u(.3, .8))
    if kind == "cube":
        return box(.5, .5, .5)
    if kind == "slab":
        return box(u(.6, 1.), u(.6, 1.), u(.05, .12))
    if kind == "needle":
        return box(u(.04, .08), u(.8, 1.2), u(.04, .08))
    if kind == "tetra":
        return tetra()
    if kind == "octa":
        return octahedron()
    if kind == "sphere":
        return sphere(u(.4, 1.), int(rng.integers(1, 3)))
    if kind == "cyl":
        return cylinder(u(.3, .8), u(.4, 1.5), int(rng.integers(5, 16)))
    if kind == "cone":
        return cone(u(.3, .8), u(.4, 1.5), int(rng.integers(4, 14)))
    if kind == "star":
        return star_prism(rng, int(rng.integers(3, 7)), u(.3, .9))
    if kind == "lshape":
        return l_shape(u(.8, 1.3), u(.25, .45), u(.3, .8))
    if kind == "torus":
        return torus(u(.7, 1.1), u(.2, .4))
    if kind == "hull":
        return convex_random(rng, int(rng.integers(8, 24)))
    raise ValueError(kind)
