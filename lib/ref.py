"""Independent reference mathematics used by the oracles (no repository code)."""
import itertools
import math

import numpy as np


def skew(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0.0]])


def rodrigues(axis, angle):
    u = np.asarray(axis, float)
    u = u / np.linalg.norm(u)
    K = skew(u)
    return np.eye(3) + math.sin(angle) * K + 2 * math.sin(angle / 2) ** 2 * (K @ K)


def expm3(v):
    """Rotation matrix of a rotation vector, accurate at zero."""
    v = np.asarray(v, float)
    t = np.linalg.norm(v)
    K = skew(v)
    if t < 1e-4:
        a = 1 - t * t / 6 + t ** 4 / 120
        b = 0.5 - t * t / 24 + t ** 4 / 720
    else:
        a = math.sin(t) / t
        b = 2 * (math.sin(t / 2) / t) ** 2
    return np.eye(3) + a * K + b * (K @ K)


def qmat(q):
    """Rotation matrix of a unit quaternion [s,x,y,z] through R = (s^2-|v|^2)I + 2vv' + 2s[v]x."""
    s, v = q[0], np.asarray(q[1:4], float)
    return (s * s - v @ v) * np.eye(3) + 2 * np.outer(v, v) + 2 * s * skew(v)


def qmul(a, b):
    s = a[0] * b[0] - np.dot(a[1:], b[1:])
    v = a[0] * np.asarray(b[1:]) + b[0] * np.asarray(a[1:]) + np.cross(a[1:], b[1:])
    return np.array([s, *v])


def qconj(a):
    return np.array([a[0], -a[1], -a[2], -a[3]])


def quat(axis, angle):
    u = np.asarray(axis, float)
    u = u / np.linalg.norm(u)
    return np.array([math.cos(angle / 2), *(math.sin(angle / 2) * u)])


def same_rot(q1, q2):
    """max difference of two quaternions up to sign"""
    q1, q2 = np.asarray(q1, float), np.asarray(q2, float)
    return min(np.max(np.abs(q1 - q2)), np.max(np.abs(q1 + q2)))


def rand_unit(rng, n=3):
    while True:
        v = rng.normal(size=n)
        l = np.linalg.norm(v)
        if l > 1e-3:
            return v / l


def rand_quat(rng):
    return rand_unit(rng, 4)


def rand_rot(rng):
    return qmat(rand_quat(rng))


def hostile_axis(rng):
    k = rng.integers(0, 6)
    if k <= 1:
        return rand_unit(rng)
    e = np.zeros(3)
    e[rng.integers(0, 3)] = rng.choice([-1.0, 1.0])
    if k == 2:
        return e
    if k == 3:
        d = e + rng.normal(size=3) * 10.0 ** rng.uniform(-12, -3)
        return d / np.linalg.norm(d)
    if k == 4:
        d = rng.choice([-1.0, 1.0], size=3)
        d[rng.integers(0, 3)] *= rng.choice([0.0, 1.0])
        return d / np.linalg.norm(d)
    d = rng.choice([-1.0, 1.0], size=3) + rng.normal(size=3) * 10.0 ** rng.uniform(-12, -3)
    return d / np.linalg.norm(d)


def hostile_angle(rng):
    k = rng.integers(0, 6)
    base = rng.choice([0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, 2 * math.pi / 3])
    if k <= 1:
        return rng.uniform(-2 * math.pi, 2 * math.pi)
    if k == 2:
        return float(base)
    return float(base + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-12, -2))


def hostile_rotation(rng):
    """(axis, angle)"""
    return hostile_axis(rng), hostile_angle(rng)


def hostile_unit_quat(rng):
    a, t = hostile_rotation(rng)
    q = quat(a, t)
    return q * rng.choice([-1.0, 1.0])


def cube_group():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product([1, -1], repeat=3):
            R = np.zeros((3, 3))
            for i in range(3):
                R[i, p[i]] = s[i]
            if np.linalg.det(R) > 0:
                out.append(R)
    return out


# ---------------------------------------------------------------- meshes
def mesh_volume_centroid_inertia(V, T):
    """Exact volume, first and second moments of the solid enclosed by a closed triangle mesh by
    summing signed tetrahedra against the vertex mean (unit density). Returns vol, com, inertia about com."""
    V = np.asarray(V, float)
    o = V.mean(axis=0)
    A, B, C = (V[T[:, k]] - o for k in range(3))
    d = np.einsum("ij,ij->i", A, np.cross(B, C))  # 6*vol
    vol = d.sum() / 6
    com = ((A + B + C) * d[:, None]).sum(axis=0) / 24 / vol
    # second moments: int x x^T over tet(0,a,b,c) = d/120 * ( sum_i v_i v_i^T + (sum v)(sum v)^T )
    S = A + B + C
    cov = np.einsum("i,ij,ik->jk", d, A, A) + np.einsum("i,ij,ik->jk", d, B, B) + np.einsum("i,ij,ik->jk", d, C, C) \
        + np.einsum("i,ij,ik->jk", d, S, S)
    cov = cov / 120
    cov_c = cov - vol * np.outer(com, com)
    I = np.trace(cov_c) * np.eye(3) - cov_c
    return vol, com + o, I


def surface_defects(T, nverts=None):
    """Number of directed edges without exactly one opposite partner, plus repeated directed edges."""
    T = np.asarray(T)
    E = {}
    for t in T:
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            E[(int(a), int(b))] = E.get((int(a), int(b)), 0) + 1
    bad = 0
    for (a, b), k in E.items():
        if k != 1 or a == b or E.get((b, a), 0) != 1:
            bad += 1
    return bad


def weld(V, T, tol=1e-9):
    """Merge coincident vertices; returns new V, T (degenerate triangles kept)."""
    V = np.asarray(V, float)
    scale = max(1e-300, np.max(np.abs(V)))
    key = {}
    idx = np.zeros(len(V), int)
    out = []
    for i, v in enumerate(V):
        k = tuple(np.round(v / (tol * scale)).astype(np.int64))
        if k not in key:
            key[k] = len(out)
            out.append(v)
        idx[i] = key[k]
    return np.array(out), idx[np.asarray(T)]


def point_triangle_distance(p, a, b, c):
    """Distance of points p (n,3) to a triangle."""
    p = np.atleast_2d(p)
    ab, ac = b - a, c - a
    n = np.cross(ab, ac)
    nn = n @ n
    best = np.full(len(p), np.inf)
    if nn > 0:
        d = (p - a) @ n / nn
        proj = p - d[:, None] * n
        w = np.cross(ab, proj - a) @ n / nn
        v = np.cross(proj - a, ac) @ n / nn
        inside = (w >= 0) & (v >= 0) & (v + w <= 1)
        best = np.where(inside, np.abs(d) * math.sqrt(nn), best)
    for u, v in ((a, b), (b, c), (c, a)):
        e = v - u
        ee = e @ e
        t = np.clip(((p - u) @ e) / ee if ee > 0 else np.zeros(len(p)), 0, 1)
        q = u + t[:, None] * e
        best = np.minimum(best, np.linalg.norm(p - q, axis=1))
    return best


def _cross(a, b):
    return np.stack((a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                     a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]), axis=-1)


def _mesh_distance_block(P, A, B, C):
    """(n,3) x (m,3) -> (n,): all pairs at once."""
    ab, ac = B - A, C - A
    n = _cross(ab, ac)
    nn = np.einsum("ij,ij->i", n, n)
    ok = nn > 0
    safe = np.where(ok, nn, 1.0)
    pa = P[:, None, :] - A[None]
    h = np.einsum("nmi,mi->nm", pa, n)
    pr = pa - (h / safe)[..., None] * n[None]
    w = np.einsum("nmi,mi->nm", _cross(np.broadcast_to(ab[None], pr.shape), pr), n) / safe
    v = np.einsum("nmi,mi->nm", _cross(pr, np.broadcast_to(ac[None], pr.shape)), n) / safe
    best = np.where(ok & (w >= 0) & (v >= 0) & (v + w <= 1), np.abs(h) / np.sqrt(safe), np.inf)
    for u, x in ((A, B), (B, C), (C, A)):
        e = x - u
        ee = np.einsum("ij,ij->i", e, e)
        pu = P[:, None, :] - u[None]
        t = np.clip(np.einsum("nmi,mi->nm", pu, e) / np.where(ee > 0, ee, 1.0), 0, 1)
        best = np.minimum(best, np.linalg.norm(pu - t[..., None] * e[None], axis=2))
    return best.min(1)


def mesh_distance(P, V, T):
    """Unsigned distance of points to a triangle mesh (brute force)."""
    P, T = np.atleast_2d(np.asarray(P, float)), np.asarray(T)
    A, B, C = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
    step = max(1, 200000 // max(len(T), 1))
    return np.concatenate([_mesh_distance_block(P[i:i + step], A, B, C) for i in range(0, len(P), step)]) if len(P) else np.zeros(0)


def winding_number(P, V, T):
    """Generalised winding number by summed solid angles (1 inside, 0 outside)."""
    P = np.atleast_2d(P)
    T = np.asarray(T)
    w = np.zeros(len(P))
    step = max(1, 200000 // max(len(T), 1))
    for i in range(0, len(P), step):
        a, b, c = (V[T[:, k]][None] - P[i:i + step, None, :] for k in range(3))
        la, lb, lc = (np.linalg.norm(x, axis=2) for x in (a, b, c))
        num = np.sum(a * _cross(b, c), axis=2)
        den = la * lb * lc + np.sum(a * b, 2) * lc + np.sum(b * c, 2) * la + np.sum(c * a, 2) * lb
        w[i:i + step] = np.sum(2 * np.arctan2(num, den), axis=1)
    return w / (4 * math.pi)
