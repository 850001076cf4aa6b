"""Skeletons for the inverse kinematics checks and an independent forward kinematics by matrix products."""
import numpy as np
import rainbow.simulators.inverse_kinematics.api as IK
import ref

CODES = ['XZX', 'XYX', 'YXY', 'YZY', 'ZYZ', 'ZXZ', 'XZY', 'XYZ', 'YXZ', 'YZX', 'ZYX', 'ZXY']
GEN = {"X": np.array([[0., 0, 0], [0, 0, -1], [0, 1, 0]]), "Y": np.array([[0., 0, 1], [0, 0, 0], [-1, 0, 0]]), "Z": np.array([[0., -1, 0], [1, 0, 0], [0, 0, 0]])}


def rot(axis, a, order=0):
    """rotation about a coordinate axis, or its first or second derivative in the angle"""
    K = GEN[axis]
    c, s = np.cos(a), np.sin(a)
    if order == 0:
        return np.eye(3) + s * K + (1 - c) * K @ K
    if order == 1:
        return c * K + s * K @ K
    return -s * K + c * K @ K


def spec(rng, most=25, plain=False):
    n = int(rng.choice([1, 2, 3, 4, 6, 9, 12, 25]))
    n = min(n, most)
    kind = str(rng.choice(["chain", "star", "tree"]))
    size = 1.0 if plain else float(10 ** rng.choice([0, 0, 0, -3, 3, rng.uniform(-3, 3)]))
    turn = float(rng.choice([0.5, 3, 3, 30]))
    out = []
    for i in range(n):
        parent = -1 if i == 0 else i - 1 if kind == "chain" else 0 if kind == "star" else int(rng.integers(i))
        t = rng.normal(size=3) * size
        if rng.random() < 0.2:
            t = np.eye(3)[rng.integers(3)] * size * rng.choice([-1, 1])
        if rng.random() < 0.08:
            t = np.zeros(3)
        a = rng.normal(size=3) * turn
        if rng.random() < 0.2:
            a = rng.choice([0, 0, np.pi / 2, -np.pi / 2, np.pi], size=3)
        out.append(dict(parent=parent, t=t, angles=a, code=str(rng.choice(CODES)) if rng.random() < 0.9 else "ZYZ"))
    return out


def build(sp):
    S = IK.create_skeleton()
    for i, b in enumerate(sp):
        a, t = [float(x) for x in b["angles"]], [float(x) for x in b["t"]]
        if i == 0:
            IK.create_root(S, *a, *t, b["code"])
        else:
            IK.add_bone(S, b["parent"], *a, *t, b["code"])
    return S


def skeleton(rng, most=25, plain=False):
    sp = spec(rng, most, plain)
    S = build(sp)
    IK.update_skeleton(S)
    return S, sp


def path(sp, i):
    out = []
    while i >= 0:
        out.append(i)
        i = sp[i]["parent"]
    return out[::-1]


def chains(rng, S, sp):
    if rng.random() < 0.6:
        C = IK.make_chains(S)
    else:                                    # any bones, the same one possibly twice
        C = []
        for _ in range(int(rng.integers(1, 4))):
            c = IK.Chain()
            c.skeleton = S
            c.bones = path(sp, int(rng.integers(len(sp))))
            C.append(c)
    size = max(np.linalg.norm(b["t"]) for b in sp) or 1.0
    for c in C:
        if rng.random() < 0.5:
            c.tool = rng.normal(size=3) * size
        c.goal = rng.normal(size=3) * size * rng.choice([1, 3, 30])
    if rng.random() < 0.1:
        c = C[0]
        c.goal = IK.get_end_effector(c, S).copy()
    return C


def snapshot(S):
    return [(b.idx, b.euler_code, b.alpha, b.beta, b.gamma, b.parent, tuple(b.children)) for b in S.bones], [np.concatenate([b.t, b.t_wcs, b.q_wcs]) for b in S.bones]


def same(a, b, tol=0.0):
    return a[0] == b[0] and all(np.abs(x - y).max() <= tol for x, y in zip(a[1], b[1]))


def frames(sp, angles):
    """world rotation and origin of every bone"""
    R, o = [], []
    for i, b in enumerate(sp):
        Rp, op = (np.eye(3), np.zeros(3)) if b["parent"] < 0 else (R[b["parent"]], o[b["parent"]])
        A = angles[3 * i:3 * i + 3]
        R.append(Rp @ rot(b["code"][0], A[0]) @ rot(b["code"][1], A[1]) @ rot(b["code"][2], A[2]))
        o.append(op + Rp @ b["t"])
    return R, o


def effector(sp, angles, bone, tool, orders=None):
    """end effector position, or its derivative with the given order per angle index"""
    orders = orders or {}
    x = np.asarray(tool, float)
    taken = 0
    for i in path(sp, bone)[::-1]:
        for k in (2, 1, 0):
            o = orders.get(3 * i + k, 0)
            taken += o
            x = rot(sp[i]["code"][k], angles[3 * i + k], o) @ x
        if not taken:                        # a bone's vector does not depend on its own or outer angles
            x = x + sp[i]["t"]
    return x if taken == sum(orders.values()) else np.zeros(3)


def exact(sp, angles, ends, second=False):
    """positions of the end effectors stacked, their first and second derivatives in all angles, and a size"""
    n, m = 3 * len(sp), len(ends)
    F, D = np.zeros(3 * m), np.zeros((3 * m, n))
    DD = np.zeros((3 * m, n, n)) if second else None
    size = 0.0
    for e, (bone, tool) in enumerate(ends):
        on = [3 * i + k for i in path(sp, bone) for k in range(3)]
        sl = slice(3 * e, 3 * e + 3)
        F[sl] = effector(sp, angles, bone, tool)
        size = max(size, np.linalg.norm(tool) + sum(np.linalg.norm(sp[i]["t"]) for i in path(sp, bone)))
        for j in on:
            D[sl, j] = effector(sp, angles, bone, tool, {j: 1})
        if second:
            for a in on:
                for b in on:
                    if a > b:
                        continue
                    o = {a: 2} if a == b else {a: 1, b: 1}
                    DD[sl, a, b] = DD[sl, b, a] = effector(sp, angles, bone, tool, o)
    return F, D, DD, size or 1.0
