import numpy as np
from scipy.optimize import nnls
from vh import Check

import ref
import soft
from soft import API

import rainbow.geometry.grid3 as GRID
import rainbow.simulators.prox_soft_bodies.collision_detection as CD

ck = Check("C26", "2-3 soft bodies of 4 mesh families, sizes 0.05..5, placed touching, overlapping, apart, under rigid motions, stretch, shear and bending, found with hierarchies and with spatial hashing; one step of colliding "
                  "free, fixed and partly pinned bodies of different density and friction with every solver scheme, its velocity changes explained from the reported contact points alone; bodies folded into themselves; "
                  "non-trivial: configurations with contacts.")

N_DIR = 64
k_ = np.arange(N_DIR)
DISK = np.stack([np.cos(2 * np.pi * k_ / N_DIR), np.sin(2 * np.pi * k_ / N_DIR)], 1) / np.cos(np.pi / N_DIR)


def surface(T):
    """outward triangles of positively oriented tetrahedra"""
    F = np.concatenate([T[:, [0, 2, 1]], T[:, [0, 1, 3]], T[:, [1, 2, 3]], T[:, [0, 3, 2]]])
    key = np.sort(F, axis=1)
    _, first, count = np.unique(key, axis=0, return_index=True, return_counts=True)
    return F[first[count == 1]]


def rotation(rng):
    return ref.qmat(ref.rand_quat(rng))


def frame(n):
    a = np.eye(3)[int(np.argmin(np.abs(n)))]
    s = np.cross(n, a)
    s /= np.linalg.norm(s)
    return s, np.cross(n, s)


def cell(b):
    return float(np.linalg.norm(np.asarray(b.b.grid.spacing)))


class Scene:
    def __init__(self, rng, hashing, **params):
        self.rng = rng
        self.scale = float(rng.choice([0.05, 0.5, 1, 5]))
        self.env = float(rng.choice([0.0, 0.005, 0.02])) * self.scale
        self.e = soft.engine(resolution=int(rng.choice([8, 12, 16])), envelope=self.env, use_spatial_hashing=hashing, **params)
        self.B = []
        self.mu = {}
        self.smooth = rng.random() < 0.35

    def add(self, kind=None, **kw):
        rng = self.rng
        V, T = soft.mesh(rng, kind)
        k = len(self.B)
        V = V * self.scale * rng.uniform(0.6, 1.3) + rng.normal(size=3) * self.scale * rng.choice([0, 3])
        V = V @ rotation(rng).T
        rho = kw.pop("rho", 10 ** rng.uniform(1, 3.5))
        b = soft.Body(self.e, "b%d" % k, V, T, model=str(rng.choice(soft.MODELS)), E=rho * self.scale ** 2 * 10 ** rng.uniform(0, 1.5), nu=rng.uniform(0, 0.35), rho=rho, **kw)
        b.tri = surface(b.T)
        self.B.append(b)
        for o in self.B:
            mu = 0.0 if self.smooth else float(rng.choice([0.0, 0.3, 1.0, 2.0]))
            self.mu[frozenset((o.name, b.name))] = mu
            API.create_surfaces_interaction(self.e, *((o.material, b.material) if rng.random() < 0.5 else (b.material, o.material)), mu)
        return b

    def by(self, body):
        return next(b for b in self.B if b.b is body)


def affine(rng, kind):
    R = rotation(rng)
    if kind == "rigid":
        return R
    U = rotation(rng)
    s = np.exp(rng.uniform(-0.35, 0.35, 3))
    return R @ U @ np.diag(s) @ U.T


def bend(rng, x):
    """bend about a random axis, by up to a radian over the length"""
    lo, hi = x.min(0), x.max(0)
    c, L = (lo + hi) / 2, np.ptp(x, axis=0).max()
    Q = rotation(rng)
    y = (x - c) @ Q
    k = rng.uniform(-0.8, 0.8) / L
    if abs(k) < 1e-3 / L:
        return x
    r = 1 / k + y[:, 1]
    z = np.stack([r * np.sin(k * y[:, 0]), r * np.cos(k * y[:, 0]) - 1 / k, y[:, 2]], 1)
    return z @ Q.T + c


def place(rng, S, how):
    """spatial coordinates of every body; the second and third are put relative to the first"""
    out = []
    for i, b in enumerate(S.B):
        kind = str(rng.choice(["rest", "rigid", "affine", "bend"]))
        x = b.x0 - b.x0.mean(0)
        if kind in ("rigid", "affine"):
            x = x @ affine(rng, kind).T
        if kind == "bend":
            y = bend(rng, x)
            if np.all(soft.volumes(y, b.T) > 0.2 * b.vol):
                x = y
        if i:
            A = out[int(rng.integers(i))]
            a = S.B[len(out) - 1]
            n = ref.rand_unit(rng)
            side = ref.rand_unit(rng) * S.scale * rng.uniform(0, 0.2)
            side -= n * (side @ n)
            x = x + A.mean(0) + side
            x = x + n * ((A @ n).max() - (x @ n).min())            # just separated along n
            if how == "apart":
                x = x + n * rng.uniform(0.1, 1.0) * S.scale
            else:
                a = S.B[[o is A for o in out].index(True)]
                want = S.scale * (rng.uniform(0.0, 0.03) if how == "near" else rng.uniform(0.05, 0.3))
                for _ in range(60):
                    if depth(x, b.tri, A, a.tri) >= want:
                        break
                    x = x - n * 0.03 * S.scale
        else:
            x = x + rng.normal(size=3) * S.scale * rng.choice([0, 1, 20])
        out.append(x)
    for b, x in zip(S.B, out):
        API.set_spatial_coordinates(S.e, b.name, x)


def depth(x, tx, y, ty):
    """how deep a vertex of one lies inside the other"""
    d = -1.0
    for P, V, T in ((x, y, ty), (y, x, tx)):
        ins = winding_in(P, V, T)
        if ins.any():
            d = max(d, float(ref.mesh_distance(P[ins], V, T).max()))
    return d


def detect(ck, S):
    S.e.params.time_stamp += 1
    with ck.guard("detect.exception", "collision detection raises"):
        CD.run_collision_detection(S.e, {}, False)
    return list(S.e.contact_points)


def winding_in(P, x, tri):
    out = np.zeros(len(P), bool)
    box = np.all((P > x.min(0)) & (P < x.max(0)), axis=1)
    if box.any():
        out[box] = np.abs(ref.winding_number(P[box], x, tri)) > 0.5
    return out


def judge_contacts(ck, S, cps, selfs=False):
    e = S.e
    for cp in cps:
        A, B = S.by(cp.bodyA), S.by(cp.bodyB)
        if not selfs:
            ck.expect(A is not B or pierces(A.state()[0], A.tri, -1e-9), "contact.self", "a body that does not fold into itself touches itself", name=A.name)
        xa, xb = A.state()[0], B.state()[0]
        ta, tb = A.T[cp.idx_tetA], B.T[cp.idx_tetB]
        oa, ob = np.asarray(cp.omegaA, float), np.asarray(cp.omegaB, float)
        p, n, g = np.asarray(cp.p, float), np.asarray(cp.n, float), float(cp.g)
        off = np.abs(p).max() + S.scale
        ck.close([oa.sum(), ob.sum()], [1, 1], "contact.weights", "barycentric weights do not add up to one", tol=1e-9 * (1 + np.abs(oa).max() + np.abs(ob).max()) * off / S.scale)
        ill = off * (1 + np.abs(oa).max() + np.abs(ob).max())
        ck.close(oa @ xa[ta], p, "contact.pointA", "the weights of the first body do not give the contact point", tol=1e-8, scale=ill)
        ck.close(ob @ xb[tb], p, "contact.pointB", "the weights of the second body do not give the contact point", tol=1e-8, scale=ill)
        ck.close(np.linalg.norm(n), 1.0, "contact.unit", "a contact normal is no unit vector", tol=1e-12)
        ck.expect(g <= S.env + 1e-12, "contact.envelope", "a contact outside the envelope is reported", g=g, env=S.env)
        X = oa @ A.x0[ta]
        with ck.guard("grid.exception"):
            phi = GRID.get_value(A.b.grid, X)
        d0 = float(ref.mesh_distance(X[None], A.x0, A.tri)[0])
        mat = np.abs(A.x0).max() + S.scale
        ck.close(g, phi, "contact.gap", "the gap is not the first body's distance field at the material point", tol=1e-8, scale=mat * (1 + np.abs(oa).max()))
        h = cell(A)
        ck.expect(abs(abs(g) - d0) <= h + 1e-8 * mat, "contact.true_distance", "the gap is not the distance to the undeformed surface", g=g, d0=d0, cell=h)
        if d0 > h:
            ins = bool(winding_in(X[None], A.x0, A.tri)[0])
            ck.expect(ins == (g < 0), "contact.sign", "the gap has the wrong sign", g=g, d0=d0, inside=ins)
        # the normal is the field's gradient carried along by the deformation
        D0 = (A.x0[ta[1:]] - A.x0[ta[0]]).T
        D = (xa[ta[1:]] - xa[ta[0]]).T
        F = D @ np.linalg.inv(D0)
        sp = np.asarray(A.b.grid.spacing)
        best = np.inf
        for d in [np.zeros(3)] + list(np.array(np.meshgrid(*[(-1e-6, 0, 1e-6)] * 3)).reshape(3, -1).T):
            gr = np.asarray(GRID.get_gradient(A.b.grid, X + d * sp), float)
            if np.linalg.norm(gr) > 0:
                w = np.linalg.inv(F).T @ gr
                best = min(best, float(np.linalg.norm(w / np.linalg.norm(w) - n)))
            if best < 1e-6:
                break
        ck.expect(best < 1e-4, "contact.normal", "the normal is not the outward direction of the deformed first body", n=n, off=best)
        tri_x = xb
        dB = float(ref.mesh_distance(p[None], tri_x, B.tri)[0])
        ck.close(dB, 0.0, "contact.on_surface", "the contact point is not on the second body's surface", tol=1e-8, scale=ill)


def judge_pairs(ck, S, cps, how):
    pairs = {}
    for cp in cps:
        pairs.setdefault(frozenset((cp.bodyA.name, cp.bodyB.name)), []).append(cp)
    for i, b in enumerate(S.B):
        for a in S.B[:i]:
            mine = pairs.get(frozenset((a.name, b.name)), [])
            xa, xb = a.state()[0], b.state()[0]
            deep, crossing, h = 0.0, False, 1.0
            ins_any = False
            for (x, n), (y, m) in (((xa, a), (xb, b)), ((xb, b), (xa, a))):
                verts = np.unique(n.tri)
                P = x[verts]
                ins = winding_in(P, y, m.tri)
                ins_any = ins_any or ins.any()
                if ins.any() and not ins.all():
                    d = float(ref.mesh_distance(P[ins], y, m.tri).max())
                    # depth in undeformed cells: the field lives in material space
                    smax = max(np.linalg.norm(F, 2) for F in m.gradients(y))
                    if d / smax / cell(m) > deep:
                        deep, h, crossing = d / smax / cell(m), cell(m), True
            if crossing and deep > 1.0:
                ck.event("deep_pairs")
                if ck.expect(mine, "found.penetration", "a vertex is deep inside another body but no contact of the pair is reported", depth_in_cells=deep, hashing=S.e.params.use_spatial_hashing, sizes=(len(a.T), len(b.T))):
                    gmin = min(float(c.g) for c in mine)
                    ck.expect(gmin <= 0.6 * h, "found.depth", "surfaces cross but no contact shows it", gap=gmin, cell=h, depth=deep)
            if not ins_any:
                # apart: measured between the surfaces' sample points, with the longest edge as slack
                dmin = min(float(ref.mesh_distance(xa[np.unique(a.tri)], xb, b.tri).min()), float(ref.mesh_distance(xb[np.unique(b.tri)], xa, a.tri).min()))
                n = separating(xa, xb)
                if n is not None:
                    gap = (xb @ n).min() - (xa @ n).max()
                    smin = min(min(np.linalg.svd(F, compute_uv=False).max() for F in m.gradients(y)) for m, y in ((a, xa), (b, xb)))
                    lim = max(np.linalg.svd(F, compute_uv=False).max() for m, y in ((a, xa), (b, xb)) for F in m.gradients(y))
                    uniform = all(np.ptp(m.gradients(y), axis=0).max() < 1e-9 for m, y in ((a, xa), (b, xb)))
                    if uniform and gap / lim > S.env + max(cell(a), cell(b)):
                        ck.event("separated_pairs")
                        ck.expect(not mine, "found.separated", "separated bodies are reported to touch", gap=gap, contacts=len(mine))
                    if gap > 2.5 * np.sqrt(3) * S.env and gap > 0:
                        boxes = np.any((xa.min(0) - xb.max(0) > 2.5 * S.env) | (xb.min(0) - xa.max(0) > 2.5 * S.env))
                        if boxes:
                            ck.expect(not mine, "found.far", "bodies whose boxes are apart are reported to touch", gap=gap)


BARY = np.array([[i / 7, j / 7, (7 - i - j) / 7] for i in range(8) for j in range(8 - i)])


def judge_roles(ck, S, cps):
    """both bodies of a pair carry a distance field: each must feel the other's triangles that pass through its surface"""
    for m in S.B:
        xm = m.state()[0]
        F = m.gradients(xm)
        if np.ptp(F, axis=0).max() > 1e-9:
            continue
        h = cell(m)
        for n in S.B:
            if n is m:
                continue
            xn = n.state()[0]
            if np.any(xn.min(0) > xm.max(0)) or np.any(xm.min(0) > xn.max(0)):
                continue
            X = (xn - xm[0]) @ np.linalg.inv(F[0]).T + m.x0[0]         # the other body, seen in this one's material space
            # far outside of the sampled box the field is an extrapolation that leads the search astray: only triangles within it count
            G = m.b.grid
            near = np.all((X[n.tri] >= np.asarray(G.min_coord)) & (X[n.tri] <= np.asarray(G.max_coord)), axis=(1, 2))
            if not near.any():
                continue
            P = np.einsum("bk,tkd->tbd", BARY, X[n.tri][near])
            ins = winding_in(P.reshape(-1, 3), m.x0, m.tri).reshape(P.shape[:2])
            through = ins.any(1) & ~ins.all(1)
            best = 0.0
            if through.any():
                Q = P[through][ins[through]]
                best = float(ref.mesh_distance(Q, m.x0, m.tri).max())
            if best > 1.5 * h:
                ck.event("felt_roles")
                mine = [float(c.g) for c in cps if c.bodyA is m.b and c.bodyB is n.b]
                g = min(mine) if mine else np.inf
                ck.expect(g <= -0.5 * best + 0.5 * h, "found.role", "a body does not feel how deep another's triangles reach into it", gap=g, depth=best, cell=h, kind=(len(m.T), len(n.T)), hashing=S.e.params.use_spatial_hashing)


def hovering(ck):
    """a corner held just above, or just inside, the middle of a flat face of a block: reported within the envelope, with the height as gap, and not beyond it"""
    rng = ck.rng("hovering")
    for it in range(ck.n(40, 500)):
        if ck.time_left() < 60:
            break
        hashing = bool(rng.random() < 0.3)
        with ck.guard("create.exception"):
            S = Scene(rng, hashing)
            S.e.params.resolution = 16
            S.e.params.envelope = S.env = S.scale * rng.uniform(0.02, 0.08)
            w = S.scale * rng.uniform(0.8, 1.5, 3)
            V, T = soft.beam(2, 2, 2, *w)
            a = soft.Body(S.e, "b0", V, T)
            V = np.array([[0, 0, 0], [1, 0.1, 1.3], [-0.6, 0.8, 1.2], [-0.5, -0.9, 1.4]]) * S.scale * rng.uniform(0.3, 0.6)
            V, T = soft.clean(V, [[0, 1, 2, 3]])
            b = soft.Body(S.e, "b1", V, T)
            for k in (a, b):
                k.tri = surface(k.T)
                S.B.append(k)
            for i, j in ((0, 0), (0, 1), (1, 1)):
                API.create_surfaces_interaction(S.e, S.B[i].material, S.B[j].material, 0.3)
        if ck.violations:
            return
        c = (a.x0.min(0) + a.x0.max(0)) / 2
        axis, sign = int(rng.integers(3)), int(rng.choice([-1, 1]))
        n = sign * np.eye(3)[axis]
        tip = b.x0[int(np.argmin(np.linalg.norm(b.x0 - b.x0[np.argmin(b.x0[:, 2])], axis=1)))]
        up = turn(np.array([0, 0, 1.0]), n)
        y0 = (b.x0 - tip) @ up.T
        for how in ("inside", "above", "beyond"):
            if hashing and how == "above":
                continue                       # hashing only pairs triangles whose boxes overlap
            hgt = {"inside": -rng.uniform(0.3, 0.9) * S.env, "above": rng.uniform(0.1, 0.8) * S.env, "beyond": rng.uniform(1.05, 1.5) * S.env}[how]
            at = c + n * np.abs((a.x0.max(0) - c) @ n)
            side = rng.uniform(-0.15, 0.15, 3) * w
            side[axis] = 0
            R, t = rotation(rng), rng.normal(size=3) * S.scale * rng.choice([0, 3])
            API.set_spatial_coordinates(S.e, "b0", (a.x0 - c) @ R.T + c + t)
            API.set_spatial_coordinates(S.e, "b1", (y0 + at + side + n * hgt - c) @ R.T + c + t)
            ck.case(dict(it=it, hover=how, height=hgt, env=S.env, hashing=hashing, scale=S.scale), nontrivial=how != "beyond")
            cps = detect(ck, S)
            mine = [float(k.g) for k in cps if k.bodyA is a.b]
            ck.event("hover_" + how)
            if how == "beyond":
                ck.expect(not mine, "hover.beyond", "a corner farther away than the envelope is reported", gaps=mine[:3], height=hgt, env=S.env)
            else:
                if ck.expect(mine, "hover.found", "a corner within the envelope of a flat face is not reported", how=how, height=hgt, env=S.env, hashing=hashing):
                    ck.close(min(mine) / S.env, hgt / S.env, "hover.gap", "the gap over a flat face is not the height", tol=0.05, how=how)
            judge_contacts(ck, S, cps)


def turn(a, b):
    v, c = np.cross(a, b), float(a @ b)
    if c < -0.999999:
        return np.diag([1.0, -1.0, -1.0])
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + K + K @ K / (1 + c)


def separating(xa, xb):
    """a direction along which all of xb lies beyond all of xa, when a simple search finds one"""
    best, bn = 0.0, None
    rng = np.random.default_rng(0)
    d = [xb.mean(0) - xa.mean(0), *np.eye(3), *-np.eye(3), *rng.normal(size=(300, 3))]
    for n in d:
        s = np.linalg.norm(n)
        if s > 0:
            n = n / s
            gap = (xb @ n).min() - (xa @ n).max()
            if gap > best:
                best, bn = gap, n
    return bn


def geometry(ck):
    rng = ck.rng("geometry")
    rng2 = ck.rng("geometry.fixed")
    for it in range(ck.n(60, 900)):
        if ck.time_left() < 60:
            break
        hashing = bool(rng.random() < 0.5)
        with ck.guard("create.exception"):
            S = Scene(rng, hashing)
            for _ in range(int(rng.choice([2, 2, 2, 3]))):
                S.add()
            # which bodies are held and how long the world has been running do not matter for where it touches
            held = rng2.random() < 0.5
            if held:
                API.set_type(S.e, S.B[int(rng2.integers(len(S.B)))].name, "fixed")
                ck.event("fixed_scenes")
            S.e.params.time_stamp += int(rng2.choice([0, 5, 1000]))
        if ck.violations:
            return
        for how in ("apart", "near", "deep", "deep", "apart"):
            place(rng, S, how)
            ck.case(dict(it=it, how=how, hashing=hashing, scale=S.scale, env=S.env, tets=[len(b.T) for b in S.B]), nontrivial=False)
            cps = detect(ck, S)
            if cps:
                ck.case(dict(it=it, how=how, hashing=hashing, contacts=len(cps), p=np.asarray(cps[0].p)))
            ck.event("contacts", len(cps))
            judge_contacts(ck, S, cps)
            judge_pairs(ck, S, cps, how)
            judge_roles(ck, S, cps)
        ck.event("hash_scenes" if hashing else "bvh_scenes")


def folding(ck):
    """long beams: rolled up until the ends cross (reported), straight, turned and gently bent (not reported)"""
    rng = ck.rng("folding")
    for it in range(ck.n(12, 120)):
        if ck.time_left() < 60:
            break
        with ck.guard("create.exception"):
            S = Scene(rng, True)
            L = S.scale * rng.uniform(3, 5)
            w = S.scale * rng.uniform(0.25, 0.4)
            V, T = soft.beam(int(rng.integers(14, 20)), 2, 2, L, w, w * rng.uniform(0.8, 1.2))
            V = V + rng.normal(size=V.shape) * 0.01 * w
            b = soft.Body(S.e, "b0", V, T)
            b.tri = surface(b.T)
            S.B.append(b)
            API.create_surfaces_interaction(S.e, b.material, b.material, 0.5)
        if ck.violations:
            return
        x0 = b.x0 - b.x0.mean(0)
        Q = rotation(rng)
        for how in ("rest", "turned", "stretched", "arc", "closed"):
            x = x0.copy()
            if how == "stretched":
                x = x * np.exp(rng.uniform(-0.3, 0.3, 3))
            crossing = False
            if how in ("arc", "closed"):
                a = rng.uniform(1.5, 4.0) if how == "arc" else 2 * np.pi + rng.uniform(0.4, 0.8)
                k = a / L
                r = 1 / k + x[:, 1]
                shift = 0.3 * w * (x[:, 0] / L) if how == "closed" else 0          # the ends pass through each other slightly sideways
                x = np.stack([r * np.sin(k * x[:, 0]), r * np.cos(k * x[:, 0]) - 1 / k, x[:, 2] + shift], 1)
                crossing = how == "closed"
            if not np.all(soft.volumes(x, b.T) > 0.05 * b.vol):
                ck.event("inverted_skipped")
                continue
            x = x @ Q.T + (rng.normal(size=3) * 3 * S.scale if how != "rest" else 0)
            API.set_spatial_coordinates(S.e, "b0", x)
            ck.case(dict(it=it, fold=how, scale=S.scale), nontrivial=crossing)
            cps = detect(ck, S)
            if crossing:
                # the oracle only claims it when an edge of the surface certainly pierces a triangle
                if pierces(x, b.tri):
                    ck.event("true_folds")
                    ck.expect(cps, "fold.found", "a body that folds into itself is not reported", contacts=len(cps))
                judge_contacts(ck, S, cps, selfs=True)
            else:
                ck.expect(not cps, "fold.none", "a body that does not fold into itself is reported to touch itself", how=how, contacts=len(cps))


def pierces(x, tri, margin=0.02):
    E = np.unique(np.sort(np.concatenate([tri[:, [0, 1]], tri[:, [1, 2]], tri[:, [2, 0]]]), axis=1), axis=0)
    a, b, c = x[tri[:, 0]], x[tri[:, 1]], x[tri[:, 2]]
    n = np.cross(b - a, c - a)
    nn = n / np.linalg.norm(n, axis=1)[:, None]
    for i, j in E:
        p, q = x[i], x[j]
        sp, sq = ((p - a) * nn).sum(1), ((q - a) * nn).sum(1)
        L = np.linalg.norm(q - p)
        cand = (sp * sq <= 0) & (np.minimum(abs(sp), abs(sq)) > margin * L) & ~np.any((tri == i) | (tri == j), axis=1)
        for k in np.flatnonzero(cand):
            t = sp[k] / (sp[k] - sq[k])
            h = p + t * (q - p)
            w = np.array([np.dot(np.cross(c[k] - b[k], h - b[k]), nn[k]), np.dot(np.cross(a[k] - c[k], h - c[k]), nn[k]), np.dot(np.cross(b[k] - a[k], h - a[k]), nn[k])])
            if np.all(w > margin * np.linalg.norm(n[k])):
                return True
    return False


def impacts(ck):
    rng = ck.rng("impacts")
    for it in range(ck.n(90, 1400)):
        if ck.time_left() < 30:
            break
        exact = rng.random() < 0.5
        par = dict(max_iterations=int(rng.choice([1, 3, 10, 30])))
        if exact:
            par = dict(max_iterations=150, nu_increase=1.0, absolute_tolerance=1e-9, relative_tolerance=1e-12)
        scheme = str(rng.choice(["gauss_seidel", "gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid"]))
        if exact:
            scheme = "gauss_seidel"
        with ck.guard("create.exception"):
            S = Scene(rng, bool(rng.random() < 0.5), proximal_solver=scheme, **par)
            for i in range(int(rng.choice([2, 2, 3]))):
                S.add(kind=str(rng.choice(["tet", "tet", "two", "two", "ball"])) if exact else None, g=(rng.normal(size=3) * 5 if rng.random() < 0.3 else (0, 0, 0)), c=0.0)
            place(rng, S, "near" if S.e.params.use_post_stabilization else str(rng.choice(["near", "deep"])))
        e = S.e
        if ck.violations:
            return
        dt = 1e-3 * min(0.05 * np.min(soft.volumes(b.x0, b.T)) ** (1 / 3) / np.sqrt((soft.lame(b.E, b.nu)[0] + 2 * b.E) / b.rho) for b in S.B) * rng.choice([1, 30])
        e.params.time_step = float(dt)
        for i, b in enumerate(S.B):
            v = rng.normal(size=3) * S.scale * rng.uniform(0, 3)
            API.set_velocity(e, b.name, v)
            r = rng.random()
            if r < 0.15 or (i == 0 and r < 0.4):
                b.fixed = True
                API.set_type(e, b.name, "fixed")
            elif r < 0.5:
                # pins only bite when the pinned nodes are where they are pinned: take the rest pose
                API.set_spatial_coordinates(e, b.name, b.x0.copy()) if i == 0 else None
                x = b.state()[0]
                if np.array_equal(x, b.x0):
                    d = rng.normal(size=3)
                    hh = b.x0 @ d
                    s = np.sort(hh)[int(rng.integers(len(hh)))]
                    API.create_dirichlet_conditions(e, b.name, lambda p: float(p @ d) - s)
                    for j in np.flatnonzero([float(p @ d) - s <= 0 for p in b.x0]):
                        b.pins[int(j)] = b.x0[j].copy()
        x0s = {b.name: b.state() for b in S.B}
        desc = dict(it=it, scheme=scheme, exact=bool(exact), hashing=e.params.use_spatial_hashing, post=e.params.use_post_stabilization, fixed=[b.fixed for b in S.B], pins=[len(b.pins) for b in S.B], iters=par["max_iterations"])
        ck.case(desc, nontrivial=False)
        with ck.guard("step.exception", "a step with contacts raises"):
            API.simulate(e, e.params.time_step, True)
        if ck.violations:
            return
        log = [l for l in API.get_log(e) if "dt" in l]
        cps = list(e.contact_points)
        ck.expect(len(log) == 1 and log[-1]["contact_points"] == len(cps), "step.count", "the log does not count the contacts", log=len(log))
        res = np.array(log[-1].get("residuals", [])) if cps else None
        judge_step(ck, S, cps, x0s, float(dt), exact, log[-1], desc, scheme)


APPROACH = []


def share(ck):
    """the solver's adaptive step size stops it early now and then, not as a rule"""
    if len(APPROACH) >= 10:
        bad = sum(w < -0.1 for w in APPROACH) / len(APPROACH)
        ck.case(dict(steps=len(APPROACH)), nontrivial=False)
        ck.expect(bad <= 0.2, "separating.share", "after converged solves bodies often still approach at a contact", share=bad, steps=len(APPROACH), worst=min(APPROACH))


def judge_step(ck, S, cps, before, dt, exact, log, desc, scheme):
    e = S.e
    free, at, n = {}, {}, 0
    moved, change = [], []
    for b in S.B:
        x, u = before[b.name]
        x = x.copy()
        for i, pnt in b.pins.items():
            x[i] = pnt
        y, v = b.step(x, u, dt)
        free[b.name] = v
        at[b.name] = n
        n += 3 * len(x)
        x1, u1 = b.state()
        held = b.held()
        ck.expect(not u1[held].any(), "held", "nodes that are held got a velocity", name=b.name, fixed=b.fixed)
        if not e.params.use_post_stabilization:
            ck.close(x1, x + dt * u1, "kinematics", "positions are not advanced with the new velocities", tol=1e-10, scale=np.abs(x).max())
        m = b.mass[:, None] * np.ones(3)
        change.append((m * (u1 - v)).ravel())
        moved.append(np.repeat(~np.isin(np.arange(len(x)), held), 3))
    change, moved = np.concatenate(change), np.concatenate(moved)
    # momentum of everything that is free
    if not any(b.held() for b in S.B):
        P = sum((b.mass[:, None] * (b.state()[1] - free[b.name])).sum(0) for b in S.B)
        size = sum(np.abs(b.mass[:, None] * (b.state()[1] - free[b.name])).sum() for b in S.B)
        carried = 1e-5 * sum(np.abs(b.mass[:, None] * free[b.name]).sum() for b in S.B)        # what round-off acts on
        ck.close(P, np.zeros(3), "momentum.linear", "contact forces change the total momentum", tol=1e-9, scale=size + carried, contacts=len(cps))
        L = sum(np.cross(before[b.name][0], b.mass[:, None] * (b.state()[1] - free[b.name])).sum(0) for b in S.B)
        reach = max(np.abs(before[b.name][0]).max() for b in S.B)
        ck.close(L, np.zeros(3), "momentum.angular", "contact forces change the total angular momentum", tol=1e-8, scale=reach * (size + carried), contacts=len(cps))
        ck.event("free_steps")
    scale_p = max(np.abs(b.mass[:, None] * w).max() for b in S.B for w in (before[b.name][1], free[b.name])) + 1e-300
    if not cps:
        ck.close(change[moved] / scale_p, np.zeros(moved.sum()), "no_contact", "velocities change although no contact is reported", tol=1e-7)
        return
    cols, rows, mus = [], [], []
    big = 0.0
    for cp in cps:
        A, B = S.by(cp.bodyA), S.by(cp.bodyB)
        mu = S.mu[frozenset((A.name, B.name))]
        if scheme == "parallel_jacobi" and mu > 0:
            mu = 30.0                      # bounds friction by the normal force of its previous iterate
        nn = np.asarray(cp.n, float)
        s, t = frame(nn)

        def col(d):
            c = np.zeros(n)
            for body, tet, om, sign in ((A, cp.idx_tetA, cp.omegaA, -1), (B, cp.idx_tetB, cp.omegaB, 1)):
                for w, node in zip(om, body.T[tet]):
                    c[at[body.name] + 3 * node:at[body.name] + 3 * node + 3] += sign * w * d
            return c
        N = col(nn)
        rows.append(N)
        big = max(big, np.abs(N).max())
        if mu == 0:
            cols.append(N)
        else:
            cs, ct = col(s), col(t)
            cols += [N + mu * (a * cs + b * ct) for a, b in DISK]
    M = np.array(cols).T[moved]
    w = change[moved]
    size = np.abs(w).max() if len(w) else 0.0
    if size > 1e-9 * scale_p:
        ck.case(dict(desc, contacts=len(cps)), nontrivial=True)
        ck.event("impulses")
        keep = np.linalg.norm(M, axis=0) > 1e-30 * big          # weights of round-off size included: the solver uses them too
        if keep.any():
            Mk = M[:, keep] / np.linalg.norm(M[:, keep], axis=0)
            try:
                _, resid = nnls(Mk, w / size, maxiter=50 * Mk.shape[1])
            except RuntimeError:
                ck.event("nnls_gave_up")
                resid = 0.0
        else:
            resid = 1.0
        ck.expect(resid < 1e-5, "explained", "the velocity changes can not come from pushing forces within the friction bound at the reported contacts", residual=resid, contacts=len(cps), mu=list(S.mu.values()), scheme=scheme)
    if exact:
        R = np.array(rows)
        u1 = np.concatenate([b.state()[1].ravel() for b in S.B])
        speed = max(np.abs(np.concatenate([free[b.name].ravel() for b in S.B])).max(), 1e-12)
        movable = np.linalg.norm(R[:, moved], axis=1) > 1e-9
        sep = (R @ u1)[movable]
        converged = log.get("gauss_seidel_exitcode", log.get("exitcode", None))
        if len(sep):
            ck.event("exact_steps")
            worst = float(sep.min()) / speed / max(1.0, big)
            if converged in (1, 2, None) and len(cps) <= 12:
                # far looser than the tolerances: the solver's adaptive step size may stop it a little early
                ck.event("few_contacts")
                APPROACH.append(worst)
                ck.expect(worst > -0.4, "separating", "after a converged solve bodies still approach at a contact", approach=worst, contacts=len(cps), code=converged)
        if not any(S.mu.values()):
            before_, after_ = 0.0, 0.0
            for b in S.B:
                m = b.mass[:, None]
                before_ += 0.5 * float((m * free[b.name] ** 2).sum()) if not b.fixed else 0.0
                after_ += 0.5 * float((m * b.state()[1] ** 2).sum()) if not b.fixed else 0.0
            ck.event("smooth_steps")
            ck.expect(after_ <= before_ * (1 + 1e-7), "energy", "frictionless contact forces add energy", before=before_, after=after_, contacts=len(cps))


def anchored(ck):
    """one small body presses against a fixed or pinned one (first or second in the world, sometimes changed after a first step), thrown or pulled by gravity; frictionless and solved to the end"""
    rng = ck.rng("anchored")
    for it in range(ck.n(40, 600)):
        if ck.time_left() < 25:
            break
        with ck.guard("create.exception"):
            S = Scene(rng, bool(rng.random() < 0.5), proximal_solver="gauss_seidel", max_iterations=300, nu_increase=1.0, absolute_tolerance=1e-10, relative_tolerance=1e-13)
            S.smooth = True
            rho = 10 ** rng.uniform(1, 3)
            for i in range(2):
                S.add(kind=str(rng.choice(["tet", "two"])), rho=rho * rng.uniform(0.7, 1.4))
            hold = int(rng.integers(2))
            H, M = S.B[hold], S.B[1 - hold]
            how = str(rng.choice(["fixed", "pinned", "some"]))
            late = rng.random() < 0.4                          # the stepper has already seen the world without the anchor
            e = S.e
            dt = float(1e-3 * min(0.05 * np.min(soft.volumes(b.x0, b.T)) ** (1 / 3) / np.sqrt((soft.lame(b.E, b.nu)[0] + 2 * b.E) / b.rho) for b in S.B))
            e.params.time_step = dt
            far = M.x0 + 40 * S.scale
            if late:
                API.set_spatial_coordinates(e, M.name, far)
                API.simulate(e, dt)
            if how == "fixed":
                H.fixed = True
                API.set_type(e, H.name, "fixed")
            else:
                d = rng.normal(size=3)
                hh = H.x0 @ d
                s = hh.max() if how == "pinned" else np.sort(hh)[1]
                API.create_dirichlet_conditions(e, H.name, lambda p: float(p @ d) - s - 1e-9 * S.scale)
                for j in np.flatnonzero(hh - s <= 1e-9 * S.scale):
                    H.pins[int(j)] = H.x0[j].copy()
            API.set_spatial_coordinates(e, H.name, H.x0.copy())
            n = ref.rand_unit(rng)
            x = M.x0 @ rotation(rng).T
            x = x - x.mean(0) + H.x0.mean(0) + 0.1 * S.scale * rng.normal(size=3)
            x = x + n * ((H.x0 @ n).max() - (x @ n).min())
            want = S.scale * rng.uniform(0, 0.05)
            for _ in range(60):
                if depth(x, M.tri, H.x0, H.tri) >= want:
                    break
                x = x - n * 0.02 * S.scale
            API.set_spatial_coordinates(e, M.name, x)
            API.set_velocity(e, H.name, np.zeros(3))
            pulled = rng.random() < 0.5
            speed = S.scale * rng.uniform(0.5, 3)
            if pulled:
                M.g = -n * speed / dt
                API.set_gravity(e, M.name, M.g.copy())
                API.set_velocity(e, M.name, np.zeros(3))
            else:
                API.set_velocity(e, M.name, -n * speed + 0.2 * speed * rng.normal(size=3))
        if ck.violations:
            return
        before = {b.name: b.state() for b in S.B}
        desc = dict(it=it, anchored=how, first=hold == 0, late=bool(late), pulled=bool(pulled), pins=len(H.pins), nodes=len(H.x0), hashing=e.params.use_spatial_hashing)
        ck.case(desc, nontrivial=False)
        with ck.guard("step.exception", "a step with contacts raises"):
            API.simulate(e, dt, True)
        if ck.violations:
            return
        log = [l for l in API.get_log(e) if "dt" in l][-1]
        cps = list(e.contact_points)
        if cps:
            ck.event("anchored_contacts")
            ck.event("anchored_" + how)
            if late:
                ck.event("anchored_late")
            ck.close(log["max_penetration"], max(0.0, max(-float(c.g) for c in cps)), "log.penetration", "the log does not tell the deepest penetration", tol=1e-12, scale=S.scale)
        judge_step(ck, S, cps, before, dt, True, log, desc, "gauss_seidel")


def settling(ck):
    """an overlapping pair at rest is pushed apart by post-stabilisation, never together"""
    rng = ck.rng("settling")
    for it in range(ck.n(12, 120)):
        if ck.time_left() < 20:
            break
        with ck.guard("create.exception"):
            S = Scene(rng, bool(rng.random() < 0.5), use_post_stabilization=True, max_iterations=1000, nu_increase=1.0, absolute_tolerance=1e-9, relative_tolerance=1e-12)
            S.scale = 1.0
            S.e.params.envelope = S.env = 0.01
            for i in range(2):
                V, T = soft.ball(rng, 24, 6, 0.5)
                b = soft.Body(S.e, "b%d" % i, V @ rotation(rng).T, T, model=str(rng.choice(soft.MODELS)), E=1e4, nu=0.3, rho=1000.0)
                b.tri = surface(b.T)
                S.B.append(b)
            mats = [b.material for b in S.B]
            for a, b in ((0, 0), (0, 1), (1, 1)):
                API.create_surfaces_interaction(S.e, mats[a], mats[b], 0.0)
            n = ref.rand_unit(rng)
            x = S.B[1].x0 + n * (0.94 + rng.uniform(-0.06, 0.0))
            API.set_spatial_coordinates(S.e, "b1", x)
            for b in S.B:
                API.set_gravity(S.e, b.name, np.zeros(3))
            if rng.random() < 0.4:
                API.set_type(S.e, "b0", "fixed")
        if ck.violations:
            return
        S.e.params.time_step = 1e-5
        first = detect(ck, S)
        depth0 = -min([float(c.g) for c in first] + [0.0])
        ck.case(dict(it=it, settling=depth0, contacts=len(first)), nontrivial=depth0 > 0.01)
        if depth0 < 0.01:
            continue
        with ck.guard("step.exception", "a step with post-stabilisation raises"):
            API.simulate(S.e, 1e-5, True)
        later = detect(ck, S)
        depth1 = -min([float(c.g) for c in later] + [0.0])
        ck.event("settled_pairs")
        ck.expect(depth1 < 0.7 * depth0, "settle", "post-stabilisation does not reduce the penetration", before=depth0, after=depth1)


ck.require(fixed_scenes=5, felt_roles=4, hover_inside=15, hover_above=10, hover_beyond=15, anchored_contacts=15, anchored_late=5, anchored_fixed=3, anchored_some=3, deep_pairs=6, separated_pairs=20, contacts=500, true_folds=3, impulses=25, exact_steps=8, few_contacts=3, smooth_steps=4, settled_pairs=2, free_steps=5, hash_scenes=8, bvh_scenes=8)
ck.run(hovering, geometry, folding, anchored, impacts, share, settling)
