import contextlib
import copy
import io
import os

import igl
import numpy as np
from scipy.spatial import cKDTree
import vh
from vh import Check

import ref
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.scenes as S
from rainbow.simulators.prox_rigid_bodies.scenes.create_tower import create_tower
from rainbow.simulators.prox_rigid_bodies.scenes.create_gear_train import GearFactory

ck = Check("C32", "every scene factory with random legal sizes, counts, placements, densities and materials, alone, twice in one engine, mixed with others and repeated with the same random numbers; read back from the engine's bodies as world meshes and compared with the documented "
                  "dimensions, counts, symmetries, supports, separations and joints; non-trivial: at least two bodies.", cap_s=540)
os.chdir(vh.REPO)  # the factories find their data files from the working directory
KINDS = ["pillar", "arch", "dome", "tower", "tower cubes", "colosseum", "pantheon", "temple", "chainmail", "gears", "box stack", "hinge chain", "sandbox", "jacks", "funnel", "glasses", "poles", "ground"]
PLACED = {"pillar", "arch", "dome", "tower", "tower cubes", "colosseum", "pantheon", "jacks", "ground"}  # factories that take a placement
STANDING = {"pillar", "arch", "dome", "tower", "tower cubes", "pantheon", "temple", "box stack"}  # masonry: stones rest on others or on the plane y=0


def engine():
    e = API.create_engine()
    e.params.resolution = 4  # the distance fields play no role here
    return e


class Body:
    """a body as the engine shows it, with its surface in world coordinates"""

    def __init__(self, b):
        self.name, self.b = b.name, b
        self.R = ref.qmat(np.asarray(b.q, float).ravel())
        self.r = np.asarray(b.r, float).ravel()
        self.V = np.asarray(b.shape.mesh.V, float) @ self.R.T + self.r
        self.T = np.asarray(b.shape.mesh.T, np.int64)
        self.lo, self.hi = self.V.min(0), self.V.max(0)
        self.size = float(np.linalg.norm(self.hi - self.lo))
        self._pts = None

    def moved(self, R, r):
        c = copy.copy(self)
        c.R, c.r, c.V = R @ self.R, R @ self.r + r, self.V @ R.T + r
        c.lo, c.hi, c._pts = c.V.min(0), c.V.max(0), None
        return c

    def points(self):
        """corners, points along the edges and face centres"""
        if self._pts is None:
            V, T = self.V, self.T
            E = np.unique(np.sort(np.concatenate([T[:, [0, 1]], T[:, [1, 2]], T[:, [2, 0]]]), axis=1), axis=0)
            L = np.linalg.norm(V[E[:, 0]] - V[E[:, 1]], axis=1)
            out = [V, V[T].mean(1)]
            k = np.clip(np.ceil(L / (0.04 * self.size)), 1, 24).astype(int)
            for n in np.unique(k):
                e = E[k == n]
                for t in (np.arange(n) + 0.5) / n:
                    out.append(V[e[:, 0]] * (1 - t) + V[e[:, 1]] * t)
            self._pts = np.concatenate(out)
        return self._pts


def depth(A, B, pad=0.0):
    """how deep sampled points of B are inside A"""
    p = B.points()
    p = p[np.all((p > A.lo) & (p < A.hi), axis=1)]
    if not len(p):
        return 0.0
    d = np.atleast_1d(igl.signed_distance(np.ascontiguousarray(p), np.ascontiguousarray(A.V), A.T)[0])
    k = np.argsort(d)[:20]
    k = k[d[k] < 0]
    if len(k):
        k = k[ref.winding_number(p[k], A.V, A.T) > 0.5]  # the library's signs are wrong now and then
    return float(-d[k].min()) if len(k) else 0.0


def boxes_meet(A, B, pad=0.0):
    return bool(np.all(A.lo < B.hi + pad) and np.all(B.lo < A.hi + pad))


def overlaps(bodies):
    out = []
    for i, A in enumerate(bodies):
        for B in bodies[:i]:
            if boxes_meet(A, B):
                d = max(depth(A, B), depth(B, A))
                if d > 0:
                    out.append((d, A, B))
    return sorted(out, key=lambda x: -x[0])


def touching(A, B, eps):
    """closer than eps, by exact distances of the sampled points"""
    if not boxes_meet(A, B, 2 * eps):
        return False
    for X, Y in ((A, B), (B, A)):
        p = Y.points()
        p = p[np.all((p > X.lo - 2 * eps) & (p < X.hi + 2 * eps), axis=1)]
        if not len(p):
            continue
        d = np.atleast_1d(igl.signed_distance(np.ascontiguousarray(p), np.ascontiguousarray(X.V), X.T)[0])
        if np.min(np.abs(d)) < eps:
            return True
        k = np.argsort(d)[:20]
        k = k[d[k] < 0]
        if len(k) and np.any(ref.winding_number(p[k], X.V, X.T) > 0.5):  # the signs are wrong now and then
            return True
    return False


def legal(kind, rng):
    """(arguments, call) of one factory"""
    u = lambda a, b: float(rng.uniform(a, b))  # noqa: E731
    i = lambda a, b: int(rng.integers(a, b + 1))  # noqa: E731
    k = float(10.0 ** rng.uniform(-1, 1)) if rng.random() < 0.5 else 1.0  # overall size
    a = dict(density=float(10.0 ** rng.uniform(-1, 3)), material_name=str(rng.choice(["default", "granite"])))
    if kind == "pillar":
        a.update(width=k * u(.5, 2), height=k * u(2, 8), depth=k * u(.5, 2), stones=i(1, 6))
    elif kind == "arch":
        w = k * u(1, 4)
        a.update(width=w, height=w * u(.6, 2.5), depth=k * u(.2, 2), pier_stones=i(1, 5), arch_stones=2 * i(1, 5) + 1)
    elif kind == "dome":
        R = k * u(1, 6)
        a.update(outer_radius=R, inner_radius=R * u(.4, .92), layers=i(1, 6), segments=i(3, 14))
    elif kind in ("tower", "tower cubes"):
        R = k * u(1, 6)
        a.update(outer_radius=R, inner_radius=R * u(.4, .92), height=k * u(1, 8), layers=i(1, 6), segments=i(3, 14), use_cubes=kind == "tower cubes", safety_factor=float(rng.choice([.99, .9, 1.0])))
    elif kind == "colosseum":
        R, n = k * u(3, 6), i(5, 10)
        r = R * u(.6, .9)
        lv = i(1, 2)
        a.update(outer_radius=R, inner_radius=r, levels=lv, arches=n, height=lv * 2 * np.tan(np.pi / n) * r * u(.65, 1.5), safety_factor=float(rng.choice([.99, .9])))
    elif kind == "pantheon":
        R = k * u(2, 6)
        a.update(outer_radius=R, inner_radius=R * u(.5, .8), height=R * u(1.1, 2), layers=i(1, 4), segments=i(6, 11),  # the dome stands on the corners of the wall
                 safety_factor=float(rng.choice([.99, .9])))
    elif kind == "temple":
        w = k * u(.5, 2)  # the round parts of a pillar are as wide as it is, whatever its depth
        a.update(I_pillars=i(3, 5), K_pillars=int(rng.choice([4, 7, 10])), pillar_width=w, pillar_height=k * u(2, 5), pillar_depth=w * u(.7, 1.5), pillar_stones=i(1, 3))
    elif kind == "chainmail":
        R = k * u(1, 3)
        r = R * u(.1, .27)
        need = 2 * np.sqrt(2) * r / (2 * R - 4 * r)  # the least stretch that keeps the four rings hooked into one apart
        s = u(min(1.0, need * 1.02), 1.0) if rng.random() < .8 else 1.0
        a.update(major_radius=R, minor_radius=r, columns=i(1, 3), rows=i(1, 3), stretch=s, pinned=bool(rng.random() < .8))
        if rng.random() < .2:
            a["stretch"] = u(1.0, 3.0)                            # no more than fully stretched
        if rng.random() < .8:
            a["rows"] = (a["columns"] + i(0, 1)) % 3 + 1      # not square: rows and columns can not be mixed up
    elif kind == "gears":
        a.update(N=i(1, 7))
    elif kind == "box stack":
        a.update(box_width=k * u(.3, 2), box_height=k * u(.3, 2), box_depth=k * u(.3, 2), K_boxes=i(1, 9))
    elif kind == "hinge chain":
        a.update(cube_edge_length=k * u(.3, 10), K_cubes=i(1, 7))
    elif kind == "sandbox":
        a.update(box_width=k * u(3, 10), box_height=k * u(3, 10), box_depth=k * u(3, 10), I_grains=i(1, 4), J_grains=i(1, 4), K_grains=i(1, 4))
    elif kind == "jacks":
        a.update(width=k * u(2, 8), height=k * u(2, 8), depth=k * u(2, 8), I=i(1, 3), J=i(1, 3), K=i(1, 3), use_random_orientation=bool(rng.random() < .5))
    elif kind == "funnel":
        a.update(funnel_height=k * u(2, 5), funnel_radius=k * u(2, 5), grid_width=k * u(2, 4), grid_height=k * u(2, 4), grid_depth=k * u(2, 4), I=i(1, 3), J=i(2, 3), K=i(1, 3), use_random_orientation=bool(rng.random() < .5))
    elif kind == "glasses":
        h = k * u(2, 5)
        a.update(glass_height=h, glass_radius=k * u(1, 3), grid_width=h * u(.5, 1), grid_height=h * u(.5, 1), grid_depth=h * u(.5, 1), I=i(2, 3), J=i(2, 3), K=i(2, 3), use_random_orientation=bool(rng.random() < .5))
    elif kind == "poles":
        w, d, n, m = k * u(3, 5), k * u(3, 5), i(1, 6), i(1, 6)
        a.update(pole_height=k * u(2, 4), pole_radius=u(.1, .45) * min(w / n, d / m), I_poles=n, K_poles=m, grid_width=w, grid_height=k * u(2, 4), grid_depth=d, I_grid=i(1, 3), J_grid=i(2, 3), K_grid=i(1, 3),
                 use_random_orientation=bool(rng.random() < .5))
    return a


def call(kind, e, a, r, q):
    a = dict(a)
    p = dict(r=np.array(r), q=np.array(q)) if kind in PLACED else {}
    f = {"pillar": S.create_pillar, "arch": S.create_arch, "dome": S.create_dome, "tower": create_tower, "tower cubes": create_tower, "colosseum": S.create_colosseum, "pantheon": S.create_pantheon, "temple": S.create_temple,
         "chainmail": S.create_chainmail, "gears": S.create_gear_train, "box stack": S.create_box_stack, "hinge chain": S.create_cube_hinge_chain, "sandbox": S.create_sandbox, "jacks": S.create_jack_lattice,
         "funnel": S.create_funnel, "glasses": S.create_glasses, "poles": S.create_poles, "ground": S.create_ground, "rocks": S.create_rock_slide}[kind]
    sent = copy.deepcopy((a, p))
    with contextlib.redirect_stdout(io.StringIO()):
        names = f(e, **p, **a)
    ck.expect(all(np.array_equal(sent[1][k], p[k]) for k in p), "scene.caller-data", "a placement handed to a factory is left alone", scene=kind)
    return names


def temple_count(I, K, stones):
    rows, inner = (K - 1) // 3, (K - 1) // 3 - 1  # bays along the depth; walls between the first and the last row
    pillars = 2 * I + 2 * (K - 2) + inner * (I - 2)
    epistyle = (rows + 1) * max(0, I - 3) + 2 * rows + 8 + 2 * inner + 4 * inner
    gables = (rows + 1) * sum(I - j for j in range(I - 1))
    return 4 + pillars * (4 + stones) + epistyle + gables + 2 * rows * (I - 1) + 2 * K - 1


def count(kind, a):
    return {"pillar": lambda: 4 + a["stones"], "arch": lambda: 2 * a["pier_stones"] + a["arch_stones"], "dome": lambda: a["layers"] * a["segments"], "tower": lambda: a["layers"] * a["segments"],
            "tower cubes": lambda: a["layers"] * a["segments"], "colosseum": lambda: a["levels"] * a["arches"] * 20, "pantheon": lambda: 2 * a["layers"] * a["segments"],
            "chainmail": lambda: (a["rows"] + 1) * (a["columns"] + 1) + (a["rows"] + 1) * a["columns"] + a["rows"] * (a["columns"] + 1), "gears": lambda: a["N"] + 1, "box stack": lambda: a["K_boxes"], "hinge chain": lambda: a["K_cubes"],
            "sandbox": lambda: a["I_grains"] * a["J_grains"] * a["K_grains"] + 5, "jacks": lambda: a["I"] * a["J"] * a["K"], "funnel": lambda: a["I"] * a["J"] * a["K"] + 1, "glasses": lambda: a["I"] * a["J"] * a["K"] + 1,
            "poles": lambda: a["I_grid"] * a["J_grid"] * a["K_grid"] + a["I_poles"] * a["K_poles"], "ground": lambda: 1, "temple": lambda: temple_count(a["I_pillars"], a["K_pillars"], a["pillar_stones"]), "rocks": lambda: 21 + a["I_rocks"] * a["J_rocks"] * a["K_rocks"]}.get(kind, lambda: None)()


def well_formed(kind, e, a, names, before):
    new = [n for n in e.bodies if n not in before]
    if kind == "ground":
        names = new
    ok = ck.expect(isinstance(names, list) and all(isinstance(n, str) for n in names), "scene.names", "a factory returns a list of body names", scene=kind, types=sorted({type(n).__name__ for n in names}))
    if ok:
        ck.expect(len(set(names)) == len(names) and set(names) == set(new), "scene.names", "the names returned are those of the bodies created", scene=kind, returned=len(names), created=len(new))
    n = count(kind, a)
    if n is not None:
        ck.expect(len(new) == n, "scene.count", "number of bodies created", scene=kind, args=a, got=len(new), want=n)
    out = []
    for n in new:
        b = e.bodies[n]
        ck.expect(b.name == n and b.shape is not None and b.shape.name in e.shapes and e.shapes[b.shape.name] is b.shape, "scene.registered", "bodies and shapes are found under their names", scene=kind)
        ck.expect(abs(np.linalg.norm(b.q) - 1) < 1e-9 and np.all(np.isfinite(b.q)) and np.all(np.isfinite(b.r)), "scene.pose", "finite position and unit orientation", scene=kind, q=b.q, r=b.r)
        B = Body(b)
        V, T = np.asarray(b.shape.mesh.V, float), B.T
        if not (kind in ("poles", "rocks") and b.shape.name.startswith(("small_obj", "landscape"))):  # data files with open seams
            ck.expect(ref.surface_defects(T) == 0, "scene.closed", "generated shapes are closed and consistently oriented", scene=kind, args=a, shape=b.shape.name, defects=ref.surface_defects(T))
        vol, com, I = ref.mesh_volume_centroid_inertia(V, T)
        ck.expect(vol > 0, "scene.outward", "the surface is oriented outwards", scene=kind, args=a, shape=b.shape.name, volume=vol)
        ck.close(b.mass, a["density"] * vol, "scene.mass", "mass is density times the volume enclosed", tol=1e-8, scale=0, scene=kind, args=a, shape=b.shape.name)
        ck.close(com / B.size, np.zeros(3), "scene.body-frame", "bodies rotate about their centre of mass", tol=1e-7, scene=kind, args=a, shape=b.shape.name)
        J = np.diag(np.asarray(b.inertia, float).ravel()) if np.size(b.inertia) == 3 else np.asarray(b.inertia, float)
        ck.close(J, a["density"] * I, "scene.inertia", "inertia of the solid", tol=1e-6, scale=1e-6 * a["density"] * np.trace(I), scene=kind, args=a, shape=b.shape.name)
        ck.expect(np.all(np.asarray(b.v) == 0) and np.all(np.asarray(b.w) == 0), "scene.at-rest", "bodies start at rest", scene=kind)
        m = b.material if isinstance(b.material, str) else getattr(b.material, "name", None)
        ck.expect(m == a["material_name"], "scene.material", "material asked for", scene=kind, got=m, want=a["material_name"])
        out.append(B)
    ck.event("bodies", len(out))
    return out


def corners(bodies):
    return np.concatenate([B.V for B in bodies])


def same_set(P, Q, tol):
    """two point clouds coincide as sets"""
    return max(cKDTree(Q).query(P)[0].max(), cKDTree(P).query(Q)[0].max()) < tol


def rotate_y(P, phi):
    return P @ ref.rodrigues(np.array([0.0, 1, 0]), phi).T


def azimuth(p):
    return np.arctan2(p[..., 2], p[..., 0])


def extent(P, want, size, mech, what, **kw):
    got = np.array([P.min(0), P.max(0)])
    for ax in range(3):
        for s in range(2):
            if want[s][ax] is not None:
                ck.close(got[s][ax] / size, want[s][ax] / size, mech, what, tol=1e-9, axis="xyz"[ax], side=s, **kw)


def linked(A, B):
    """Gauss linking number of the centre circles of two rings"""
    t = np.linspace(0, 2 * np.pi, 73)[:-1]
    P = A[0] + A[2] * (np.cos(t)[:, None] * A[1][0] + np.sin(t)[:, None] * A[1][1])
    dP = A[2] * (-np.sin(t)[:, None] * A[1][0] + np.cos(t)[:, None] * A[1][1])
    Q = B[0] + B[2] * (np.cos(t)[:, None] * B[1][0] + np.sin(t)[:, None] * B[1][1])
    dQ = B[2] * (-np.sin(t)[:, None] * B[1][0] + np.cos(t)[:, None] * B[1][1])
    D = P[:, None] - Q[None]
    c = np.cross(dP[:, None], dQ[None])
    return float(np.sum(np.einsum("ijk,ijk->ij", D, c) / np.linalg.norm(D, axis=2) ** 3) * (t[1] - t[0]) ** 2 / (4 * np.pi))


def ring(B):
    """centre, two axes of the plane and radius of the centre circle of a torus, from its vertices"""
    c = B.V.mean(0)
    X = B.V - c
    w, E = np.linalg.eigh(X.T @ X)
    n = E[:, 0]
    rho = np.linalg.norm(X - np.outer(X @ n, n), axis=1)
    return c, (E[:, 2], E[:, 1]), (rho.max() + rho.min()) / 2, n, (rho.max() - rho.min()) / 2


def on_grid(lattice, a, n, origin, size, w, R=np.eye(3)):
    """the centres of mass of a lattice fill the cells of a box"""
    I, J, K = n
    d = np.array(size) / np.array([I, J, K])
    want = np.array([(np.array([x, y, z]) + .5) * d for x in range(I) for y in range(J) for z in range(K)]) @ R.T + origin
    got = np.array([B.r for B in lattice])
    ck.expect(len(got) == len(want) and same_set(got, want, 1e-9 * w), "scene.lattice", "one body in the middle of each cell", args=a, n=n)
    return float(d.min())


def describe(kind, e, a, bodies):
    """documented dimensions, in the model frame of the scene"""
    P = corners(bodies)
    size = float(np.linalg.norm(P.max(0) - P.min(0)))
    kw = dict(scene=kind, args=a)
    free = [B for B in bodies if not is_fixed(e, B)]
    pinned = [B for B in bodies if is_fixed(e, B)]
    if kind not in ("chainmail", "gears", "hinge chain", "sandbox", "funnel", "glasses", "poles", "ground", "rocks"):
        ck.expect(not pinned, "scene.body-type", "stones are free to move", **kw)
    if kind == "pillar":
        w, h, d = a["width"], a["height"], a["depth"]
        extent(P, [[-w / 2, 0, -max(d / 2, 0.45 * w)], [w / 2, h, max(d / 2, .45 * w)]], size, "scene.extent", "a pillar fills the width, height and depth asked for", **kw)
        s = sorted(bodies, key=lambda B: B.lo[1])
        ck.close([X.hi[1] for X in s[:-1]], [Y.lo[1] for Y in s[1:]], "scene.stacked", "the parts of a pillar stand on each other", tol=1e-9, scale=size, **kw)
        ck.close([[B.r[0], B.r[2]] for B in bodies], np.zeros((len(bodies), 2)), "scene.axis", "the parts of a pillar share its axis", tol=1e-9, scale=size, **kw)
        rad = lambda B, y: max((np.hypot(p[0], p[2]) for p in B.V if abs(p[1] - y) < 1e-9 * size), default=None)  # noqa: E731
        mid = s[1:-1]
        ck.close([rad(X, X.hi[1]) for X in mid[:-1]], [rad(Y, Y.lo[1]) for Y in mid[1:]], "scene.profile", "neighbouring shaft stones have the same radius where they meet", tol=1e-9, scale=size, **kw)
        ck.close([B.hi[1] - B.lo[1] for B in mid[1:-1]], np.full(a["stones"], np.mean([B.hi[1] - B.lo[1] for B in mid[1:-1]])), "scene.profile", "shaft stones of equal height", tol=1e-9, scale=size, **kw)
    elif kind == "arch":
        w, h, d = a["width"], a["height"], a["depth"]
        extent(P, [[-w / 2, 0, -d / 2], [w / 2, None, d / 2]], size, "scene.extent", "an arch fills the width and depth asked for and stands on its base", **kw)
        top = h - w / 2 + w / 2 * np.cos(np.pi / a["arch_stones"] / 2) / np.cos(0)
        R = np.hypot(P[:, 0], P[:, 1] - (h - w / 2))
        ck.close(R[P[:, 1] > h - w / 2 + 1e-6 * size].max(), w / 2, "scene.extent", "the arch stones end at the outer radius, its height less half its width above the base", tol=1e-9, scale=size, top=top, **kw)
        ck.expect(same_set(P, P * [-1, 1, 1], 1e-9 * size), "scene.symmetry", "an arch is its own mirror image", **kw)
        for i, B in enumerate(bodies):
            k = sum(touching(B, C, 1e-7 * size) for C in bodies if C is not B)
            ck.expect(k == (1 if B.lo[1] < 1e-9 * size else 2), "scene.neighbours", "each stone of an arch touches the stones before and after it", body=i, touches=k, **kw)
    elif kind in ("tower", "tower cubes"):
        Ro, Ri, h, n = a["outer_radius"], a["inner_radius"], a["height"], a["segments"]
        extent(P, [[None, 0, None], [None, h, None]], size, "scene.extent", "a tower stands on its base and is as high as asked for", **kw)
        t = np.tan(np.pi / n) * a["safety_factor"]
        rho = np.hypot(P[:, 0], P[:, 2])
        ck.close(rho.max(), np.hypot(Ro, (Ri if kind == "tower cubes" else Ro) * t), "scene.extent", "outer corners of the bricks", tol=1e-9, scale=size, **kw)
        ck.close(rho.min(), np.hypot(Ri, Ri * t), "scene.extent", "inner corners of the bricks", tol=1e-9, scale=size, **kw)
        ck.expect(same_set(P, rotate_y(P, 2 * np.pi / n), 1e-9 * size), "scene.symmetry", "a tower looks the same after a rotation by one brick", **kw)
        for lay in range(a["layers"]):
            L = [B for B in bodies if abs(B.r[1] - (lay + .5) * h / a["layers"]) < 1e-6 * size]
            ck.expect(len(L) == n, "scene.layers", "bricks per layer", layer=lay, got=len(L), **kw)
            if len(L) == n and lay:
                d = (azimuth(np.array([B.r for B in L]))[:, None] - last) / (2 * np.pi / n)
                ck.close(np.abs((d - .5) - np.round(d - .5)).max(), 0, "scene.bond", "each layer is shifted by half a brick", tol=1e-7, **kw)
            last = azimuth(np.array([B.r for B in L]))
    elif kind in ("dome", "pantheon"):
        Ro, Ri, n, m = a["outer_radius"], a["inner_radius"], a["segments"], a["layers"]
        y0 = 0.0
        if kind == "pantheon":
            y0 = a["height"] - Ro
            wall = [B for B in bodies if B.hi[1] < y0 + 1e-9 * size]
            ck.expect(len(wall) == n * m, "scene.layers", "half of the stones are below the dome", got=len(wall), **kw)
            extent(P, [[None, 0, None], [None, None, None]], size, "scene.extent", "a pantheon stands on its base", **kw)
            if wall:
                ck.close(max(B.hi[1] for B in wall), y0, "scene.extent", "the wall carries the dome", tol=1e-9, scale=size, **kw)
            D = [B for B in bodies if B not in wall]
        else:
            D = bodies
        if D:
            PD = corners(D) - [0, y0, 0]
            rr = np.linalg.norm(PD, axis=1)
            ck.close(np.abs(np.minimum(np.abs(rr - Ro), np.abs(rr - Ri))).max(), 0, "scene.extent", "the corners of dome stones are on the inner or the outer sphere", tol=1e-9, scale=size, **kw)
            top = np.pi / 2 * m / (m + 1)
            extent(PD, [[None, 0, None], [None, Ro * np.sin(top), None]], size, "scene.extent", "a dome starts at its base and leaves a hole at the top", **kw)
            for i, B in enumerate(D):
                k = sum(touching(B, C, 1e-7 * size) for C in D if C is not B)
                ck.expect(k >= 2, "scene.neighbours", "each stone of a dome touches its neighbours", body=i, touches=k, **kw)
        ck.expect(same_set(P, rotate_y(P, 2 * np.pi / n), 1e-9 * size), "scene.symmetry", "a dome looks the same after a rotation by one stone", **kw)
    elif kind == "colosseum":
        Ro, Ri, n = a["outer_radius"], a["inner_radius"], a["arches"]
        extent(P, [[None, 0, None], [None, a["height"], None]], size, "scene.extent", "a colosseum stands on its base and is as high as asked for", **kw)
        ck.expect(same_set(P, rotate_y(P, 2 * np.pi / n), 1e-9 * size), "scene.symmetry", "a colosseum looks the same after a rotation by one arch", **kw)
        rho = np.hypot(P[:, 0], P[:, 2])
        ck.expect(rho.max() <= Ro / np.cos(np.pi / n) * (1 + 1e-9) and rho.min() >= Ri * np.cos(np.pi / n) * (1 - 1e-9), "scene.extent", "a colosseum is between its radii", rho=(rho.min(), rho.max()), **kw)
    elif kind == "temple":
        ck.expect(same_set(P, P * [-1, 1, 1], 1e-9 * size), "scene.symmetry", "a temple is its own mirror image", **kw)
        w, d, st = (2 * a["I_pillars"] - 1) * a["pillar_width"], (2 * a["K_pillars"] - 1) * a["pillar_depth"], .1 * a["pillar_height"]
        extent(P, [[-w / 2 - 3 * a["pillar_width"], 0, -d / 2 - 3 * a["pillar_depth"]], [w / 2 + 3 * a["pillar_width"], 3 * st + a["pillar_height"] + 2 * st + (a["I_pillars"] - 1) * st + st / 2, d / 2 + 3 * a["pillar_depth"]]],
               size, "scene.extent", "dimensions of a temple", **kw)
        ck.expect(set(np.round([B.r[2] / size for B in bodies if "socle" in B.name], 8)) <= set(np.round([-B.r[2] / size for B in bodies if "socle" in B.name], 8)), "scene.symmetry", "front and back pillars face each other", **kw)
    elif kind == "chainmail":
        R, r = a["major_radius"], a["minor_radius"]
        delta = 2 * R + (2 * R - 4 * r) * min(1.0, a["stretch"])
        G = [ring(B) for B in bodies]
        ck.close([[g[2], g[4]] for g in G], [[R, r]] * len(G), "scene.ring", "rings of the radii asked for", tol=1e-6, scale=size, **kw)
        C, nx = a["columns"], a["rows"]
        flat = [g for g in G if abs(g[3][1]) > .9]
        ck.expect(len(flat) == (C + 1) * (nx + 1), "scene.ring", "rings lying flat at the crossings", got=len(flat), **kw)
        want = np.array([[(x - C / 2) * delta, 0, (nx / 2 - y) * delta] for x in range(C + 1) for y in range(nx + 1)])
        ck.expect(len(flat) > 0 and same_set(np.array([g[0] for g in flat]), want, 1e-7 * size), "scene.ring", "a square grid centred at the origin", **kw)
        for x, g in enumerate(G):
            L = []
            for y, h in enumerate(G):
                if y != x and np.linalg.norm(g[0] - h[0]) < 2.2 * R:
                    k = linked(g, h)
                    ck.expect(abs(abs(k) - round(abs(k))) < .2, "harness.linking", "linking number is a whole number", k=k)
                    if round(abs(k)):
                        L.append(y)
            if abs(g[3][1]) > .9:
                p = np.round((g[0][[0, 2]] + [C * delta / 2, nx * delta / 2]) / delta).astype(int)
                deg = 4 - (p[0] in (0, C)) - (p[1] in (0, nx)) - (C == 0) - (nx == 0)
            else:
                deg = 2
            ck.expect(len(L) == deg, "scene.linked", "each ring is hooked into its neighbours", ring=x, links=len(L), want=deg, **kw)
        corner = [i for i, g in enumerate(G) if abs(g[3][1]) > .9 and abs(abs(g[0][0]) - C * delta / 2) < 1e-6 * size and abs(abs(g[0][2]) - nx * delta / 2) < 1e-6 * size]
        got = [i for i, B in enumerate(bodies) if is_fixed(e, B)]
        ck.expect(got == (corner if a["pinned"] else []), "scene.body-type", "the corner rings and no others are pinned, if asked for", got=got, want=corner, **kw)
    elif kind == "gears":
        gear, ground = bodies[:-1], bodies[-1]
        ck.expect([is_fixed(e, B) for B in bodies] == [False] * len(gear) + [True], "scene.body-type", "gears turn on a fixed ground", **kw)
        half = [max(np.hypot(*(B.V - B.r)[:, [0, 2]].T)) - 1 for B in gear]  # pitch radius: tip radius less the module
        for i in range(len(gear)):
            ck.close(gear[i].hi[1] - gear[i].lo[1], 10.0, "scene.gear", "gears lie flat", tol=1e-9, **kw)
            Z = 2 * half[i]
            ck.expect(min(abs(Z - z) for z in (7, 12, 15, 28)) < 1e-6, "scene.gear", "teeth numbers", Z=Z, **kw)
            if i:
                d = gear[i].r - gear[i - 1].r
                ck.close(np.hypot(d[0], d[2]), half[i] + half[i - 1], "scene.gear", "neighbouring gears touch at their pitch circles", tol=1e-7, **kw)
                ck.close(d[1], 5.0, "scene.gear", "neighbouring gears share half of their width", tol=1e-9, **kw)
                c = 10.0 / 180 * np.pi / max(1, Z)
                if min(Z, 2 * half[i - 1]) > 8:
                    ck.expect(max(depth(gear[i], gear[i - 1]), depth(gear[i - 1], gear[i])) < 0.01, "scene.mesh", "teeth of neighbouring gears fit into each other", d=max(depth(gear[i], gear[i - 1]), depth(gear[i - 1], gear[i])), **kw)
                for s in (-1, 1):  # without play: the smallest turn makes them collide
                    c = 0.15 / half[i]
                    Rt = ref.rodrigues(np.array([0.0, 1, 0]), s * c)
                    T = gear[i].moved(Rt, gear[i].r - Rt @ gear[i].r)
                    ck.expect(max(depth(T, gear[i - 1]), depth(gear[i - 1], T)) > 0.03, "scene.mesh", "a gear can not turn without turning its neighbour", **kw)
        joints(kind, e, a, [(len(gear), i) for i in range(len(gear))], bodies, np.array([0.0, 1, 0]), [B.r - [0, B.r[1], 0] for B in gear], size, on_axis=True)
    elif kind == "box stack":
        w, h, d = a["box_width"], a["box_height"], a["box_depth"]
        for k, B in enumerate(sorted(bodies, key=lambda B: B.r[1])):
            X = rotate_y(np.array([[x, y, z] for x in (-w / 2, w / 2) for y in (k * h, k * h + h) for z in (-d / 2, d / 2)]), k * np.pi / 4)
            ck.expect(same_set(B.V, X, 1e-9 * size), "scene.stacked", "box k of a stack lies on box k-1, turned by an eighth", k=k, **kw)
    elif kind == "hinge chain":
        c = a["cube_edge_length"]
        D = np.sqrt(2) * c
        n = len(bodies)
        L = n * D + (n - 1) * .05 * D
        extent(P, [[-L / 2, -D / 2, -c / 2], [L / 2, D / 2, c / 2]], size, "scene.extent", "cubes standing on their edges, centred at the origin", **kw)
        ck.expect([is_fixed(e, B) for B in bodies] == [True] + [False] * (n - 1), "scene.body-type", "the first cube is fixed", **kw)
        ck.close([B.r[0] for B in bodies], [(k - (n - 1) / 2) * 1.05 * D for k in range(n)], "scene.stacked", "cubes one after the other, a twentieth of their diagonal apart", tol=1e-9, scale=size, **kw)
        joints(kind, e, a, [(k, k + 1) for k in range(n - 1)], bodies, np.array([0, 0, 1.0]), [np.array([(k + .5 - (n - 1) / 2) * 1.05 * D, 0, 0]) for k in range(n - 1)], size)
    elif kind == "sandbox":
        w, h, d = a["box_width"], a["box_height"], a["box_depth"]
        t = .1 * h
        ck.expect(len(pinned) == 5, "scene.body-type", "four walls and a floor are fixed", got=len(pinned), **kw)
        W = [([-w / 2 - t, t, -d / 2], [-w / 2, t + h, d / 2]), ([w / 2, t, -d / 2], [w / 2 + t, t + h, d / 2]), ([-w / 2 - t, t, d / 2], [w / 2 + t, t + h, d / 2 + t]), ([-w / 2 - t, t, -d / 2 - t], [w / 2 + t, t + h, -d / 2]),
             ([-w / 2 - t, 0, -d / 2 - t], [w / 2 + t, t, d / 2 + t])]
        got = np.array([np.concatenate([B.lo, B.hi]) for B in pinned])
        ck.expect(len(got) == 5 and all(np.abs(got - np.concatenate(x)).max(1).min() < 1e-9 * size for x in W), "scene.walls", "walls and floor enclose a box of the size asked for", **kw)
        on_grid(free, a, (a["I_grains"], a["J_grains"], a["K_grains"]), [-w / 2, 1.5 * h + t, -d / 2], [w, h, d], size)
        ck.expect(len({B.b.shape.name for B in free}) == min(20, a["I_grains"] + a["J_grains"] + a["K_grains"] - 2), "scene.variety", "grains of different shapes", **kw)
    elif kind == "jacks":
        cell = on_grid(bodies, a, (a["I"], a["J"], a["K"]), np.zeros(3), [a["width"], a["height"], a["depth"]], size)
        small(bodies, cell, .9, kw)
        same_way(bodies, a, kw)
    elif kind in ("funnel", "glasses"):
        ck.expect(len(pinned) == 1, "scene.body-type", "the vessel and nothing else is fixed", got=len(pinned), **kw)
        H, rad = (a["funnel_height"], a["funnel_radius"]) if kind == "funnel" else (a["glass_height"], a["glass_radius"])
        for B in pinned:
            c = 0.5 * (B.lo + B.hi)
            ck.close(B.hi - B.lo, [2 * rad, H, 2 * rad], "scene.extent", "dimensions of the vessel", tol=1e-7, scale=size, **kw)
            rim, foot = [np.hypot(*(B.V[m] - c)[:, [0, 2]].T).max() for m in (B.V[:, 1] > B.hi[1] - 1e-6 * H, B.V[:, 1] < B.lo[1] + 1e-6 * H)]
            ck.expect(rim > foot * 1.1, "scene.upright", "the vessel opens upwards, below what is dropped into it", rim=rim, foot=foot, **kw)
            ck.expect(all(o.lo[1] > B.lo[1] for o in free), "scene.upright", "nothing starts below the vessel", **kw)
            ck.event("vessels")
        y = 3 * H if kind == "funnel" else 1.25 * H
        cell = on_grid(free, a, (a["I"], a["J"], a["K"]), [-a["grid_width"] / 2, y, -a["grid_depth"] / 2], [a["grid_width"], a["grid_height"], a["grid_depth"]], size)
        small(free, cell, .9, kw)
        same_way(free, a, kw)
    elif kind == "poles":
        n, m, w, d, r, h = a["I_poles"], a["K_poles"], a["grid_width"], a["grid_depth"], a["pole_radius"], a["pole_height"]
        ck.expect(len(pinned) == n * m, "scene.body-type", "the poles are fixed and nothing else", got=len(pinned), **kw)
        want = np.array([[x * w / n - w / 2 + r, h / 2, z * d / m - d / 2 + r] for x in range(n) for z in range(m)])
        ck.expect(len(pinned) > 0 and same_set(np.array([B.r for B in pinned]), want, 1e-9 * size), "scene.poles", "poles on a grid", **kw)
        for B in pinned:
            ck.close([B.lo[1], B.hi[1], np.hypot(*(B.V - B.r)[:, [0, 2]].T).max()], [0, h, r], "scene.poles", "poles stand upright on the ground", tol=1e-9, scale=size, **kw)
        cell = on_grid(free, a, (a["I_grid"], a["J_grid"], a["K_grid"]), [-w / 2, 2 * h, -d / 2], [w, a["grid_height"], d], size)
        small(free, cell, 1.0, kw)
        same_way(free, a, kw)
    elif kind == "ground":
        extent(P, [[-50, -1, -50], [50, 0, 50]], size, "scene.extent", "the top of the ground is the plane y=0", **kw)
        ck.expect(len(pinned) == 1, "scene.body-type", "the ground is fixed", **kw)
    if kind in STANDING:
        stand(kind, a, bodies, size)
    separated(kind, e, a, bodies, size)


def small(lattice, cell, s, kw):
    """objects are scaled into a unit box before they are scaled to the cell: their largest extent along the axes of the file is s cells"""
    for n in {B.b.shape.name: B for B in lattice}.values():
        M = ref.qmat(np.asarray(n.b.shape.q, float).ravel())
        X = np.asarray(n.b.shape.mesh.V) @ M.T
        ck.close((X.max(0) - X.min(0)).max() / cell, s, "scene.size", "objects of a lattice fill their cells", tol=1e-6, **kw)


def same_way(lattice, a, kw):
    if len(lattice) > 1:
        first = {}
        turned = 0
        for B in lattice:
            F = first.setdefault(B.b.shape.name, B)
            if ref.same_rot(np.asarray(F.b.q).ravel(), np.asarray(B.b.q).ravel()) > 1e-9:
                turned += 1
        want = len(lattice) - len(first)
        ck.expect(turned == (want if a["use_random_orientation"] else 0), "scene.turned", "objects are turned at random, if asked for", turned=turned, of=want, **kw)


def is_fixed(e, B):
    return bool(B.b.is_fixed)


def joints(kind, e, a, pairs, bodies, axis, origins, size, on_axis=False):
    ck.expect(len(e.hinges) == len(pairs), "scene.hinges", "number of hinges", scene=kind, got=len(e.hinges), want=len(pairs))
    found = {}
    for h in e.hinges.values():
        found[(h.parent.name, h.child.name)] = h
    for (p, c), o in zip(pairs, origins):
        h = found.get((bodies[p].name, bodies[c].name))
        if not ck.expect(h is not None, "scene.hinges", "hinge between the bodies it should join", scene=kind, parent=p, child=c):
            continue
        for who, B in (("parent", bodies[p]), ("child", bodies[c])):
            r, q = joint_site(h, who)
            w = B.R @ r + B.r
            z = B.R @ ref.qmat(q) @ np.array([0, 0, 1.0])
            ck.close(np.abs(z @ axis), 1.0, "scene.hinge-axis", "the hinge turns about the axis of the part", tol=1e-9, scene=kind, args=a, axis=z, expected=axis)
            d = w - o
            if on_axis:
                d = d - axis * (d @ axis)
            ck.close(d / size, np.zeros(3), "scene.hinge-origin", "the hinge is where the parts meet", tol=1e-9, scene=kind, args=a)
            ck.event("hinges")


def joint_site(h, who):
    s = h.socket_p if who == "parent" else h.socket_c
    return np.asarray(s.r, float).ravel(), np.asarray(s.q, float).ravel()


def stand(kind, a, bodies, size):
    """each stone lies on something: moved down a little it runs into another stone or the plane y=0"""
    eps = 1e-5 * size
    for i, B in enumerate(bodies):
        if B.lo[1] < eps / 2:
            continue
        D = B.moved(np.eye(3), np.array([0, -eps, 0]))
        ok = False
        for C in bodies:
            if C is not B and C.lo[1] < B.lo[1] + 1e-9 * size + (B.hi[1] - B.lo[1]) and boxes_meet(D, C):
                if max(depth(C, D), depth(D, C)) > 0.02 * eps:
                    ok = True
                    break
        ck.expect(ok, "scene.supported", "each stone rests on another one or on the ground", scene=kind, args=a, body=B.name.rsplit("_", 8)[0], at=B.r)


def separated(kind, e, a, bodies, size):
    env = 0.1  # default contact envelope
    random = a.get("use_random_orientation", kind in ("sandbox", "rocks"))
    ov = overlaps(bodies)
    ck.event("pairs close to each other", sum(boxes_meet(A, B, 1e-9 * size) for i, A in enumerate(bodies) for B in bodies[:i]))
    for d, A, B in ov[:5]:
        if kind == "gears" and d < 0.06:  # teeth of seven-tooth gears, within the envelope
            continue
        if d < 1e-7 * size:
            continue
        fa, fb = is_fixed(e, A), is_fixed(e, B)
        if kind in ("sandbox", "jacks", "funnel", "glasses", "poles", "rocks") and not fa and not fb and (random or kind == "poles"):
            ck.expect(False, "scene.lattice-overlap", "objects of a lattice are apart", scene=kind, args=a, depth=d)
        else:
            ck.expect(False, "scene.overlap", "bodies do not overlap", scene=kind, args=a, bodies=(A.name, B.name), depth=d, size=size)
    ck.expect(True, "scene.overlap")


def one(kind, rng):
    a = legal(kind, rng)
    e = engine()
    API.create_surfaces_interaction(e, "granite", "granite", 0.1, np.array([0.5, 0.5, 0.5]))
    rs = int(rng.integers(2 ** 31))
    np.random.seed(rs)
    names = call(kind, e, a, np.zeros(3), np.array([1.0, 0, 0, 0]))
    bodies = well_formed(kind, e, a, names, ())
    ck.case(dict(scene=kind, args=a), nontrivial=len(bodies) > 1)
    ck.event("scene " + kind)
    describe(kind, e, a, bodies)
    # again, elsewhere, in a new engine and next to what is there
    q, r = ref.rand_quat(rng), rng.normal(size=3) * 10
    if kind in PLACED:
        R = ref.qmat(q)
    else:
        R, r = np.eye(3), np.zeros(3)
    for e2, what in ((engine(), "scene.repeat"), (e, "scene.coexist")):
        if e2 is not e:
            API.create_surfaces_interaction(e2, "granite", "granite", 0.1, np.array([0.5, 0.5, 0.5]))
        before = list(e2.bodies)
        state = {n: (np.array(e2.bodies[n].r), np.array(e2.bodies[n].q), np.array(e2.bodies[n].shape.mesh.V), e2.bodies[n].mass) for n in before}
        shapes, hinges = len(e2.shapes), dict(e2.hinges)
        np.random.seed(rs)
        names2 = call(kind, e2, a, r, q)
        b2 = [Body(e2.bodies[n]) for n in e2.bodies if n not in before]
        same = len(b2) == len(bodies) and all(x.V.shape == y.V.shape and np.array_equal(x.T, y.T) for x, y in zip(bodies, b2))
        if ck.expect(same, what, "the same scene is built again", scene=kind, args=a, bodies=(len(bodies), len(b2))):
            sz = float(np.abs(corners(bodies)).max()) + np.abs(r).max()
            ck.expect(max(np.abs(x.V @ R.T + r - y.V).max() for x, y in zip(bodies, b2)) < 1e-9 * sz and all(x.b.mass == y.b.mass for x, y in zip(bodies, b2)), what,
                      "a scene built again is the same, at the placement asked for", scene=kind, args=a, r=r, q=q)
        ck.expect(all(np.array_equal(x, y) for n in before for x, y in zip(state[n], (e2.bodies[n].r, e2.bodies[n].q, e2.bodies[n].shape.mesh.V, e2.bodies[n].mass))) and all(e2.hinges[n] is h for n, h in hinges.items()),
                  "scene.undisturbed", "what was there before is left alone", scene=kind, args=a)


def assembly(rng):
    """gears in mesh at any turn of the driving gear"""
    Za, Zb = (int(rng.integers(12, 31)) for _ in range(2))
    m, al = float(rng.choice([1.0, 0.5, 2.0])), float(rng.choice([20.0, 20.0, 25.0]))
    ga, gb = (GearFactory.make_gear_specs(m=m, Z=z, alpha=al) for z in (Za, Zb))
    cx, cy, th, om = rng.normal(size=2)[0] * 5, float(rng.normal() * 5), float(rng.uniform(-7, 7)), float(rng.uniform(-7, 7))
    w = m * float(rng.uniform(.5, 4))
    ck.case(dict(gears=(Za, Zb), m=m, alpha=al, cx=cx, cy=cy, theta=th, omega=om))
    x, y, ph = GearFactory.make_gears_assembly(ga, gb, cx, cy, th, om)
    B = []
    for g, p, t in ((ga, (cx, cy), th), (gb, (x, y), ph)):
        V, T = GearFactory.make_gear_mesh(g, face_width=w)
        V, T = np.asarray(V, float), np.asarray(T, np.int64)
        z = g["number of teeth"]
        ck.expect(ref.surface_defects(T) == 0, "gear.closed", "gear surfaces are closed", Z=z)
        rho = np.hypot(V[:, 0], V[:, 1])
        A = .5 * float(np.sum(g["x"] * np.roll(g["y"], -1) - g["y"] * np.roll(g["x"], -1)))
        ck.close(ref.mesh_volume_centroid_inertia(V, T)[0], A * w, "gear.volume", "a gear is its profile times its width", tol=1e-9, Z=z)
        ck.close([rho.max(), V[:, 2].min(), V[:, 2].max()], [m * (z / 2 + 1), -w / 2, w / 2], "gear.size", "a gear reaches one module over its pitch circle", tol=1e-9, Z=z)
        out = rho[np.abs(rho) > 1e-6 * m]
        ck.expect(out[out > .5 * m * (z / 2 - 1.25)].min() > m * (z / 2 - 1.25) * (1 - .02), "gear.size", "the teeth are two and a quarter modules high", Z=z)
        ck.close(2 * np.pi * g["pitch radius"] / z, g["pitch"], "gear.pitch", "teeth are evenly spaced on the pitch circle", tol=1e-12, Z=z)
        P = np.column_stack((g["x"], g["y"], np.zeros_like(g["x"])))
        ck.expect(same_set(P, P @ ref.rodrigues(np.array([0, 0, 1.0]), 2 * np.pi / z).T, 1e-9 * m * z), "gear.symmetry", "every tooth is like the others", Z=z)
        Rt = ref.rodrigues(np.array([0, 0, 1.0]), t)
        b = Body.__new__(Body)
        b.name, b.R, b.r, b.V, b.T = "gear", Rt, np.array([*p, 0]), V @ Rt.T + np.array([*p, 0]), T
        b.lo, b.hi, b._pts = b.V.min(0), b.V.max(0), None
        b.size = float(np.linalg.norm(b.hi - b.lo))
        B.append(b)
    ck.close(np.hypot(x - cx, y - cy), ga["pitch radius"] + gb["pitch radius"], "gear.centre", "pitch circles touch", tol=1e-9)
    ck.close(np.array([x - cx, y - cy]) / np.hypot(x - cx, y - cy), [np.cos(om), np.sin(om)], "gear.centre", "the driven gear is in the direction asked for", tol=1e-9)
    d = max(depth(*B), depth(*B[::-1]))
    ck.expect(d < .02 * m, "gear.mesh", "teeth fit into each other at any turn of the driving gear", depth=d / m)
    for s in (-1, 1):
        Rt = ref.rodrigues(np.array([0, 0, 1.0]), s * .15 / (Zb / 2))
        Bm = B[1].moved(Rt, B[1].r - Rt @ B[1].r)
        d = max(depth(Bm, B[0]), depth(B[0], Bm))
        ck.expect(d > .02 * m, "gear.mesh", "without play", depth=d / m)
    for what, bad in (("modules", GearFactory.make_gear_specs(m=m * 2, Z=Zb, alpha=al)), ("pressure angles", GearFactory.make_gear_specs(m=m, Z=Zb, alpha=45.0 - al))):
        for pair in ((ga, bad), (bad, ga)):
            try:
                GearFactory.make_gears_assembly(*pair, 0, 0, 0, 0)
                ck.expect(False, "gear.refused", "gears of different %s do not fit" % what)
            except ValueError:
                ck.expect(True, "gear.refused")


def read_obj(path):
    V, F = [], []
    for line in open(path):
        s = line.split()
        if s and s[0] == "v":
            V.append([float(x) for x in s[1:4]])
        elif s and s[0] == "f":
            F.append([int(x.split("/")[0]) - 1 for x in s[1:]])
    return np.array(V), F


def rocks(rng):
    e = engine()
    a = dict(pile_width=float(rng.uniform(2, 8)), pile_height=float(rng.uniform(2, 5)), pile_depth=float(rng.uniform(2, 5)), I_rocks=int(rng.integers(1, 4)), J_rocks=int(rng.integers(1, 4)), K_rocks=int(rng.integers(1, 4)),
             density=float(rng.uniform(.5, 3)), material_name="default")
    names = call("rocks", e, a, None, None)
    bodies = well_formed("rocks", e, a, names, ())
    ck.case(dict(scene="rocks", args=a))
    ck.event("scene rocks")
    fx = [B for B in bodies if is_fixed(e, B)]
    ck.expect(len(fx) == 1, "scene.body-type", "the landscape and nothing else is fixed", got=len(fx))
    files = [read_obj("data/rock_slide/mountains.obj")[0]] + [read_obj("data/rock_slide/building_%02d.obj" % k)[0] for k in range(1, 21)]
    rest = list(bodies)
    for V in files:
        m = [B for B in rest if len(B.V) == len(V) and same_set(B.V, V, 1e-6)]
        if ck.expect(len(m) >= 1, "scene.file", "landscape and buildings are where their files put them", vertices=len(V)):
            rest.remove(m[0])
    R = ref.rodrigues(np.array([0.0, 1, 0]), 3 * np.pi / 4)
    cell = on_grid(rest, a, (a["I_rocks"], a["J_rocks"], a["K_rocks"]), np.array([-10, 16, 5.0]), [a["pile_width"], a["pile_height"], a["pile_depth"]], 30, R)
    small(rest, cell, .9, dict(scene="rocks", args=a))
    separated("rocks", e, a, rest, cell * 10)


def lattice(rng):
    """the general lattice with shapes of the caller"""
    import meshes
    e = engine()
    API.create_surfaces_interaction(e, "granite", "granite", 0.1, np.array([0.5, 0.5, 0.5]))
    kinds = [str(k) for k in rng.choice(["sphere", "octahedron", "tetra", "box"], size=int(rng.integers(1, 4)))]
    shapes = []
    for i, k in enumerate(kinds):
        V, T = {"sphere": lambda: meshes.sphere(1.0, 1), "octahedron": meshes.octahedron, "tetra": meshes.tetra, "box": lambda: meshes.box(.5, .3, .2)}[k]()
        V = V + rng.normal(size=3)
        API.create_shape(e, "s%d" % i, API.create_mesh(np.array(V), np.array(T)))
        shapes.append("s%d" % i)
    n = [int(x) for x in rng.integers(1, 4, size=3)]
    a = dict(width=float(rng.uniform(5, 20)), height=float(rng.uniform(5, 20)), depth=float(rng.uniform(5, 20)), I=n[0], J=n[1], K=n[2], density=float(rng.uniform(.5, 9)), material_name="granite")
    ro = bool(rng.random() < .4)
    qb = None if rng.random() < .4 else ref.rand_quat(rng)
    r, q = rng.normal(size=3) * 5, ref.rand_quat(rng)
    ck.case(dict(scene="lattice", shapes=kinds, args=a, random=ro, q_body=qb is not None))
    names = S.create_lattice(e, r=r, q=q, shape_names=shapes, use_random_orientation=ro, q_body=qb, **a)
    bodies = well_formed("lattice", e, a, names, ())
    ck.expect(len(bodies) == n[0] * n[1] * n[2], "scene.count", "bodies of a lattice", got=len(bodies))
    on_grid(bodies, a, n, r, [a["width"], a["height"], a["depth"]], 30, ref.qmat(q))
    want = ref.qmul(q, qb if qb is not None else np.array([1.0, 0, 0, 0]))
    k = sum(ref.same_rot(np.asarray(B.b.q).ravel(), want) < 1e-9 for B in bodies)
    ck.expect(k == (0 if ro else len(bodies)), "scene.turned", "objects are turned as asked for", got=k, random=ro)
    ck.expect(not any(is_fixed(e, B) for B in bodies), "scene.body-type", "objects of a lattice are free")
    by = {B.name: B for B in bodies}
    idx = [(x, y, z) for x in range(n[0]) for y in range(n[1]) for z in range(n[2])]
    ck.expect([by[m].b.shape.name for m in names] == [shapes[sum(i) % len(shapes)] for i in idx], "scene.variety", "neighbouring cells have different shapes")


def whole(names):
    """scenes by name, with gravity and air drag on every body"""
    for n in names:
        ck.case(dict(scene_by_name=n))
        e = engine()
        S.create_scene(e, n)
        ck.expect(len(e.bodies) > 1, "scene.by-name", "a scene has bodies", scene=n)
        for b in e.bodies.values():
            f = list(b.forces)
            g = [x for x in f if hasattr(x, "g")]
            d = [x for x in f if hasattr(x, "alpha")]
            ck.expect(len(f) == 2 and len(g) == 1 and len(d) == 1 and abs(g[0].g - 9.81) < 1e-9 and np.allclose(np.asarray(g[0].up).ravel(), [0, 1, 0]), "scene.forces", "gravity downwards and damping act on every body", scene=n, body=b.name, forces=len(f))
        B = [Body(b) for b in e.bodies.values()]
        ground = [x for x in B if is_fixed(e, x) and np.allclose(x.hi - x.lo, [100, 1, 100])]
        if n in ("pillar", "arch", "dome", "tower", "colosseum", "pantheon", "temple", "box_stack", "funnel", "glasses", "poles"):
            ck.expect(len(ground) == 1 and abs(ground[0].hi[1]) < 1e-9, "scene.by-name", "the scene stands on the ground", scene=n)
            ck.expect(all(x.lo[1] > -1e-9 for x in B if x not in ground), "scene.by-name", "nothing starts below the ground", scene=n)
        # the world is ready to move
        if len(e.bodies) < 100:
            e.params.max_iterations = 20
            API.simulate(e, e.params.time_step)
            ck.expect(all(np.all(np.isfinite(b.r)) and abs(np.linalg.norm(b.q) - 1) < 1e-6 for b in e.bodies.values()), "scene.simulates", "a scene can be simulated", scene=n)
            ck.event("simulated scenes")
    ck.expect(len(set(S.get_scene_names())) == len(S.get_scene_names()) and set(names) <= set(S.get_scene_names()), "scene.by-name", "scene names are listed")


def refusals():
    e = engine()
    z, q = np.zeros(3), np.array([1.0, 0, 0, 0])
    good = dict(width=2.0, height=3.0, depth=.5, pier_stones=3, arch_stones=5, density=1.0, material_name="default")
    for k, v in (("width", 0.0), ("width", -1.0), ("height", -1.0), ("height", 1.0), ("depth", 0.0), ("pier_stones", 0), ("arch_stones", 2), ("arch_stones", 1), ("arch_stones", 6), ("density", 0.0), ("density", -1.0)):
        try:
            S.create_arch(e, z, q, **{**good, k: v})
            ck.expect(False, "scene.refused", "illegal sizes are refused", arg=k, value=v)
        except Exception:  # noqa: BLE001 - any refusal
            ck.expect(len(e.bodies) == 0 and len(e.shapes) == 0, "scene.refused", "a refused scene leaves nothing behind", arg=k, value=v)
    for K in (2, 3, 5, 6):
        try:
            S.create_temple(e, 4, K, 1.0, 3.0, 1.0, 2, 1.0, "default")
            ck.expect(False, "scene.refused", "temples of other lengths are refused", K=K)
        except Exception:  # noqa: BLE001
            ck.expect(len(e.bodies) == 0, "scene.refused", "a refused scene leaves nothing behind", K=K)
    try:
        S.create_pantheon(e, z, q, 5.0, 4.0, 5.0, 2, 5, 1.0, "default")
        ck.expect(False, "scene.refused", "a dome higher than the building is refused")
    except Exception:  # noqa: BLE001
        ck.expect(len(e.bodies) == 0, "scene.refused", "a refused scene leaves nothing behind")


HEAVY = {"temple": 2, "colosseum": 1, "gears": 4, "chainmail": 3, "sandbox": 3, "ground": 2}
NAMED = ["pillar", "arch", "dome", "tower", "pantheon", "box_stack", "cube_hinge_chain", "glasses", "gear_train"]


def small_parts(_):
    with ck.guard("scene.refused"):
        refusals()
    rng = ck.rng("lattice")
    for _ in range(ck.n(8, 60)):
        with ck.guard("scene.lattice"):
            lattice(rng)
    rng = ck.rng("gear")
    for _ in range(ck.n(12, 100)):
        with ck.guard("gear.mesh"):
            assembly(rng)


def factories(_):
    for kind in KINDS:
        rng = ck.rng("scene", kind)
        for _ in range(ck.n(HEAVY.get(kind, 5), HEAVY.get(kind, 5) * 6)):
            if ck.time_left() < 0:
                return
            with ck.guard("scene." + kind):
                one(kind, rng)
    with ck.guard("scene.rocks"):
        rocks(ck.rng("rocks"))


def by_name(_):
    with ck.guard("scene.by-name"):
        whole(NAMED + (["funnel", "poles", "chainmail", "temple", "colosseum"] if ck.thorough else []))


ck.require(**{"scene.extent": 20, "scene.supported": 50, "scene.hinge-axis": 5, "gear.mesh": 20, "scene.linked": 10, "scene.repeat": 20, "scene.coexist": 20, "scene.lattice": 10})
ck.run(small_parts, factories, by_name)
