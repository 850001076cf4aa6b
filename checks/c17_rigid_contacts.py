import numpy as np
from vh import Check
import meshes
import ref
from rigid import World, API

import rainbow.geometry.grid3 as GRID
import rainbow.simulators.prox_rigid_bodies.collision_detection as CD

ck = Check("C17", "2-4 bodies of 12 families of solids, sizes 0.02..40, anywhere within 1e3 of the origin, envelopes 0..20% of the size, field resolutions 10-24, moved through a history of random, "
                  "touching, deep and separated configurations, in every order of insertion; non-trivial: bodies in contact.")


def dist_to_mesh(p, V, T):
    return ref.mesh_distance(np.atleast_2d(p), V, T)


class Scene:
    def __init__(self, rng, it, n=2):
        self.scale = float(rng.choice([0.02, 0.02, 0.3, 1, 1, 5, 40]))
        self.kinds = [str(rng.choice(meshes.KINDS)) for _ in range(n)]
        self.res = int(rng.choice([10, 16, 24]))
        self.env = float(rng.choice([0.0, 0.01, 0.1, 0.2])) * self.scale
        self.m = []
        for k in self.kinds:
            V, T = meshes.make(k, rng)
            if rng.random() < 0.3:
                V = V * np.array([1, 1, rng.uniform(2, 4)])
            self.m.append((V * self.scale * rng.uniform(0.6, 1.3), T))
        self.twins = n > 2 and rng.random() < 0.5          # the last two bodies are copies
        if self.twins:
            self.m[n - 1] = self.m[n - 2]
        self.use = list(range(n))                          # the shape of each body: some share one
        if self.twins and rng.random() < 0.7:
            self.use[n - 1] = n - 2
        elif rng.random() < 0.25:
            self.m, self.use = self.m[:1] * n, [0] * n
        self.order = list(range(n))
        self.first = [int(rng.integers(n)) if rng.random() < 0.3 else i for i in range(n)]      # shapes the bodies had before
        self.fixed = [bool(rng.random() < 0.3) for _ in range(n)]
        self.W = self.build(self.order)

    def build(self, order):
        W = World(resolution=self.res, envelope=self.env)
        for i in order:
            W.shape("s%d" % i, *self.m[i])
        for i in order:
            first, last = self.use[self.first[i]], self.use[i]
            W.body("s%d" % first, "b%d" % i, fixed=self.fixed[i])
            if first != last:
                API.connect_shape(W.e, "b%d" % i, "s%d" % last)
                API.set_mass_properties(W.e, "b%d" % i, 1.0)
        return W


def world_mesh(e, n):
    b = e.bodies[n]
    return b.shape.mesh.V @ ref.qmat(API.get_orientation(e, n)).T + API.get_position(e, n), b.shape.mesh.T


def cell(b):
    g = b.shape.grid
    return float(np.linalg.norm(g.spacing))


def local(e, n, P):
    return (np.atleast_2d(P) - API.get_position(e, n)) @ ref.qmat(API.get_orientation(e, n))


def pose(e, n, r, q):
    API.set_orientation(e, n, np.array(q))
    API.set_position(e, n, np.array(r))


BEFORE = []


def hook():
    """record the contact list handed to the reduction stage, when there is such a stage"""
    f = getattr(CD, "_contact_reduction", None)
    if f is None:
        return

    def wrapped(engine, *a, **k):
        BEFORE.append((engine, list(engine.contact_points)))
        return f(engine, *a, **k)

    CD._contact_reduction = wrapped


def detect(ck, e):
    BEFORE.clear()
    with ck.guard("detect.exception", "collision detection raises"):
        CD.run_collision_detection(e, {}, False)
    cps = list(e.contact_points)
    if len(BEFORE) == 1 and BEFORE[0][0] is e:
        raw = BEFORE[0][1]
        key = lambda c: (frozenset((c.bodyA.name, c.bodyB.name)), tuple(np.asarray(c.p)))
        kept = {key(c) for c in cps}
        ck.expect(kept == {key(c) for c in raw}, "reduction.set", "contact reduction lost or invented a contact", before=len(raw), after=len(cps))
        ck.expect(len(kept) == len(cps), "reduction.unique", "coinciding contacts of one pair survive the reduction", after=len(cps))
        ck.event("reduced_contacts", len(raw) - len(cps))
    return cps


def judge(ck, S, cps, e, where):
    scale = S.scale
    by_pair = {}
    for cp in cps:
        A, B = cp.bodyA, cp.bodyB
        ck.expect(A is not B and e.bodies.get(A.name) is A and e.bodies.get(B.name) is B, "contact.bodies", "a contact does not name two bodies of the world")
        p, n, g = np.asarray(cp.p, float), np.asarray(cp.n, float), float(cp.g)
        ck.close(np.linalg.norm(n), 1.0, "contact.unit", "a contact normal is no unit vector", tol=1e-12)
        off = np.linalg.norm(API.get_position(e, A.name)) + scale
        x = local(e, A.name, p)[0]
        with ck.guard("grid.exception"):
            phi = GRID.get_value(A.shape.grid, x)
            grad = GRID.get_gradient(A.shape.grid, x)
        ck.close(g, phi, "contact.gap", "the gap is not the distance field's value at the contact point", tol=1e-10, scale=off)
        nw = ref.qmat(API.get_orientation(e, A.name)) @ np.asarray(grad)
        # the gradient jumps between cells: accept it on either side of a cell face
        ok = np.linalg.norm(n - nw / np.linalg.norm(nw)) < 1e-6
        if not ok:
            h = np.asarray(A.shape.grid.spacing)
            for d in np.array(np.meshgrid(*[(-1e-7, 0, 1e-7)] * 3)).reshape(3, -1).T:
                gg = np.asarray(GRID.get_gradient(A.shape.grid, x + d * h))
                ok = ok or np.linalg.norm(n - ref.qmat(API.get_orientation(e, A.name)) @ gg / np.linalg.norm(gg)) < 1e-5
        ck.expect(ok, "contact.normal", "the normal is not the outward direction of the first body's distance field", n=n, want=nw / np.linalg.norm(nw), where=where)
        ck.expect(g <= S.env + 1e-12, "contact.envelope", "a contact outside the envelope is reported", g=g, env=S.env)
        VB, TB = world_mesh(e, B.name)
        ck.close(dist_to_mesh(p, VB, TB)[0], 0.0, "contact.on_surface", "the contact point is not on the second body's surface", tol=1e-9, scale=off)
        VA, TA = world_mesh(e, A.name)
        d = float(dist_to_mesh(p, VA, TA)[0])
        ck.expect(abs(d - abs(g)) <= 1.0 * cell(A) + 1e-9 * off, "contact.true_distance", "the gap is not the distance to the other body's surface", g=g, d=d, cell=cell(A))
        if abs(d) > 1.0 * cell(A):
            inside = abs(float(ref.winding_number(np.atleast_2d(p), VA, TA)[0])) > 0.5
            ck.expect(inside == (g < 0), "contact.sign", "the gap has the wrong sign", g=g, d=d, inside=inside)
        by_pair.setdefault(frozenset((A.name, B.name)), []).append(cp)
    names = list(e.bodies)
    for i in range(len(names)):
        for j in range(i):
            a, b = names[i], names[j]
            mine = by_pair.get(frozenset((a, b)), [])
            (VA, TA), (VB, TB) = world_mesh(e, a), world_mesh(e, b)
            dmin = min(float(np.min(dist_to_mesh(VA, VB, TB))), float(np.min(dist_to_mesh(VB, VA, TA))))
            deep, who = 0.0, None
            for (X, (V, T), n) in ((VA, (VB, TB), b), (VB, (VA, TA), a)):
                lo, hi = V.min(0), V.max(0)
                c = X[np.all((X > lo) & (X < hi), axis=1)]
                if len(c):
                    ins = np.abs(ref.winding_number(c, V, T)) > 0.5
                    if ins.any():
                        dd = float(np.max(dist_to_mesh(c[ins], V, T)))
                        if dd / cell(e.bodies[n]) > deep:
                            deep, who = dd / cell(e.bodies[n]), n
            outside = any((np.abs(ref.winding_number(X, V, T)) < 0.5).any() for X, (V, T) in ((VA, (VB, TB)),)) and any((np.abs(ref.winding_number(X, V, T)) < 0.5).any() for X, (V, T) in ((VB, (VA, TA)),))
            if who is not None and deep > 1.0 and outside:
                ck.expect(mine, "found.penetration", "a vertex is deep inside another body but no contact of the pair is reported", depth_in_cells=deep, a=a, b=b, kinds=S.kinds, where=where)
                if mine:
                    gmin = min(float(c.g) for c in mine)
                    ck.event("deep_pairs")
                    h = cell(e.bodies[who])
                    ck.expect(gmin <= -0.5 * deep * h + 0.5 * h, "found.depth", "the deepest contact is much shallower than the deepest vertex", depth_in_cells=deep, gap_in_cells=gmin / h, kinds=S.kinds, where=where)
            # a vertex just outside, well within the envelope
            if S.env > 0 and not (who is not None and deep > 1.0):
                for X, n, (V, T) in ((VA, b, (VB, TB)), (VB, a, (VA, TA))):
                    body = e.bodies[n]
                    d = dist_to_mesh(X, V, T)
                    thr = 0.9 * S.env - 0.2 * cell(body)
                    for m in np.argsort(d)[:4]:
                        x = local(e, n, X[m])[0]
                        if d[m] < thr and bool(np.all(GRID.is_inside(body.shape.grid, x, 0.0))) and abs(GRID.get_value(body.shape.grid, x)) < thr:
                            ck.expect(mine, "found.envelope", "a vertex is well within the envelope of another body but no contact of the pair is reported", d=float(d[m]), env=S.env, kinds=S.kinds, where=where)
            # separating direction between centres gives a safe lower bound of the distance
            sep = separation(VA, VB)
            margin = S.env + max(cell(e.bodies[a]), cell(e.bodies[b])) * 1.0
            if sep > margin:
                ck.expect(not mine, "separated.silent", "contacts are reported between separated bodies", separation=sep, env=S.env, kinds=S.kinds, where=where)
            if mine:
                ck.event("touching_pairs")


def separation(VA, VB):
    best = -np.inf
    dirs = [VB.mean(0) - VA.mean(0), *np.eye(3)]
    for d in dirs:
        l = np.linalg.norm(d)
        if l < 1e-300:
            continue
        d = d / l
        a, b = VA @ d, VB @ d
        best = max(best, b.min() - a.max(), a.min() - b.max())
    return best


def poke(rng, S, e, e2, aligned, still=None):
    """push an extreme vertex of one body through a random point of the other's surface"""
    a, b = rng.permutation(len(e.bodies))[:2]
    A, B = "b%d" % a, "b%d" % b
    if B == still:
        A, B = B, A
    VA, TA = world_mesh(e, A)
    VB, TB = world_mesh(e, B)
    if aligned:                                # a face of A square to an axis
        t = VA[TA[int(rng.integers(len(TA)))]]
        n = np.cross(t[1] - t[0], t[2] - t[0])
        if np.linalg.norm(n) > 1e-12:
            n = n / np.linalg.norm(n)
            a = np.eye(3)[int(rng.integers(3))] * rng.choice([-1, 1])
            u = np.cross(n, a)
            if np.linalg.norm(u) > 1e-9:
                q = ref.qmul(ref.quat(u / np.linalg.norm(u), np.arctan2(np.linalg.norm(u), n @ a)), API.get_orientation(e, A))
                for x in (e, e2):
                    API.set_orientation(x, A, q)
            VA, TA = world_mesh(e, A)
    t = VA[TA[int(rng.integers(len(TA)))]]
    n = np.cross(t[1] - t[0], t[2] - t[0])
    if np.linalg.norm(n) < 1e-12:
        return
    n = n / np.linalg.norm(n)
    p = rng.dirichlet([1, 1, 1]) @ t
    tip = VB[int(np.argmin(VB @ n))]
    depth = cell(e.bodies[A]) * rng.uniform(0.5, 4) if rng.random() < 0.5 else -S.env * rng.uniform(0, 0.9)
    r = API.get_position(e, B) + (p - depth * n) - tip
    if rng.random() < 0.4:                     # it creeps up: just apart first, then the small rest of the way
        for x in (e, e2):
            API.set_position(x, B, r + n * (max(depth, 0) + S.env + rng.uniform(0.05, 0.4) * S.scale))
            detect(ck, x)
        ck.event("creeps")
    for x in (e, e2):
        API.set_position(x, B, r)


def histories(ck):
    rng = ck.rng("histories")
    for it in range(ck.n(60, 600)):
        if ck.time_left() < 0:
            break
        n = 2 if rng.random() < 0.7 else int(rng.integers(3, 5))
        with ck.guard("scene.exception"):
            S = Scene(rng, it, n)
        e = S.W.e
        order = [int(i) for i in rng.permutation(n)]
        if order == S.order:
            order = order[::-1]
        e2 = S.build(order).e
        centre = rng.normal(size=3) * float(rng.choice([0, 1, 1e3]))
        for k in range(ck.n(6, 10)):
            mode = str(rng.choice(["near", "poke", "poke", "deep", "apart", "graze"]))
            if k and rng.random() < 0.25:
                mode, still = "turn", None                              # some bodies are turned, or some are moved, and nothing else changes
                turn = bool(rng.random() < 0.7)
                for i in range(n):
                    if rng.random() < 0.6:
                        b = "b%d" % i
                        r, q = API.get_position(e, b), API.get_orientation(e, b)
                        r, q = (r, ref.rand_quat(rng)) if turn else (r + rng.normal(size=3) * 0.3 * S.scale, q)
                        still = b if turn else None
                        for x in (e, e2):
                            if turn:
                                API.set_orientation(x, b, np.array(q))
                            else:
                                API.set_position(x, b, np.array(r))
            if mode == "turn" and rng.random() < 0.7:      # a world without history is in the same state
                P = [(API.get_position(e, "b%d" % i), API.get_orientation(e, "b%d" % i)) for i in range(n)]
                with ck.guard("scene.exception"):
                    e2 = S.build(order).e
                for i in range(n):
                    pose(e2, "b%d" % i, *P[i])
                ck.event("fresh_worlds")
                if rng.random() < 0.6 and still:
                    poke(rng, S, e, e2, False, still)
            for i in range(n) if mode != "turn" else ():
                r = centre + ref.rand_unit(rng) * S.scale * {"near": rng.uniform(0.3, 1.2), "deep": rng.uniform(0.05, 0.5), "apart": 20 * (i + 1), "graze": rng.uniform(0.9, 1.6), "poke": 3 * i}[mode]
                q = ref.rand_quat(rng)
                pose(e, "b%d" % i, r, q)
                pose(e2, "b%d" % i, r, q)
            if mode == "poke":
                poke(rng, S, e, e2, rng.random() < 0.5)
            if S.twins and k % 2:                          # ... in the same place: their contacts with a third coincide
                for x in (e, e2):
                    pose(x, "b%d" % (n - 1), API.get_position(x, "b%d" % (n - 2)), API.get_orientation(x, "b%d" % (n - 2)))
            cps = detect(ck, e)
            ck.case(dict(it=it, kinds=S.kinds, scale=S.scale, mode=mode, n=n, env=S.env, res=S.res, k=k, contacts=len(cps)), nontrivial=bool(cps))
            judge(ck, S, cps, e, (it, k, mode))
            ck.event("contacts", len(cps))
            # the same scene built in another order reports the same contacts
            other = detect(ck, e2)
            # (ties between symmetric corner points are broken by round-off, so single points may differ)
            one, two = deepest(cps), deepest(other)
            for pair in set(one) | set(two):
                h = max(cell(e.bodies[x]) for x in pair)
                g1, g2 = one.get(pair, np.inf), two.get(pair, np.inf)
                if min(g1, g2) < -h:
                    ck.expect(abs(g1 - g2) < h, "order.deepest", "the order of insertion changes the deepest contact of a pair", g1=g1, g2=g2, cell=h)
            ck.expect(abs(len(cps) - len(other)) <= 4 + 0.2 * len(cps), "order.count", "the order of insertion changes the number of contacts", n1=len(cps), n2=len(other))


def stepped(ck):
    """a step works with the contacts of the configuration it starts from, whatever the options"""
    rng = ck.rng("stepped")
    for it in range(ck.n(16, 160)):
        if ck.time_left() < 0:
            break
        n = int(rng.integers(2, 4))
        with ck.guard("scene.exception"):
            S = Scene(rng, it, n)
            e, e2 = S.W.e, S.build(S.order).e
        opt = dict(use_bounce=bool(rng.integers(2)), use_pre_stabilization=bool(rng.integers(2)), use_post_stabilization=bool(rng.integers(2)))
        for k, v in opt.items():
            setattr(e.params, k, v)
        e.params.max_iterations = 40
        e.params.time_step = 0.02
        for i in range(n):
            pose(e, "b%d" % i, ref.rand_unit(rng) * S.scale * rng.uniform(0.5, 1.0), ref.rand_quat(rng))
            API.set_velocity(e, "b%d" % i, rng.normal(size=3) * S.scale * 2)
            API.set_spin(e, "b%d" % i, rng.normal(size=3) * 2)
        hits = 0
        for k in range(8):
            for b in list(e.bodies):
                pose(e2, b, API.get_position(e, b), API.get_orientation(e, b))
            want = deepest(detect(ck, e2))
            if k == 4:
                API.set_position(e, "b0", API.get_position(e, "b1") + 1e3 * S.scale)     # moved by the user between steps
                continue
            with ck.guard("step.exception"):
                API.simulate(e, e.params.time_step, bool(rng.integers(2)))
            # (the second world holds the poses before the step; ties broken by round-off may change single points)
            for c in e.contact_points:
                A, B, p = c.bodyA.name, c.bodyB.name, np.asarray(c.p, float)
                x = local(e2, A, p)[0]
                phi = GRID.get_value(e2.bodies[A].shape.grid, x)
                off = float(dist_to_mesh(p, *world_mesh(e2, B))[0])
                ck.expect(abs(float(c.g) - phi) < 1e-7 * S.scale and off < 1e-7 * S.scale, "step.contacts", "a step does not use the contacts of the configuration it starts from", step=k, gap=float(c.g), field=phi, off=off, **opt)
            got = deepest(e.contact_points)
            for pair in set(got) | set(want):
                h = max(cell(e.bodies[x]) for x in pair)
                g1, g2 = got.get(pair, np.inf), want.get(pair, np.inf)
                if min(g1, g2) < -h:
                    ck.expect(abs(g1 - g2) < h, "step.missed", "a step overlooks a contact of the configuration it starts from", g1=g1, g2=g2, cell=h, **opt)
            hits += len(want)
        ck.case(dict(stepped=it, kinds=S.kinds, n=n, hits=hits, **opt), hits > 0)


def deepest(cps):
    d = {}
    for c in cps:
        k = frozenset((c.bodyA.name, c.bodyB.name))
        d[k] = min(d.get(k, np.inf), float(c.g))
    return d


ck.require(**{"found.penetration": 25, "found.depth": 25, "separated.silent": 40, "contact.gap": 800, "contact.sign": 100, "order.deepest": 20, "step.contacts": 300, "step.missed": 6})
hook()
ck.run(stepped, histories)
