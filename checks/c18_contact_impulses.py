import numpy as np
from scipy.optimize import nnls
from vh import Check
import meshes
import ref
import rigid
from rigid import World, API

import rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver as SOLVER

ck = Check("C18", "2-4 bodies of 12 families of solids and densities 1e-2..1e3 thrown at each other or on a fixed slab, friction 0..2, restitution 0..1, bounce/pre-/post-stabilisation on and off, iteration budgets 1..400; "
                  "the velocity changes of every step are explained from the reported contact points alone; non-trivial: a step with contact impulses.")

N_DIR = 160
k = np.arange(N_DIR) + 0.5
_ph, _th = np.arccos(1 - 2 * k / N_DIR), np.pi * (1 + 5 ** 0.5) * k
SPHERE = np.stack([np.cos(_th) * np.sin(_ph), np.sin(_th) * np.sin(_ph), np.cos(_ph)], 1)
# circumscribing factor of the polyhedron spanned by the directions, with margin
OUTER = 1.0 / np.cos(2.0 / np.sqrt(N_DIR) * 1.6)


SOLVED = []


def hook():
    f = SOLVER.solve

    def wrapped(engine, problems, *a, **k):
        out = f(engine, problems, *a, **k)
        SOLVED.append((engine, list(problems)))
        return out

    SOLVER.solve = wrapped


def frame(n):
    a = np.eye(3)[int(np.argmin(np.abs(n)))]
    s = np.cross(n, a)
    s /= np.linalg.norm(s)
    return s, np.cross(n, s)


class Step:
    """what a step did, from the states read before and after it"""

    def __init__(self, W, forces):
        self.W, self.e = W, W.e
        self.names = list(W.e.bodies)
        self.before = W.states()
        self.forces = forces

    def take(self, ck, profiling=False):
        e = self.e
        SOLVED.clear()
        with ck.guard("step.exception", "a step with contacts raises"):
            API.simulate(e, self.W.dt, profiling)
        self.after = self.W.states()
        self.cps = [(c.bodyA.name, c.bodyB.name, np.array(c.p, float), np.array(c.n, float), float(c.g)) for c in e.contact_points]
        self.free, self.J, self.M, self.size = {}, {}, {}, {}
        for n in self.names:
            b = e.bodies[n]
            f = [] if b.is_fixed else self.forces
            s = self.before[n]
            if b.is_fixed:
                self.free[n] = (s[2], s[3])
                self.M[n] = (np.inf, None)
                continue
            fs = rigid.free_step(b.mass, np.asarray(b.inertia), s, f, self.W.dt)
            self.free[n] = (fs[2], fs[3])
            I = rigid.inertia_world(b, s[1])
            self.M[n] = (b.mass, I)
            self.J[n] = np.r_[b.mass * (self.after[n][2] - fs[2]), I @ (self.after[n][3] - fs[3])]    # impulse and its moment about the centre

    def relvel(self, c, which):
        A, B, p, n, g = c
        st = {"before": lambda x: self.before[x][2:], "after": lambda x: self.after[x][2:], "free": lambda x: self.free[x]}[which]
        (va, wa), (vb, wb) = st(A), st(B)
        if self.e.bodies[A].is_fixed and which == "free":
            pass
        return (vb + np.cross(wb, p - self.before[B][0])) - (va + np.cross(wa, p - self.before[A][0])), wb - wa


def make(rng, ck, kind, **fix):
    scale = float(rng.choice([0.2, 1, 5]))
    env = float(rng.choice([0.0, 0.005, 0.03])) * scale
    par = dict(use_bounce=bool(rng.random() < 0.5), use_pre_stabilization=bool(rng.random() < 0.4), use_post_stabilization=bool(rng.random() < 0.3),
               max_iterations=int(rng.choice([1, 2, 5, 30, 100, 400])), time_step=float(rng.choice([0.001, 0.01])))
    par.update({k: v for k, v in fix.items() if k in par})
    W = World(slack=int(rng.choice([1, 1, 4])), resolution=12, envelope=fix.get("envelope", env), absolute_tolerance=1e-7, relative_tolerance=1e-7, **par)
    e = W.e
    mu, eps = float(rng.choice([0.0, 0.3, 1.0, 2.0, rng.uniform(0, 1)])), float(rng.choice([0.0, 0.5, 1.0, rng.uniform(0, 1)]))
    mu, eps = fix.get("mu", mu), fix.get("eps", eps)
    n = {"pair": 2, "trio": 3, "ground": 2, "point": 2, "field": int(rng.integers(3, 6))}[kind]
    mats = ["M%d" % i for i in range(n)]
    mus, es = {}, {}
    for i in range(n):
        for j in range(i):
            pair = frozenset(("b%d" % i, "b%d" % j))
            mus[pair] = mu if n == 2 else 0.0 if kind == "field" and ("mu" in fix or rng.random() < 0.3) else float(rng.choice([0.0, 0.2, 0.7, 2.0]))
            es[pair] = eps if n == 2 else float(rng.choice([0.0, 0.3, 1.0]))
            ab = (mats[i], mats[j]) if rng.random() < 0.5 else (mats[j], mats[i])
            API.create_surfaces_interaction(e, *ab, es[pair], np.array([mus[pair]] * 3))
    mu, eps = mus, es
    forces = []
    if kind == "ground" or rng.random() < 0.3:
        API.create_gravity_force(e, "g", 9.81, np.array([0., 0., 1.]))
        forces = [("g", 9.81, np.array([0., 0., 1.]))]
    names = []
    for i in range(n):
        if kind == "ground" and i == 0:
            W.shape("s0", *meshes.grid_box(3 * scale, 3 * scale, 0.4 * scale, 3))
            W.body("s0", "b0", r=[0, 0, -0.4 * scale], model=True, fixed=True, material=mats[0], forces=["g"])
            continue
        if kind == "field":                    # octahedra standing on a corner each, all on the same fixed slab
            if i == 0:
                W.shape("s0", *meshes.grid_box(4.1 * scale, 1.1 * scale, 0.4 * scale, 2))
                W.body("s0", "b0", r=[0, 0, -0.4 * scale], model=True, fixed=True, material=mats[0])
                continue
            V, T = meshes.octahedron()
            V = V * scale * rng.uniform(0.3, 0.6)
            W.shape("s%d" % i, V, T)
            q = ref.rand_quat(rng)
            X = e.shapes["s%d" % i].mesh.V @ ref.qmat(q).T
            r = np.array([(2 * i - n) * 0.8 * scale + 0.2 * scale, rng.uniform(-0.3, 0.3) * scale, -X[:, 2].min() - rng.uniform(0.0, 0.02) * scale])
            W.body("s%d" % i, "b%d" % i, r=r, q=q, v=np.array([0, 0, -rng.uniform(0.1, 3)]) + 0.5 * rng.normal(size=3), w=rng.normal(size=3), rho=float(10 ** rng.uniform(-1, 1)), material=mats[i], forces=["g"] if forces else [])
            continue
        V, T = meshes.make(str(rng.choice(meshes.KINDS)), rng)
        if kind == "point":
            V, T = (meshes.octahedron() if i else meshes.grid_box(1.2, 1.1, 1.0, 1))
        V = V * scale * rng.uniform(0.4, 0.7)
        W.shape("s%d" % i, V, T)
        b = e.shapes["s%d" % i]
        R = float(np.max(np.linalg.norm(b.mesh.V, axis=1)))
        q = ref.rand_quat(rng)
        if kind == "ground":
            r = np.array([rng.uniform(-1, 1) * scale, rng.uniform(-1, 1) * scale, 0.])
            low = (b.mesh.V @ ref.qmat(q).T)[:, 2].min()
            r[2] = -low + rng.uniform(-0.06, 0.01) * scale
            v = np.array([*rng.normal(size=2) * 2, -rng.uniform(0, 3)])
        elif kind == "point":
            r = np.zeros(3)
            v = np.zeros(3)
        else:
            r = np.zeros(3) if i == 0 else ref.rand_unit(rng) * R * rng.uniform(0.9, 1.5)
            v = -r / R * rng.uniform(0, 4) + rng.normal(size=3)
        W.body("s%d" % i, "b%d" % i, r=r, q=q, v=v, w=rng.normal(size=3) * 2, rho=float(10 ** rng.uniform(-2, 3)), material=mats[i], forces=["g"] if forces else [])
    if kind == "point":                        # a vertex of the octahedron stuck through the middle of a face
        V = e.bodies["b0"].shape.mesh.V @ ref.qmat(W.state("b0")[1]).T
        T = e.bodies["b0"].shape.mesh.T
        t = V[T[int(rng.integers(len(T)))]]
        nrm = np.cross(t[1] - t[0], t[2] - t[0])
        nrm /= np.linalg.norm(nrm)
        O = e.bodies["b1"].shape.mesh.V
        q = ref.rand_quat(rng)
        X = O @ ref.qmat(q).T
        tip = X[int(np.argmin(X @ nrm))]
        p = t.mean(0) - nrm * rng.uniform(0.0, 0.04) * scale
        API.set_orientation(e, "b1", q)
        API.set_position(e, "b1", p - tip)
        API.set_velocity(e, "b1", -nrm * rng.uniform(0.1, 3) + rng.normal(size=3))
    return W, forces, mu, eps, scale


def cone_columns(S, mus, L):
    """wrenches (stacked over free bodies, moments divided by L) spanning an outer approximation of the friction cones"""
    free = [n for n in S.names if not S.e.bodies[n].is_fixed]
    at = {n: 6 * i for i, n in enumerate(free)}
    cols = []
    for A, B, p, n, g in S.cps:
        s, t = frame(n)
        mu = mus[frozenset((A, B))]
        lin = [(n, np.zeros(3))]
        if mu > 0:
            lin = [(n + mu * OUTER * (d[0] * s + d[1] * t), mu * OUTER * d[2] * n) for d in SPHERE]
        for f, tau in lin:
            c = np.zeros(6 * len(free))
            if B in at:
                c[at[B]:at[B] + 3] = f
                c[at[B] + 3:at[B] + 6] = (np.cross(p - S.before[B][0], f) + tau) / L
            if A in at:
                c[at[A]:at[A] + 3] = -f
                c[at[A] + 3:at[A] + 6] = -(np.cross(p - S.before[A][0], f) + tau) / L
            cols.append(c)
    w = np.concatenate([np.r_[S.J[n][:3], S.J[n][3:] / L] for n in free])
    return np.array(cols).T, w


def judge(ck, S, mus, es, scale, kind):
    e = S.e
    free = [n for n in S.names if not e.bodies[n].is_fixed]
    F = max([np.linalg.norm(S.J[n][:3]) + np.linalg.norm(S.J[n][3:]) / scale for n in free])
    P = max([S.M[n][0] * (np.linalg.norm(S.before[n][2]) + np.linalg.norm(S.free[n][0])) for n in free]) + 1e-12
    if not S.cps:
        ck.expect(F <= 1e-9 * P, "silent.impulse", "bodies without contact points exchange impulses", F=F, P=P)
        return
    if F > 1e-7 * P:
        ck.event("impulses")
    # equal and opposite at a common point: totals are conserved
    if len(free) == len(S.names):
        ck.close(sum(S.J[n][:3] for n in free), np.zeros(3), "momentum.linear", "contacts change the total momentum", tol=1e-12, scale=P + F)
        L = sum(S.J[n][3:] + np.cross(S.before[n][0], S.J[n][:3]) for n in free)
        ck.close(L, np.zeros(3), "momentum.angular", "contacts change the total angular momentum", tol=1e-9, scale=(P + F) * scale * 3)
        m = np.array([S.M[n][0] for n in free])
        com0 = sum(m_ * S.before[n][0] for m_, n in zip(m, free)) / m.sum()
        com1 = sum(m_ * S.after[n][0] for m_, n in zip(m, free)) / m.sum()
        vc = sum(m_ * S.after[n][2] for m_, n in zip(m, free)) / m.sum()
        ck.close(com1, com0 + S.W.dt * vc, "momentum.centre", "the common centre of mass does not move with the total momentum", tol=1e-9, scale=scale)
    # pushes within the friction cones explain what happened
    if F > 1e-7 * P and len(S.cps) <= 60:
        C, w = cone_columns(S, mus, scale)
        try:
            x, res = nnls(C / 1.0, w / F, maxiter=20 * C.shape[1])
            ck.expect(res < 1e-3, "cone.explained", "the velocity change is not explained by pushes within the friction cones at the reported contacts", residual=float(res), mu=list(mus.values()), contacts=len(S.cps), kind=kind)
        except RuntimeError:
            ck.event("nnls_gave_up")
    # an isolated contact shows its impulse
    count = {}
    for c in S.cps:
        for x in c[:2]:
            count[x] = count.get(x, 0) + 1
    for c in S.cps:
        A, B, p, n, g = c
        if any(count[x] != 1 for x in (A, B) if x in S.J):
            continue
        F = max(np.linalg.norm(S.J[x][:3]) + np.linalg.norm(S.J[x][3:]) / scale for x in (A, B) if x in S.J)
        P = max([S.M[x][0] * (np.linalg.norm(S.before[x][2]) + np.linalg.norm(S.free[x][0])) for x in (A, B) if x in S.J]) + 1e-12
        ck.event("isolated_contacts")
        lawful = len(S.cps) == 1 or not any(mus.values())    # the adaptive step of the solver may stall when several frictional contacts are solved together
        mu, eps = mus[frozenset((A, B))], es[frozenset((A, B))]
        for who, sg in ((B, 1), (A, -1)):
            if who not in S.J or F <= 1e-7 * P:
                continue
            f = sg * S.J[who][:3]
            tq = sg * S.J[who][3:] - np.cross(p - S.before[who][0], f)
            fn = f @ n
            ft = f - fn * n
            ck.expect(fn >= -1e-9 * F, "single.push", "a contact pulls", fn=fn)
            ck.close(tq - (tq @ n) * n, np.zeros(3), "single.point", "the impulse does not act at the contact point", tol=1e-8, scale=F * scale)
            fr = np.hypot(np.linalg.norm(ft), tq @ n)
            ck.expect(fr <= mu * fn * (1 + 1e-8) + 1e-9 * F, "single.cone", "friction exceeds the coefficient times the normal impulse", fr=fr, fn=fn, mu=mu)
            if mu > 0 and lawful and e.params.max_iterations >= 400 and fn > 1e-6 * F:
                wl, wa = S.relvel(c, "after")
                wl = wl - (wl @ n) * n
                slide, stick = abs(1 - fr / (mu * fn)), np.hypot(np.linalg.norm(wl), abs(wa @ n) * scale)
                w0, a0 = S.relvel(c, "free")
                ref_speed = np.linalg.norm(w0) + np.linalg.norm(a0) * scale
                ck.expect(min(slide, stick / ref_speed) < 0.05, "single.friction_law", "a contact neither sticks nor slides with full friction", slide=slide, stick=stick / ref_speed)
                if slide < 0.05 and stick > 0.05 * ref_speed:
                    ck.expect(ft @ wl + (tq @ n) * (wa @ n) <= 1e-6 * F * ref_speed, "single.friction_opposes", "friction does work on the sliding bodies")
            if mu == 0:
                ck.expect(np.linalg.norm(ft) <= 1e-9 * F, "single.frictionless", "a frictionless contact has a tangential impulse")
        ve, vb, va = e.params.use_bounce * eps, S.relvel(c, "before")[0] @ n, S.relvel(c, "after")[0] @ n
        if lawful and kind != "skid" and e.params.max_iterations >= 400 and (g >= -e.params.min_gap_value or not e.params.use_pre_stabilization):
            vf = S.relvel(c, "free")[0] @ n
            if vf + ve * vb < -1e-6 * (1 + abs(vf)):
                ck.close(va, -ve * vb, "single.restitution", "an isolated impact does not separate at the restitution times the approach speed", tol=2e-5 if mu == 0 else 0.02, scale=1 + abs(vb), e=ve)
    # (the wishes of contacts whose normals oppose each other, deep inside a body, cannot all be met)
    toward = [(1 if c[0] < c[1] else -1) * c[3] for c in S.cps]
    agree = len(S.cps) <= 60 and all(x @ y > 0.2 for x, c in zip(toward, S.cps) for y, d in zip(toward, S.cps) if set(c[:2]) == set(d[:2]))
    # after a solve with a decent budget the bodies separate as the law asks at every contact
    if e.params.max_iterations >= 400:
        for c in S.cps:
            vb, va, vf = (S.relvel(c, x)[0] @ c[3] for x in ("before", "after", "free"))
            ve = e.params.use_bounce * es[frozenset(c[:2])]
            short = -(va + ve * vb) / (1 + abs(vb) + abs(vf))
            if not any(mus.values()) and agree:
                ck.expect(short < 0.15, "law.separation", "bodies still approach at a frictionless contact after a solve", short=float(short), contacts=len(S.cps))
    # the solver's own impulses (when they can be read)
    for eng, problems in SOLVED[:1]:
        for pr in problems:
            sol = np.asarray(getattr(pr, "sol", np.zeros(0)), float).ravel()
            if eng is e and len(sol) == 4 * len(S.cps):
                sol = sol.reshape(-1, 4)
                ck.expect(np.all(sol[:, 0] >= 0), "impulse.normal", "a normal impulse is negative", sol=sol)
                ck.expect(np.all(np.linalg.norm(sol[:, 1:], axis=1) <= np.array([mus[frozenset(c[:2])] for c in S.cps]) * sol[:, 0] * (1 + 1e-9) + 1e-300), "impulse.cone", "an impulse leaves the friction cone", sol=sol[:4])
                ck.expect(np.all(np.isfinite(sol)), "impulse.finite", "an impulse is not finite")


def throws(ck):
    rng = ck.rng("throws")
    for it in range(ck.n(120, 1500)):
        if ck.time_left() < 0:
            break
        kind = ["pair", "trio", "ground", "point", "field", "point"][it % 6]
        with ck.guard("scene.exception"):
            W, forces, mu, eps, scale = make(rng, ck, kind)
        ck.case(dict(throw=it, kind=kind, mu=list(mu.values()), eps=list(eps.values()), scale=scale, it=W.e.params.max_iterations, env=W.e.params.envelope))
        for k in range(3):
            S = Step(W, forces)
            S.take(ck, profiling=bool(rng.random() < 0.3))
            if not np.all(np.isfinite(np.concatenate([np.concatenate(s) for s in S.after.values()]))):
                ck.violate("state.finite", "a step produced a state that is not finite")
                break
            judge(ck, S, mu, eps, scale, kind)
            ck.event("contacts", len(S.cps))


def bounces(ck):
    rng = ck.rng("bounces")
    for it in range(ck.n(120, 1500)):
        if ck.time_left() < 0:
            break
        fix = dict(max_iterations=400, use_bounce=bool(it % 4), use_pre_stabilization=False, envelope=0.0, eps=float(rng.choice([0, 0.25, 0.5, 0.9, 1])), mu=float([0, 0, 0.4][it % 3]))
        with ck.guard("scene.exception"):
            W, forces, mu, eps, scale = make(rng, ck, ["point", "field"][it // 6 % 2], **fix)
        ck.case(dict(bounce=it, scale=scale, **fix))
        S = Step(W, forces)
        S.take(ck)
        judge(ck, S, mu, eps, scale, "bounce")


def skids(ck):
    """rough materials and grazing impacts: the coefficient may be well above one, and all of it counts"""
    rng = ck.rng("skids")
    for it in range(ck.n(36, 500)):
        if ck.time_left() < 0:
            break
        fix = dict(max_iterations=1000, use_bounce=False, use_pre_stabilization=False, envelope=0.0, eps=0.0, mu=float(rng.choice([0.6, 1.2, 1.5, 2.0])))
        with ck.guard("scene.exception"):
            W, forces, mu, eps, scale = make(rng, ck, "point", **fix)
            v = W.state("b1")[2] - W.state("b0")[2]
            API.set_velocity(W.e, "b1", W.state("b1")[2] + rng.uniform(2, 8) * np.linalg.norm(v) * np.cross(v, ref.rand_unit(rng)) / np.linalg.norm(v))
        ck.case(dict(skid=it, scale=scale, **fix))
        S = Step(W, forces)
        S.take(ck)
        judge(ck, S, mu, eps, scale, "skid")


hook()
ck.require(**{"cone.explained": 60, "momentum.linear": 60, "impulses": 60, "single.cone": 60, "single.friction_law": 15, "single.restitution": 25})
ck.run(throws, bounces, skids)
