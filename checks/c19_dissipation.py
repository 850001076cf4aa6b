import numpy as np
from scipy.optimize import nnls
from vh import Check
import meshes
import ref
import rigid
from rigid import World, API

ck = Check("C19", "2-5 bodies of all families of solids thrown together or on a slab that stands still, friction 0..2, iteration budgets 1..200, with and without post-stabilisation and gravity: kinetic energy with contacts against kinetic energy without; "
                  "boxes, cylinders and prisms of 3 sizes lying, sliding and standing on slopes under any direction of gravity, two time steps, against Coulomb's law; overlapping pairs at rest worked apart by pre-, post- or both stabilisations, or left alone without; "
                  "non-trivial: steps with contacts.")


def kinetic(e, states, inertia):
    K = 0.0
    for n, s in states.items():
        if n in inertia:
            K += 0.5 * e.bodies[n].mass * s[2] @ s[2] + 0.5 * s[3] @ inertia[n] @ s[3]
    return K


def free_energy(W, forces):
    """kinetic energy the bodies would have after the next step if they did not touch, and their inertia"""
    e = W.e
    st = W.states()
    I = {n: rigid.inertia_world(b, st[n][1]) for n, b in e.bodies.items() if not b.is_fixed}
    fr = {n: rigid.free_step(e.bodies[n].mass, np.asarray(e.bodies[n].inertia), st[n], forces, W.dt) for n in I}
    return kinetic(e, fr, I), I


def dissipation(ck):
    for k in range(ck.n(80, 1500)):
        if ck.time_left() < 0.35 * ck.cap_s:
            break
        rng = ck.rng("dissipation", k)
        scale = float(rng.choice([0.1, 1, 10]))
        slab = rng.random() < 0.5
        with ck.guard("scene.exception"):
            W = World(slack=(1, 4)[k % 2], resolution=10, envelope=float(rng.choice([0, 0.02])) * scale, max_iterations=int(rng.choice([1, 2, 5, 20, 200])), time_step=float(rng.choice([0.001, 0.01])),
                      use_post_stabilization=bool(rng.random() < 0.3), use_bounce=bool(rng.random() < 0.3))
            e = W.e
            n = int(rng.integers(2, 6))
            for i in range(n):
                for j in range(i + 1):
                    API.create_surfaces_interaction(e, "m%d" % i, "m%d" % j, 0.0 if e.params.use_bounce else 0.8, np.array([float(rng.choice([0, 0.3, 1, 2]))] * 3))
            up = ref.rand_unit(rng)
            forces = [("g", 9.81, up)] if rng.random() < 0.5 else []
            if forces:
                API.create_gravity_force(e, "g", 9.81, up)
            for i in range(n):
                fixed = slab and i == 0
                V, T = meshes.grid_box(1, 1, 0.3, 2) if fixed else meshes.make(str(rng.choice(meshes.KINDS)), rng)
                W.shape("s%d" % i, V * scale * (1.0 if fixed else rng.uniform(0.3, 0.8)), T)
                W.body("s%d" % i, r=(0.45 * rng.normal(size=3) if i else np.zeros(3)) * scale, q=ref.rand_quat(rng), v=(0 if fixed else 2 * scale) * rng.normal(size=3), w=(0 if fixed else 3) * rng.normal(size=3),
                       rho=10 ** rng.uniform(-2, 2), fixed=fixed, material="m%d" % i, forces=["g"] if forces else [])
        seen = 0
        for step in range(4):
            K0, I = free_energy(W, forces)
            before = W.states()
            with ck.guard("step.exception"):
                W.step()
            after = W.states()
            c = len(e.contact_points)
            seen += c
            if not c:
                continue
            K1 = kinetic(e, after, I)
            ck.expect(K1 <= K0 * (1 + 1e-9), "energy.gain", "contacts increase the kinetic energy", gain=(K1 - K0) / (K0 + 1e-300), contacts=c, iterations=e.params.max_iterations, step=step)
            if K1 < K0 * (1 - 1e-9):
                ck.event("steps that dissipate")
            for b in e.bodies.values():
                if b.is_fixed:
                    ck.expect(all(np.array_equal(x, y) for x, y in zip(before[b.name], after[b.name])), "energy.slab", "a fixed body moves")
        ck.case(dict(throw=k, scale=scale, bodies=n, iterations=e.params.max_iterations, contacts=seen), seen > 0)


def prism(m, r, h, n):
    """upright prism whose bottom is split into small triangles"""
    ang = 2 * np.pi * np.arange(m) / m
    V, T = [], []
    rings = [(f * r, -h) for f in np.linspace(0, 1, n + 1)[1:]] + [(r, h)] + [(f * r, h) for f in np.linspace(1, 0, n + 1)[1:-1]]
    for rad, z in rings:
        V += [[rad * np.cos(a), rad * np.sin(a), z] for a in ang]
    V += [[0, 0, -h], [0, 0, h]]
    b, t = len(V) - 2, len(V) - 1
    for i in range(m):
        j = (i + 1) % m
        T.append([b, j, i])
        for k in range(len(rings) - 1):
            a, c = k * m, (k + 1) * m
            T += [[a + i, a + j, c + j], [a + i, c + j, c + i]]
        a = (len(rings) - 1) * m
        T.append([a + i, a + j, t])
    return np.array(V, float), np.array(T)


def support(ck):
    """one body on a slab: lying, sliding to a halt, and on slopes"""
    errors = {}
    for k in range(ck.n(48, 300)):
        if ck.time_left() < 0.15 * ck.cap_s:
            break
        rng = ck.rng("support", k)
        mode = ["rest", "slide", "slip", "stick", "slide", "slip", "slide", "slip"][k % 8]
        s = float(rng.choice([0.3, 1, 3]))
        mu = float(rng.choice([0.2, 0.5, 1.0, rng.uniform(0.1, 1.2)]))
        g = float(rng.choice([1.6, 9.81, 20.0]))
        theta = dict(rest=0, slide=0, stick=np.arctan(mu * rng.uniform(0.2, 0.7)), slip=np.arctan(mu * rng.uniform(1.3, 1.8)))[mode]
        q = ref.rand_quat(rng)
        R = ref.qmat(q)
        dt = float(rng.choice([0.005, 0.01]))
        with ck.guard("scene.exception"):
            W = World(slack=(1, 1, 4)[k // 8 % 3], resolution=10, envelope=0.01 * s, time_step=dt, use_pre_stabilization=bool(rng.random() < 0.5), use_post_stabilization=bool(rng.random() < 0.3), max_iterations=200, absolute_tolerance=1e-6, relative_tolerance=1e-5,
                      min_gap_value=0.001 * s, max_gap_value=0.01 * s)
            e = W.e
            API.create_surfaces_interaction(e, "m", "n", 0.0, np.array([mu] * 3))
            API.create_gravity_force(e, "g", g, R @ np.array([-np.sin(theta), 0, np.cos(theta)]))
            W.shape("floor", *meshes.grid_box(6 * s, 3 * s, 0.5 * s, 8))
            h = float(rng.uniform(0.15, 0.3)) * s
            body = str(rng.choice(["box", "prism"]))
            W.shape("body", *(meshes.grid_box(0.5 * s, 0.5 * s * rng.uniform(0.8, 1), h, 2) if body == "box" else prism(int(rng.integers(6, 12)), 0.5 * s, h, 2)))
            W.body("floor", r=R @ np.array([0, 0, -0.5 * s]), q=q, model=True, fixed=True, material="m")
            v0 = float(rng.uniform(0.4, 1.5)) * np.sqrt(g * s * mu) if mode == "slide" else 0.0
            W.body("body", "b", r=R @ np.array([0, 0, h]), q=q, model=True, v=R @ np.array([v0, 0, 0]), rho=10 ** rng.uniform(-1, 2), forces=["g"], material="n")
        r0 = R.T @ W.state("b")[0]
        unit = np.sqrt(g * s)                     # speeds are judged against this
        gv = np.array([np.sin(theta), 0, -np.cos(theta)]) * g
        steps = min(int(1.2 * np.sqrt(s / g) / dt) + 1, ck.n(30, 300))
        flat = np.zeros(3) + (v0, 0, 0)
        ran, bumped, solved = 0, False, True
        for i in range(steps):
            v1 = R.T @ W.state("b")[2]
            with ck.guard("step.exception"):
                W.step()
            ran += 1
            r, _, v, w = W.state("b")
            x, v, w = R.T @ r - r0, R.T @ v, R.T @ w
            N = np.array([R.T @ np.asarray(c.n, float) * (1 if c.bodyB.name == "b" else -1) for c in e.contact_points])
            kw = dict(mode=mode, step=i, mu=mu, g=g, s=s, contacts=len(N), body=body)
            ck.expect(len(N) > 0, "support.contact", "a body on its support has no contacts", **kw)
            # what Coulomb's law makes of the velocity, as long as all contacts are with the top of the slab
            u = v1 + gv * dt
            ut = np.array([u[0], u[1], 0.0])
            grip = mu * max(0.0, -u[2])
            want = ut * max(0.0, 1 - grip / (np.linalg.norm(ut) + 1e-300))
            slanted = N[:, 2] < 1 - 1e-6
            if np.sum(~slanted) < 3 or np.any(N[slanted] @ want < 0.0):
                bumped = True
                ck.event("steps at an edge")
                if mode in ("slide", "slip"):
                    break
            ck.event("step " + mode)
            if abs(v[2]) > 0.003 * max(np.linalg.norm(v1), unit):    # the solver gave up before the body was supported
                solved = False
                ck.event("steps not solved")
            if not bumped and solved:
                err = np.linalg.norm((v - want)[:2])
                ck.expect(err <= 0.5 * mu * g * dt + 0.01 * np.linalg.norm(v1) + 5e-4 * unit, "support." + mode, "speed along the slab is not what Coulomb's law says", v=v, want=want, before=v1, err=err / (mu * g * dt), **kw)
                errors.setdefault(mode, []).append(err / (mu * g * dt))
                flat = np.array([flat[0] + dt * gv[0], 0, 0])
                flat = flat * max(0.0, 1 - mu * g * np.cos(theta) * dt / (abs(flat[0]) + 1e-300))
                ck.expect(abs(v[0] - flat[0]) <= 0.05 * (abs(v0) + g * dt * (i + 1) * np.sin(theta)) + 0.005 * unit, "support.course", "the speed of a body on a slab is not the one Coulomb's law leads to", v=v[0], want=flat[0], **kw)
            ck.expect(abs(x[1]) <= 0.02 * s and abs(v[1]) <= 0.05 * max(unit, v0), "support.drift", "a body drifts sideways", drift=x[1] / s, speed=v[1] / unit, **kw)
            ck.expect(-0.005 * s <= x[2] <= 0.02 * s, "support.height", "a body sinks into or climbs off its support", height=x[2] / s, **kw)
            if mode in ("rest", "stick"):
                ck.expect(np.linalg.norm(x) <= 0.01 * s, "support.stay", "a resting body creeps", drift=x / s, **kw)
                ck.expect(0.5 * (v @ v) + 0.5 * (w @ w) * s * s <= (0.02 * unit) ** 2, "support.still", "a resting body moves", v=np.linalg.norm(v) / unit, w=np.linalg.norm(w) * s / unit, **kw)
        steps = ran
        ck.event("steps on a support", steps)
        ck.case(dict(support=k, mode=mode, mu=mu, g=g, s=s, dt=dt, body=body, steps=steps))


    for mode, x in errors.items():
        ck.close(float(np.median(x)), 0.0, "support.median", "friction is systematically off", tol=0.08, mode=mode, steps=len(x))


def overlaps(ck):
    for k in range(ck.n(60, 600)):
        if ck.time_left() < 0:
            break
        rng = ck.rng("overlap", k)
        mode = ["post", "pre", "both", "none"][k % 4]
        s = float(rng.choice([0.3, 1, 3]))
        with ck.guard("scene.exception"):
            W = World(slack=(1, 4)[k // 4 % 2], resolution=12, envelope=0.0 if rng.random() < 0.5 else 0.02 * s, time_step=float(rng.choice([0.002, 0.01])), use_pre_stabilization=mode in ("pre", "both"), use_post_stabilization=mode in ("post", "both"),
                      use_bounce=bool(rng.random() < 0.3), max_iterations=200, absolute_tolerance=1e-7, relative_tolerance=1e-6, min_gap_value=0.001 * s, max_gap_value=0.02 * s, gap_reduction=float(rng.choice([0.2, 0.5, 1.0])))
            e = W.e
            kinds = [str(rng.choice(["box", "octa", "sphere", "cyl", "cube", "tetra", "hull"])) for _ in range(2)]
            for i in range(2):
                V, T = meshes.make(kinds[i], rng)
                W.shape("s%d" % i, V * s * 0.6, T)
            q = [ref.rand_quat(rng) for _ in range(2)]
            # two corners, or a corner and a body around the line of centres, inside each other
            X = [e.shapes["s%d" % i].mesh.V @ ref.qmat(q[i]).T for i in range(2)]
            a, b = X[0][int(rng.integers(len(X[0])))], X[1][int(rng.integers(len(X[1])))]
            if rng.random() < 0.6:             # a corner of the second somewhere behind the middle of a face of the first
                t = X[0][e.shapes["s0"].mesh.T[int(rng.integers(len(e.shapes["s0"].mesh.T)))]]
                n = np.cross(t[1] - t[0], t[2] - t[0])
                n /= np.linalg.norm(n)
                a = t.mean(axis=0)
                b = X[1][int(np.argmin(X[1] @ n))]
            else:
                n = a / np.linalg.norm(a)
                b = X[1][int(np.argmin(X[1] @ n))]
            by = [("by%d" % i, bool(rng.random() < 0.5)) for i in range(int(rng.integers(1, 5)))] if rng.random() < 0.4 else []
            for j, (name, stuck) in enumerate(by):         # bystanders
                if j == len(by) // 2:
                    break
                W.body("s1", name, r=np.array([-40.0, 20.0 * j, 7.0]) * s, q=q[1], fixed=stuck)
            W.body("s0", "s0", q=q[0], fixed=bool(rng.random() < 0.5))
            for j, (name, stuck) in enumerate(by):
                if j >= len(by) // 2:
                    W.body("s1", name, r=np.array([-40.0, 20.0 * j, 7.0]) * s, q=q[1], fixed=stuck)
            W.body("s1", "s1", r=a - b - n * rng.uniform(0.02, 0.1) * s, q=q[1], rho=10 ** rng.uniform(-1, 1))
            hinged = k // 4 % 3 == 2
            if hinged:                         # joints elsewhere are no concern of the overlap
                far = np.array([30.0, -50.0, 20.0]) * s
                for i in range(2):
                    W.body("s0", "far%d" % i, r=far + (-1) ** i * np.array([3.0, 0, 0]) * s, q=q[i])
                API.create_hinge(e, "h")
                API.set_hinge(e, "h", "far0", "far1", far, ref.rand_unit(rng), "world")
                ck.event("overlaps beside a hinge")
        start = W.states()
        seq, agree = [], True
        for i in range(120):
            if i >= 25 and min(seq) <= 1.05e-3:
                break
            with ck.guard("step.exception"):
                W.step()
            seq.append(-min([0.0] + [float(c.g) for c in e.contact_points]) / s)
            # (contacts deep in a body whose normals oppose each other can not all be met)
            N = np.array([np.asarray(c.n, float) * (1 if c.bodyA.name == "s0" else -1) for c in e.contact_points]).reshape(-1, 3)
            agree = agree and bool(np.all(N @ N.T > 0.2))
            st = W.states()
            if i == 0 and mode in ("pre", "both") and agree and len(N):
                # from rest each contact is to part at the configured share of its overlap, limited to the configured most
                over = []
                for c in e.contact_points:
                    A, B, p, n = c.bodyA.name, c.bodyB.name, np.asarray(c.p, float), np.asarray(c.n, float)
                    vn = n @ (st[B][2] + np.cross(st[B][3], p - start[B][0]) - st[A][2] - np.cross(st[A][3], p - start[A][0]))
                    g = -float(c.g)
                    wish = min(e.params.max_gap_value, e.params.gap_reduction * g) / W.dt if g > e.params.min_gap_value else 0.0
                    over.append((vn - wish) / max(wish, e.params.max_gap_value / W.dt * 1e-3))
                most = e.params.max_gap_value / W.dt
                if len(over) == 1:
                    ck.expect(abs(over[0]) < 0.05, "overlap.rate", "an overlap is not worked off at the configured rate", relative_error=over[0], mode=mode, kinds=kinds)
                ck.expect(min(over) < 0.05, "overlap.haste", "an overlap is worked off faster than configured", excess=min(over), mode=mode, kinds=kinds)
                ck.event("first pushes")
            if i == 0 and mode == "post" and len(e.contact_points):
                # bodies at rest are only moved by pushes along the contact normals
                free = [n for n in start if not e.bodies[n].is_fixed]
                at = {n: 6 * j for j, n in enumerate(free)}
                C = np.zeros((6 * len(free), len(e.contact_points)))
                w = np.zeros(6 * len(free))
                for j, c in enumerate(e.contact_points):
                    for n, sg in ((c.bodyA.name, -1.0), (c.bodyB.name, 1.0)):
                        if n in at:
                            C[at[n]:at[n] + 3, j] = sg * np.asarray(c.n)
                            C[at[n] + 3:at[n] + 6, j] = sg * np.cross(np.asarray(c.p) - start[n][0], c.n) / s
                for n in free:
                    d = ref.qmul(st[n][1], start[n][1] * np.array([1, -1, -1, -1]))
                    w[at[n]:at[n] + 3] = e.bodies[n].mass * (st[n][0] - start[n][0])
                    w[at[n] + 3:at[n] + 6] = rigid.inertia_world(e.bodies[n], start[n][1]) @ (2 * d[1:] / d[0]) / s
                if np.abs(w).max() > 1e-9 * max(e.bodies[n].mass for n in free) * s:
                    x, res = nnls(C, w / np.abs(w).max(), maxiter=50 * C.shape[1])
                    ck.expect(res < 1e-5, "overlap.push", "post-stabilisation moves bodies otherwise than by pushing along the contact normals", residual=float(res), contacts=len(e.contact_points), kinds=kinds)
                    ck.event("post pushes")
            if mode == "none":
                ck.expect(all(np.allclose(x, y, rtol=0, atol=1e-12) for n in st for x, y in zip(st[n], start[n])), "overlap.none", "bodies at rest that overlap are moved although stabilisation is off", step=i)
            if mode == "post":
                ck.expect(all(np.allclose(st[n][j], 0, atol=1e-12) for n in st for j in (2, 3)), "overlap.velocity", "post-stabilisation sets bodies in motion", step=i)
            if mode == "none" and i == 2:
                break
        ck.case(dict(overlap=k, mode=mode, kinds=kinds, s=s, depth=seq[0]), seq[0] > 1e-3)
        if mode != "none" and seq[0] > 0.01 and agree:
            # (pushed off centre, bodies that were set in motion turn and may meet again later)
            end = next((i for i, x in enumerate(seq) if x <= 1.05e-3), len(seq))
            first = seq[: end + 1]
            up = max([0.0] + [y - x for x, y in zip(first, first[1:])])
            ck.expect(up <= 1e-3 + 0.3 * seq[0], "overlap.monotone", "penetration grows while it is being worked off", growth=up, sequence=np.round(seq[:12], 5), mode=mode, kinds=kinds)
            ck.expect((seq[-1] if mode == "post" else min(seq)) <= 1.05e-3, "overlap.gone", "an overlap is not worked off", sequence=np.round(seq, 5), mode=mode, kinds=kinds, reduction=e.params.gap_reduction)
            if mode != "post" and seq[0] > 2e-3 and not any(b.is_fixed for b in e.bodies.values()):
                P, L = rigid.momentum(e)
                m = max(b.mass * np.linalg.norm(W.state(n)[2]) for n, b in e.bodies.items())
                ck.expect(np.linalg.norm(P) <= 1e-9 * m + 1e-15, "overlap.momentum", "working off an overlap changes the total momentum", P=P)
            ck.event("overlaps worked off")


ck.require(**{"energy.gain": 100, "steps that dissipate": 80, "support.rest": 50, "support.slide": 15, "support.stick": 50, "support.slip": 50, "overlap.monotone": 6, "overlaps worked off": 6, "overlap.none": 10})
import sys
ck.run(*([globals()[f] for f in sys.argv[1:]] or [dissipation, support, overlaps]))
