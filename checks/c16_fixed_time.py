import numpy as np
from vh import Check
import meshes
import ref
from rigid import World, API

ck = Check("C16", "worlds mixing free, fixed, hinged, colliding and lone bodies; durations from a fraction of a step to 60 steps with step sizes 1e-4..0.05, also such that the duration is no multiple of the step; "
                  "non-trivial: a fixed body that is hit, or a duration that is split.")

LIGHT = dict(max_iterations=60, absolute_tolerance=1e-8, relative_tolerance=1e-8)


def busy(rng, dt, kinds=("box", "sphere"), lone=0, **extra):
    """a small scene: fixed ground, colliding free bodies, a hinge to a fixed body, lone bodies far away"""
    p = dict(LIGHT)
    p.update(extra)
    W = World(resolution=8, envelope=0.02, time_step=dt, **p)
    e = W.e
    W.shape("slab", *meshes.grid_box(2, 2, .5, 2))
    W.shape("cube", *meshes.box(.5, .5, .5))
    W.shape("ball", *meshes.sphere(0.5, 1))
    API.create_gravity_force(e, "g", 9.81, np.array([0., 0., 1.]))
    API.create_damping_force(e, "d", 0.05, 0.05)
    W.body("slab", "ground", r=rng.normal(size=3) * 0.01, fixed=True, model=True, forces=["g"] if rng.random() < 0.5 else [], v=rng.normal(size=3) * (rng.random() < 0.3), w=rng.normal(size=3) * (rng.random() < 0.3))
    W.body("cube", "hit", r=[0.3, 0.1, 0.99], q=ref.quat([0, 0, 1], rng.uniform(-1, 1)), v=[rng.normal(), rng.normal(), -rng.uniform(0, 3)], w=rng.normal(size=3) * 0.3, rho=float(10 ** rng.uniform(-1, 2)), forces=["g"])
    W.body("ball", "wall", r=[-1.2, -1, 0.9], fixed=True)                     # overlaps the ground: both fixed
    W.body("cube", "anchor", r=[40, 0, 0], q=ref.rand_quat(rng), fixed=True, forces=["g", "d"])
    W.body("cube", "door", r=[40, 2.0, 0], q=ref.rand_quat(rng), forces=["g"], w=rng.normal(size=3) * 0.2)
    API.create_hinge(e, "h")
    API.set_hinge(e, "h", *(["anchor", "door"] if rng.random() < 0.5 else ["door", "anchor"]), np.array([40., 1.0, 0.]), ref.rand_unit(rng), "world")
    for j in range(lone):
        W.body("ball" if j % 2 else "cube", "lone%d" % j, r=[0, 60 + 10 * j, 0], q=ref.rand_quat(rng), v=rng.normal(size=3), w=rng.normal(size=3), forces=[["g"], [], ["g", "d"]][j % 3], rho=float(rng.uniform(0.1, 9)))
    return W


def fixed(ck):
    rng = ck.rng("fixed")
    for it in range(ck.n(8, 80)):
        if ck.time_left() < 0:
            break
        stab = dict(use_pre_stabilization=bool(it & 1), use_post_stabilization=bool(it & 2), use_bounce=bool(it & 4))
        with ck.guard("fixed.build"):
            W = busy(rng, float(rng.choice([0.001, 0.01, 0.02])), **stab)
        pose0 = {n: W.state(n)[:2] for n in W.e.bodies}
        vel0 = {n: W.state(n)[2:] for n in W.e.bodies}
        ck.case(dict(fixed=it, **stab))
        hit = 0
        for k in range(6):
            with ck.guard("fixed.step", "a step with fixed bodies raises"):
                W.step(1, profiling=bool(k % 2))
            hit += len(W.e.contact_points)
            for n, b in W.e.bodies.items():
                r, q, v, w = W.state(n)
                ck.expect(np.all(np.isfinite(np.concatenate((r, q, v, w)))), "fixed.finite", "a body's state is not finite", body=n)
                if b.is_fixed:
                    ck.expect(np.array_equal(r, pose0[n][0]) and np.array_equal(q, pose0[n][1]), "fixed.pose", "a fixed body moved",
                              body=n, moved=float(np.max(np.abs(r - pose0[n][0]))), turned=float(np.max(np.abs(q - pose0[n][1]))))
                    ck.expect(np.array_equal(v, vel0[n][0]) and np.array_equal(w, vel0[n][1]), "fixed.velocity", "a fixed body picked up speed", body=n,
                              dv=float(np.max(np.abs(v - vel0[n][0]))), dw=float(np.max(np.abs(w - vel0[n][1]))))
                elif n in ("hit", "door"):
                    ck.expect(not np.array_equal(r, pose0[n][0]), "free.moves", "a free body under gravity does not move", body=n)
        ck.event("contacts_on_fixed", hit)
    # switching the type back and forth
    for it in range(ck.n(6, 40)):
        W = World(resolution=4)
        W.shape("s", *meshes.box(1, 2, 3))
        API.create_gravity_force(W.e, "g", 9.81, np.array([0., 0., 1.]))
        b = W.body("s", v=rng.normal(size=3), w=rng.normal(size=3), forces=["g"])
        ck.case(dict(switch=it))
        with ck.guard("switch.exception"):
            W.step(2)
            API.set_body_type(W.e, b, "fixed")
            p = W.state(b)
            W.step(3)
            s = W.state(b)
            ck.expect(np.array_equal(s[0], p[0]) and np.array_equal(s[1], p[1]), "fixed.pose", "a body fixed in flight moved")
            API.set_body_type(W.e, b, "free")
            W.step(2)
            ck.expect(W.state(b)[0][2] < p[0][2] + 0.1 and not np.array_equal(W.state(b)[0], p[0]), "free.moves", "a released body does not move")


def immovable(ck):
    """the mass of a fixed body has no influence on anything"""
    rng = ck.rng("immovable")
    for it in range(ck.n(5, 40)):
        if ck.time_left() < 0:
            break
        sub, dt = int(rng.integers(1 << 30)), float(rng.choice([0.005, 0.01, 0.02]))
        rho = [1.0, float(10 ** rng.uniform(-6, -2)), float(10 ** rng.uniform(2, 6))]
        out = []
        ck.case(dict(immovable=it, dt=dt, rho=rho))
        for d in rho:
            with ck.guard("immovable.step"):
                W = busy(np.random.default_rng(sub), dt)
                for n, b in W.e.bodies.items():
                    if b.is_fixed:
                        API.set_mass_properties(W.e, n, d)
                W.step(5)
            out.append(np.concatenate([np.concatenate(W.state(n)) for n in W.e.bodies]))
        for o in out[1:]:
            ck.close(o, out[0], "fixed.mass", "the mass of a fixed body changes the motion", tol=1e-9)


def strangers(ck):
    rng = ck.rng("strangers")
    for it in range(ck.n(8, 80)):
        if ck.time_left() < 0:
            break
        dt = float(rng.choice([0.001, 0.01, 0.03]))
        sub = int(rng.integers(1 << 30))
        with ck.guard("strangers.build"):
            W = busy(np.random.default_rng(sub), dt, lone=3)
        ck.case(dict(strangers=it, dt=dt))
        alone = {}
        for n in ("lone0", "lone1", "lone2"):
            A = World(resolution=8, envelope=0.02, time_step=dt, **LIGHT)
            A.shape("cube", *meshes.box(.5, .5, .5))
            A.shape("ball", *meshes.sphere(0.5, 1))
            API.create_gravity_force(A.e, "g", 9.81, np.array([0., 0., 1.]))
            API.create_damping_force(A.e, "d", 0.05, 0.05)
            j = int(n[-1])
            s = W.state(n)
            A.body("ball" if j % 2 else "cube", n, r=s[0], q=s[1], v=s[2], w=s[3], forces=[["g"], [], ["g", "d"]][j % 3],
                   rho=W.e.bodies[n].mass / API_volume(W.e.bodies[n]))
            alone[n] = A
        for k in range(5):
            with ck.guard("strangers.step"):
                W.step()
            for n, A in alone.items():
                A.step()
                ck.close(np.concatenate(W.state(n)), np.concatenate(A.state(n)), "stranger.state", "a body touching nothing moves differently in company", tol=1e-11)
    # order of creation of strangers is irrelevant
    for it in range(ck.n(5, 40)):
        names = ["a", "b", "c", "d"]
        par = {n: (rng.normal(size=3) + 20 * k, ref.rand_quat(rng), rng.normal(size=3), rng.normal(size=3)) for k, n in enumerate(names)}
        out = []
        for order in (names, list(rng.permutation(names))):
            X = World(resolution=4)
            X.shape("s", *meshes.box(1, 2, 3))
            for n in order:
                X.body("s", str(n), *par[str(n)])
            with ck.guard("strangers.step"):
                X.step(4)
            out.append(X.states())
        ck.case(dict(order=it))
        for n in names:
            ck.close(np.concatenate(out[0][n]), np.concatenate(out[1][n]), "stranger.order", "the order of creation changes the motion of strangers", tol=1e-13)


def API_volume(b):
    V, T = b.shape.mesh.V, b.shape.mesh.T
    return ref.mesh_volume_centroid_inertia(V, T)[0]


def dts(e, k0):
    return [rec["dt"] for rec in API.get_log(e)[k0:]]


def lone_world(rng, dt):
    W = World(resolution=4, time_step=dt)
    W.shape("s", *meshes.box(1, 2, 3))
    API.create_gravity_force(W.e, "g", 9.81, np.array([0., 0., 1.]))
    W.body("s", "b", v=rng.normal(size=3), w=rng.normal(size=3), forces=["g"])
    return W


def time_cover(ck):
    rng = ck.rng("time")
    for it in range(ck.n(120, 1500)):
        if ck.time_left() < 0:
            break
        dt = float(rng.choice([0.01, 0.1, 1 / 30, 1 / 60, 0.001, 10 ** rng.uniform(-4, -1.3)]))
        W = lone_world(rng, dt)
        v0 = W.state("b")[2]
        total, recs = 0.0, 0
        ck.case(dict(time=it, dt=dt))
        for call in range(int(rng.integers(1, 4))):
            mode = int(rng.integers(5))
            n = int(rng.integers(1, 40))
            if mode == 0:
                T = n * dt
            elif mode == 1:
                T = float(np.sum([dt] * n))                # the multiple as a caller adds it up
            elif mode == 2:
                T = n * dt + dt * float(rng.uniform(0.05, 0.95))
            elif mode == 3:
                T = dt * float(rng.uniform(0.01, 1))
            else:                                          # a sliver of a step is left, or missing
                T = n * dt + dt * float(rng.choice([1, 1, -1])) * 10 ** rng.uniform(-5, -2)
            k0 = len(API.get_log(W.e))
            with ck.guard("time.exception"):
                API.simulate(W.e, T, True)
            d = dts(W.e, k0)
            ratio = T / dt
            want = int(np.ceil(ratio - 1e-6))
            ck.expect(len(d) == want, "time.records", "the number of step records is not the number of steps the duration needs", T=T, dt=dt, got=len(d), want=want)
            ck.close(sum(d), T, "time.sum", "the steps do not add up to the duration", tol=1e-9, scale=dt)
            ck.expect(all(abs(x - dt) < 1e-9 * dt for x in d[:-1]), "time.size", "a step before the last has another size than configured", d=d[:5], dt=dt)
            ck.expect(all(0 < x <= dt * (1 + 1e-9) for x in d), "time.last", "a step is larger than configured or not positive", d=d[-3:])
            total += T
        p0, k0 = W.state("b"), len(API.get_log(W.e))
        for T in (0.0, -dt, -0.5):                        # refused or without effect
            try:
                API.simulate(W.e, T, True)
            except ValueError:
                pass
        ck.expect(np.array_equal(np.concatenate(p0), np.concatenate(W.state("b"))) and len(API.get_log(W.e)) == k0, "time.zero", "a duration that is not positive changes the state")
        ck.close(W.state("b")[2], v0 - np.array([0, 0, 9.81 * total]), "time.velocity", "the fall does not match the simulated time", tol=1e-10, scale=1 + 9.81 * total)


def split(ck):
    rng = ck.rng("split")
    for it in range(ck.n(6, 60)):
        if ck.time_left() < 0:
            break
        dt = float(rng.choice([0.01, 0.001, 1 / 60]))
        sub = int(rng.integers(1 << 30))
        n = int(rng.integers(4, 7))
        parts = [[n], [1] * n, [n // 2, n - n // 2]]
        out, recs = [], []
        ck.case(dict(split=it, n=n, dt=dt))
        for p in parts:
            with ck.guard("split.exception"):
                W = busy(np.random.default_rng(sub), dt, lone=1)
                for k in p:
                    API.simulate(W.e, k * dt, True)
            out.append(W.flat())
            recs.append(len(API.get_log(W.e)))
        ck.expect(recs == [n] * 3, "split.records", "splitting a duration changes the number of records", recs=recs, n=n)
        for o in out[1:]:
            ck.close(o, out[0], "split.state", "splitting a duration at step boundaries changes the outcome", tol=1e-6)


ck.require(**{"fixed.pose": 100, "fixed.velocity": 100, "fixed.mass": 8, "stranger.state": 60, "time.records": 100, "split.state": 8, "contacts_on_fixed": 50, "time.zero": 5})
ck.run(fixed, immovable, strangers, time_cover, split)
