import numpy as np
from vh import Check
import meshes
import ref
import rigid
from rigid import World, API

ck = Check("C15", "worlds of 1-6 free and fixed bodies far apart, 12 families of solids, densities 1e-2..1e4, speeds 0..50, spins 0..60 rad/s, several gravities and dampings attached to random subsets, "
                  "time steps 1e-4..0.05; the state read back after every step is compared with an independent integrator started from the state read before it; non-trivial: a spinning body with forces.")


def world(ck, rng, it):
    dt = float(10 ** rng.uniform(-4, -1.3)) if rng.random() < 0.6 else 0.01
    W = World(resolution=4, envelope=0.01, time_step=dt)
    e = W.e
    for j in range(2):
        kind = meshes.KINDS[int(rng.integers(len(meshes.KINDS)))]
        V, T = meshes.make(kind, rng)
        s = float(10 ** rng.uniform(-1, 1))
        W.shape("s%d" % j, V * s @ ref.rand_rot(rng).T + rng.normal(size=3), T)
    forces = {}
    for j in range(int(rng.integers(0, 4))):
        up, g = ref.hostile_axis(rng), float(10 ** rng.uniform(-1, 2))
        API.create_gravity_force(e, "g%d" % j, g, np.array(up) * float(10 ** rng.uniform(-2, 2)))
        forces["g%d" % j] = ("g", g, np.asarray(up) / np.linalg.norm(up))
    for j in range(int(rng.integers(0, 3))):
        a, b = (float(10 ** rng.uniform(-3, 0)) for _ in range(2))
        API.create_damping_force(e, "d%d" % j, a, b)
        forces["d%d" % j] = ("d", a, b)
    if rng.random() < 0.15 and "g0" in forces:          # opposite gravities cancel
        f = forces["g0"]
        API.create_gravity_force(e, "anti", f[1], -f[2])
        forces["anti"] = ("g", f[1], -f[2])
    used = {}
    n = int(rng.integers(1, 7))
    still = rng.random() < 0.2                          # nothing turns
    for k in range(n):
        mine = [f for f in forces if rng.random() < 0.5]
        if "anti" in forces and rng.random() < 0.7:
            mine = sorted(set(mine) | {"anti", "g0"})
        wmag = 0.0 if still or rng.random() < 0.15 else float(10 ** rng.uniform(-3, 0.5)) * (0.3 / dt if rng.random() < 0.1 else 1)
        wdir = ref.hostile_axis(rng)
        name = W.body("s%d" % int(rng.integers(2)), "b%d" % k, np.array([200.0 * k, 0, 0]) + rng.normal(size=3), ref.hostile_unit_quat(rng),
                      rng.normal(size=3) * 10 ** rng.uniform(-1, 1.2), wdir / np.linalg.norm(wdir) * min(wmag, 60), float(10 ** rng.uniform(-2, 4)),
                      fixed=bool(rng.random() < 0.2), forces=mine)
        used[name] = [forces[f] for f in mine]
    return W, used, forces


def meddle(ck, rng, W, used, forces):
    """what a user may change between two steps"""
    e = W.e
    n = "b%d" % int(rng.integers(len(used)))
    what = str(rng.choice(["density", "density", "type", "type", "force", "velocity", "spin", "pose", "more"]))
    if what == "density":
        API.set_mass_properties(e, n, float(10 ** rng.uniform(-2, 4)))
    elif what == "type":
        API.set_body_type(e, n, "free" if API.is_fixed_body(e, n) else "fixed")
    elif what == "force":
        rest = [f for f in forces if not any(forces[f] is u for u in used[n])]
        if rest:
            f = rest[int(rng.integers(len(rest)))]
            API.connect_force(e, n, f)
            used[n].append(forces[f])
    elif what == "velocity":
        API.set_velocity(e, n, rng.normal(size=3) * 5)
    elif what == "spin":
        API.set_spin(e, n, ref.rand_unit(rng) * rng.uniform(0, 2))
    elif what == "pose":
        API.set_orientation(e, n, ref.rand_quat(rng))
        API.set_position(e, n, API.get_position(e, n) + rng.normal(size=3))
    else:
        used[W.body("s0", "b%d" % len(used), (200.0 * len(used), 0, 0), ref.rand_quat(rng), rho=float(10 ** rng.uniform(-2, 4)))] = []
    ck.event("changed_" + what)


def step_rule(ck):
    rng = ck.rng("steps")
    for it in range(ck.n(110, 1500)):
        if ck.time_left() < 0:
            break
        with ck.guard("world.exception"):
            W, used, forces = world(ck, rng, it)
        e = W.e
        dt = e.params.time_step
        prof = bool(rng.random() < 0.5)
        ck.case(dict(it=it, bodies=len(used), dt=dt, forces={k: len(v) for k, v in used.items()}), nontrivial=any(used.values()))
        for k in range(int(rng.integers(2, 8))):
            if k and rng.random() < 0.4:
                with ck.guard("change.exception", "a change between two steps raises"):
                    meddle(ck, rng, W, used, forces)
            before = W.states()
            with ck.guard("step.exception", "a time step raises"):
                API.simulate(e, dt, prof)
            for n, b in e.bodies.items():
                r, q, v, w = W.state(n)
                ck.close(np.linalg.norm(q), 1.0, "orientation.unit", "the orientation is no unit quaternion", tol=1e-12)
                if b.is_fixed:
                    ck.expect(np.array_equal(np.r_[r, q], np.r_[before[n][0], before[n][1]]), "fixed.moved", "a fixed body moved")
                    continue
                want = rigid.free_step(b.mass, np.asarray(b.inertia), before[n], used[n], dt)
                spin = np.linalg.norm(want[3]) + np.linalg.norm(before[n][3])
                if not np.all(np.isfinite(np.concatenate(want))) or spin * dt > 3:
                    ck.event("overspun")
                    continue
                cond = float(max(b.inertia) / min(b.inertia))
                ck.close(v, want[2], "step.velocity", "the velocity did not change by force over mass times the step", tol=1e-12, scale=np.linalg.norm(before[n][2]) + 1e-3)
                ck.close(w, want[3], "step.spin", "the spin did not change by torque over world inertia times the step", tol=1e-11 * cond, scale=np.linalg.norm(before[n][3]) + 1e-3)
                ck.close(r, want[0], "step.position", "the position did not move with the new velocity", tol=1e-12, scale=1 + np.linalg.norm(before[n][0]))
                if ref.qmul(q, ref.qconj(want[1]))[0] < 0:
                    q = -q
                ck.close(q, want[1], "step.orientation", "the orientation did not turn with the new spin", tol=1e-10 * cond * max(1, spin * dt))
                ck.event("body_steps")
            if prof:
                log = API.get_log(e)[-1]
                K = sum(0.5 * b.mass * W.state(n)[2] @ W.state(n)[2] + 0.5 * W.state(n)[3] @ rigid.inertia_world(b, W.state(n)[1]) @ W.state(n)[3]
                        for n, b in e.bodies.items() if not b.is_fixed)
                U = sum(b.mass * f[1] * (np.asarray(f[2]) @ W.state(n)[0]) for n, b in e.bodies.items() if not b.is_fixed for f in used[n] if f[0] == "g")
                Us = sum(abs(b.mass * f[1]) * np.linalg.norm(W.state(n)[0]) for n, b in e.bodies.items() if not b.is_fixed for f in used[n] if f[0] == "g")
                if np.isfinite(K):
                    ck.close(log["kinetic_energy"], K, "energy.kinetic", "the reported kinetic energy is not that of the reported state", tol=1e-9, scale=1e-9)
                    ck.close(log["potential_energy"], U, "energy.potential", "the reported potential energy is not that of the attached gravities", tol=1e-9, scale=1e-9 + Us)


def closed_forms(ck):
    """Whole-run laws: parabola under gravity, terminal velocity of damping, steady spin about principal axes."""
    rng = ck.rng("closed")
    for it in range(ck.n(12, 120)):
        V, T = meshes.make(meshes.KINDS[it % len(meshes.KINDS)], rng)
        W = World(resolution=4, time_step=0.01)
        W.shape("s", V, T)
        g, up = float(rng.uniform(1, 20)), ref.rand_unit(rng)
        API.create_gravity_force(W.e, "g", g, up)
        r0, v0 = rng.normal(size=3), rng.normal(size=3) * 3
        q0 = ref.rand_quat(rng)
        ax = int(rng.integers(3))
        wmag = float(rng.uniform(0.5, 20))
        w0 = ref.qmat(q0)[:, ax] * wmag
        b = W.body("s", r=r0, v=v0, q=q0, w=w0, rho=float(10 ** rng.uniform(-1, 3)), forces=["g"])
        n = int(rng.integers(20, 60))
        ck.case(dict(parabola=it, g=g, n=n))
        with ck.guard("closed.exception"):
            W.step(n)
        r, q, v, w = W.state(b)
        dt = 0.01
        ck.close(v, v0 - g * dt * n * up, "parabola.velocity", tol=1e-11, scale=1)
        ck.close(r, r0 + dt * n * v0 - g * dt * dt * n * (n + 1) / 2 * up, "parabola.position", tol=1e-11, scale=1)
        ck.close(w, w0, "principal.spin", "the spin about a principal axis changed without torque", tol=1e-7, scale=1)
        # first order quaternion update turns by 2 atan(w dt/2) per step
        ang = 2 * np.arctan(0.5 * wmag * dt) * n
        ck.expect(ref.same_rot(q, ref.qmul(ref.quat(w0, ang), q0)) < 1e-6, "principal.angle", "the orientation after a steady spin is wrong", q=q)


def long_run(ck):
    rng = ck.rng("long")
    for it in range(ck.n(2, 10)):
        W = World(resolution=4, time_step=0.01)
        W.shape("s", *meshes.make(["lshape", "box", "hull"][it % 3], rng))
        API.create_damping_force(W.e, "d", 1e-3, 1e-3)
        b = W.body("s", q=ref.rand_quat(rng), w=ref.rand_unit(rng) * 3, v=rng.normal(size=3), forces=["d"])
        ck.case(dict(long=it))
        with ck.guard("long.exception"):
            API.simulate(W.e, 0.01 * ck.n(1500, 12000))
        q = W.state(b)[1]
        ck.close(np.linalg.norm(q), 1.0, "long.unit", "the orientation drifted from a unit rotation in a long run", tol=1e-12)


ck.require(body_steps=600, changed_density=10, changed_type=10)
ck.require(**{"energy.kinetic": 100, "energy.potential": 100, "parabola.position": 10, "long.unit": 2})
ck.run(step_rule, closed_forms, long_run)
