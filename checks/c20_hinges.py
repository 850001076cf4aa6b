import os

import numpy as np
from vh import Check
import meshes
import ref
import rigid
from rigid import World, API

ck = Check("C20", "trees of 2-5 bodies (12 families of solids, densities 0.1..100, sizes 0.05..4, root fixed or free, bodies given as parent or child) joined by hinges of any axis and anchor, given in world, body and model terms, "
                  "with spins, gravity and stabilisation; every step's impulses, anchor and axis errors, a physical pendulum against its equation of motion, free spinning about the axis, joints pulled apart beforehand; "
                  "non-trivial: moving joints.", cap_s=None if os.environ.get("VERIF_TIER") == "thorough" else 560)


class Joint:
    """what the harness asked for: anchor and axis in the frames of both bodies"""

    def __init__(self, e, name, p, c, o, a):
        self.name, self.p, self.c = name, p, c
        a = np.asarray(a, float) / np.linalg.norm(a)
        self.local = {}
        for n in (p, c):
            R = ref.qmat(API.get_orientation(e, n))
            self.local[n] = (R.T @ (o - API.get_position(e, n)), R.T @ a)

    def world(self, e, n):
        R = ref.qmat(API.get_orientation(e, n))
        arm, ax = self.local[n]
        return R @ arm, R @ arm + API.get_position(e, n), R @ ax

    def errors(self, e):
        _, op, ap = self.world(e, self.p)
        _, oc, ac = self.world(e, self.c)
        return float(np.linalg.norm(op - oc)), float(np.linalg.norm(np.cross(ap, ac))), float(ap @ ac)

    def speed(self, e):
        v = {}
        for n in (self.p, self.c):
            arm, _, _ = self.world(e, n)
            v[n] = (API.get_velocity(e, n) + np.cross(API.get_spin(e, n), arm), API.get_spin(e, n))
        return v[self.p][0] - v[self.c][0], v[self.p][1] - v[self.c][1]


LOOSE = 0.05      # the solver's own adaptive step may stall it: single joints only
EXACT = dict(max_iterations=300, absolute_tolerance=1e-9, relative_tolerance=1e-13, nu_increase=1.0)


def tree(ck, rng, n, scale, fixed, modes=("world", "body", "model"), gravity=True, spin=1.0, rho=None, **par):
    W = World(resolution=6, envelope=0.01 * scale, **par)
    e = W.e
    if gravity:
        API.create_gravity_force(e, "g", 9.81, np.array([0., 0., 1.]))
    J = []
    where = []
    for i in range(n):
        V, T = meshes.make(str(rng.choice(meshes.KINDS)), rng)
        V = V * 0.3 * scale * rng.uniform(0.7, 1.3) / np.abs(V).max()
        W.shape("s%d" % i, V, T)
        if i == 0:
            r = rng.normal(size=3) * scale * rng.choice([0, 5])
        else:
            for _ in range(200):
                k = int(rng.integers(i))
                r = where[k] + ref.rand_unit(rng) * scale * rng.uniform(1.2, 2.0)
                if all(np.linalg.norm(r - w) > 1.15 * scale for w in where):
                    break
        where.append(r)
        W.body("s%d" % i, "b%d" % i, r=r, q=ref.rand_quat(rng), v=np.zeros(3), w=np.zeros(3), rho=rho or float(10 ** rng.uniform(-1, 2)), fixed=fixed and i == 0, forces=["g"] if gravity else [])
        if i:
            o = r + (where[k] - r) * rng.uniform(0.2, 0.8) + rng.normal(size=3) * 0.1 * scale
            a = ref.hostile_axis(rng) if rng.random() < 0.3 else ref.rand_unit(rng)
            a = a / np.linalg.norm(a)
            p, c = ("b%d" % k, "b%d" % i) if rng.random() < 0.6 else ("b%d" % i, "b%d" % k)
            name = "h%d" % i
            mode = str(rng.choice(modes))
            j = Joint(e, name, p, c, o, a)
            oo, aa = o.copy(), a * rng.uniform(0.5, 2)
            R = ref.qmat(API.get_orientation(e, p))
            if mode == "body":
                oo, aa = R.T @ (o - API.get_position(e, p)), R.T @ aa
            elif mode == "model":
                # the parent put where its model was made shows how its body frame lies in the model
                r0, q0 = API.get_position(e, p), API.get_orientation(e, p)
                API.set_orientation(e, p, np.array([1.0, 0, 0, 0]), use_model_frame=True)
                API.set_position(e, p, np.zeros(3), use_model_frame=True)
                Rm, rm = ref.qmat(API.get_orientation(e, p)), API.get_position(e, p)
                API.set_orientation(e, p, q0)
                API.set_position(e, p, r0)
                oo, aa = Rm @ (R.T @ (o - r0)) + rm, Rm @ (R.T @ aa)
            keep = oo.copy(), aa.copy()
            with ck.guard("create.exception", "creating a hinge raises"):
                API.create_hinge(e, name)
                API.set_hinge(e, name, p, c, oo, aa, mode)
                ck.expect(np.array_equal(oo, keep[0]) and np.array_equal(aa, keep[1]), "create.arguments", "creating a hinge changes the caller's arrays")
                oo[:], aa[:] = np.nan, np.nan
                h = e.hinges[name]
                ck.expect(h.parent.name == p and h.child.name == c, "create.bodies", "a hinge joins other bodies than asked for")
                for arm, axis, body in ((h.arm_p, h.axis_p, p), (h.arm_c, h.axis_c, c)):
                    ck.close(arm, j.local[body][0], "create.anchor", "a hinge does not record its anchor in a body's frame", tol=1e-9, scale=np.linalg.norm(o) + scale, mode=mode)
                    ck.close(axis, j.local[body][1], "create.axis", "a hinge does not record its axis in a body's frame", tol=1e-7, mode=mode)
            ck.event("mode_" + mode)
            J.append(j)
    # consistent initial motion: one rigid motion of everything, then spins about the joint axes going down the tree
    w0 = rng.normal(size=3) * spin if not fixed else np.zeros(3)
    v0 = rng.normal(size=3) * spin * scale if not fixed else np.zeros(3)
    vel = {"b0": (v0, w0)}
    for j in J:
        known, new = (j.p, j.c) if j.p in vel else (j.c, j.p)
        v, w = vel[known]
        arm, o, ax = j.world(e, known)
        at = v + np.cross(w, arm)
        w2 = w + ax * rng.normal() * spin
        arm2, _, _ = j.world(e, new)
        vel[new] = (at - np.cross(w2, arm2), w2)
    for n_, (v, w) in vel.items():
        if not e.bodies[n_].is_fixed:
            API.set_velocity(e, n_, v)
            API.set_spin(e, n_, w)
    return W, J


def bystanders(W, rng, scale):
    """two bodies inside each other, far from everything else: the world has contacts and hinges at once"""
    V, T = meshes.make("box", rng)
    V = V * 0.3 * scale / np.abs(V).max()
    W.shape("bystander", V, T)
    far = np.array([60.0, -40.0, 30.0]) * scale
    fixed = bool(rng.random() < 0.5)
    W.body("bystander", "by0", r=far, fixed=fixed)
    W.body("bystander", "by1", r=far + ref.rand_unit(rng) * 0.2 * scale)


def touching(W):
    return [c for c in W.e.contact_points if not (c.bodyA.name.startswith("by") and c.bodyB.name.startswith("by"))]


def impulses(W, before, gravity, dt):
    """linear impulse and moment about the centre that every free body got from its joints"""
    out = {}
    for n, b in W.e.bodies.items():
        if b.is_fixed:
            continue
        f = [("g", 9.81, np.array([0., 0., 1.]))] if gravity else []
        _, _, v, w = rigid.free_step(b.mass, np.asarray(b.inertia), before[n], f, dt)
        I = rigid.inertia_world(b, before[n][1])
        out[n] = (b.mass * (API.get_velocity(W.e, n) - v), I @ (API.get_spin(W.e, n) - w), v, w)
    return out


def judge_step(ck, W, J, before, geo, gravity, dt, exact, pre):
    e = W.e
    imp = impulses(W, before, gravity, dt)
    free = list(imp)
    degree = {n: [j for j in J if n in (j.p, j.c)] for n in e.bodies}
    big = max([np.linalg.norm(i[0]) for i in imp.values()] + [1e-300])
    mom = max([e.bodies[n].mass * np.linalg.norm(before[n][2]) + np.linalg.norm(rigid.inertia_world(e.bodies[n], before[n][1]) @ before[n][3]) / W.scale for n in free] + [1e-300])
    # a body on a single hinge: no moment about the joint axis
    M = {}
    for n in free:
        if len(degree[n]) != 1:
            continue
        j = degree[n][0]
        arm, axis = geo[j.name][n][0], geo[j.name][j.p][2]
        M[n] = imp[n][1] - np.cross(arm, imp[n][0])
        size = np.linalg.norm(imp[n][1]) + np.linalg.norm(arm) * np.linalg.norm(imp[n][0]) + 1e-6 * mom * W.scale
        ck.expect(abs(M[n] @ axis) <= 1e-8 * size, "axis.free", "a hinge transmits a moment about its axis", moment=float(M[n] @ axis), size=size)
    for j in J:
        if len(degree[j.p]) == 1 and len(degree[j.c]) == 1 and j.p in imp and j.c in imp:
            ck.close(imp[j.p][0] + imp[j.c][0], np.zeros(3), "impulse.opposite", "a hinge does not transmit equal and opposite impulses", tol=1e-9, scale=big + 1e-5 * mom)
            ck.close(M[j.p] + M[j.c], np.zeros(3), "moment.opposite", "a hinge does not transmit equal and opposite moments", tol=1e-8, scale=big * W.scale + np.abs(M[j.p]).max() + 1e-5 * mom * W.scale)
    if len(free) == len(e.bodies):
        P = sum(imp[n][0] for n in free)
        ck.close(P, np.zeros(3), "momentum.linear", "hinges change the total momentum", tol=1e-9, scale=big + 1e-5 * mom)
        L = sum(imp[n][1] + np.cross(before[n][0], imp[n][0]) for n in free)
        drift = max(g["drift"] for g in geo.values())
        reach = max(np.linalg.norm(before[n][0]) for n in free) + W.scale
        ck.expect(np.linalg.norm(L) <= len(J) * drift * big * 30 + 1e-8 * reach * (big + mom), "momentum.angular", "hinges change the total angular momentum", L=L, drift=drift, impulse=big)
    K0 = sum(0.5 * e.bodies[n].mass * imp[n][2] @ imp[n][2] + 0.5 * imp[n][3] @ rigid.inertia_world(e.bodies[n], before[n][1]) @ imp[n][3] for n in free)
    K1 = 0.0
    for n in free:
        v, w = API.get_velocity(e, n), API.get_spin(e, n)
        K1 += 0.5 * e.bodies[n].mass * v @ v + 0.5 * w @ rigid.inertia_world(e.bodies[n], before[n][1]) @ w
    if exact and not pre:
        ck.expect(K1 <= K0 * (1 + 1e-5), "work", "hinges add energy", before=K0, after=K1)
    return big


def motion(ck):
    rng = ck.rng("motion")
    follow = {}
    for it in range(ck.n(20, 500)):
        if ck.time_left() < 30:
            break
        scale = float(rng.choice([0.05, 0.3, 1, 1, 4]))
        n = int(rng.choice([2, 2, 2, 3, 4, 5]))
        fixed = bool(rng.random() < 0.5)
        exact = bool(rng.random() < 0.7)
        pre = bool(rng.random() < 0.5)
        gravity = bool(rng.random() < 0.6)
        spin = float(rng.choice([0.3, 2.0]))
        dt = 0.01 / max(1, spin) * rng.choice([0.3, 1.0]) * (min(1.0, scale) ** 0.5)
        W, J = tree(ck, rng, n, scale, fixed, gravity=gravity, spin=spin, time_step=float(dt), use_pre_stabilization=pre, **(dict(EXACT, absolute_tolerance=1e-9 * scale ** 4) if exact else dict(max_iterations=int(rng.choice([20, 50, 200])))))
        if ck.violations:
            return
        W.scale = scale
        e = W.e
        e.params.time_step *= (1, 4)[it % 2]      # steps may be shorter than the engine's
        r1s, r2s = [], []
        worst, angle, vmax, steps = 0.0, 0.0, 0.0, int(rng.integers(12, 36))
        for s in range(steps):
            ck.case(dict(it=it, n=n, fixed=fixed, exact=exact, pre=pre, gravity=gravity, scale=scale, step=s), nontrivial=True)
            before = W.states()
            geo = {j.name: {j.p: j.world(e, j.p), j.c: j.world(e, j.c), "drift": j.errors(e)[0]} for j in J}
            errs = [j.errors(e) for j in J]
            with ck.guard("step.exception", "a step with hinges raises"):
                API.simulate(e, dt, True)
            if ck.violations:
                return
            if len(e.contact_points):
                ck.event("contacts")
                break
            log = API.get_log(e)[-1]
            done = log.get("exitcode") in (1, 2)
            judge_step(ck, W, J, before, geo, gravity, dt, exact and done, pre)
            speed = max(np.linalg.norm(API.get_velocity(e, b)) + scale * np.linalg.norm(API.get_spin(e, b)) for b in e.bodies)
            start = speed if s == 0 else start
            if not exact and speed > 20 * (start + 10 * scale ** 0.5):
                ck.event("unconverged_blowup")         # too few iterations for the tree: nothing is promised
                break
            vmax = max(vmax, speed)
            if exact and done:
                ck.event("exact_steps")
                for j, (d, ang, co) in zip(J, errs):
                    # velocities read back after positions moved: compare with the geometry before the step
                    vp = {}
                    for b in (j.p, j.c):
                        vp[b] = API.get_velocity(e, b) + np.cross(API.get_spin(e, b), geo[j.name][b][0])
                    rel = vp[j.p] - vp[j.c]
                    want = -(e.params.gap_reduction / dt) * (geo[j.name][j.p][1] - geo[j.name][j.c][1]) if pre else np.zeros(3)
                    ax = geo[j.name][j.p][2]
                    wrel = API.get_spin(e, j.p) - API.get_spin(e, j.c)
                    turn = -(e.params.gap_reduction / dt) * np.cross(geo[j.name][j.c][2], ax) if pre else np.zeros(3)
                    turn = turn - ax * (turn @ ax)
                    wt = wrel - ax * (wrel @ ax)
                    r1 = np.linalg.norm(rel - want) / (speed + 1e-9)
                    r2 = np.linalg.norm(wt - turn) * scale / (speed + 1e-9)
                    ck.worst["anchor.speed"] = max(ck.worst.get("anchor.speed", (0, LOOSE)), (float(r1), LOOSE))
                    ck.worst["axis.speed"] = max(ck.worst.get("axis.speed", (0, LOOSE)), (float(r2), LOOSE))
                    if n == 2:
                        r1s.append(r1)
                        r2s.append(r2)
            worst = max([worst] + [j.errors(e)[0] for j in J])
            angle = max([angle] + [j.errors(e)[1] for j in J])
            ck.expect(all(j.errors(e)[2] > 0 for j in J) or not exact, "axis.flipped", "the two axes of a hinge point in opposite directions")
        if len(r1s) >= 5:
            for key in ("pre" if pre else "plain", "fixed %s" % (J[0].p == "b0") if fixed else "free"):
                follow.setdefault(key, []).append((float(np.median(r1s)), float(np.median(r2s))))
        if exact:
            # explicit steps leave the joint by the second order term of the motion, added up unless stabilised
            one = (vmax * dt) ** 2 / scale
            lim = max((50 if pre else 15 * steps) * one, 0.2 * vmax * dt * steps) + 1e-6 * scale
            for mech, val in (("drift.anchor", worst), ("drift.axis", angle * scale)):
                ck.worst[mech] = max(ck.worst.get(mech, (0, 1)), (float(val / lim), 1))
                ck.expect(val <= lim, mech, "a joint comes apart", error=val, limit=lim, steps=steps, pre=pre, n=n, fixed=fixed)
        ck.event("runs")
    # the solver's own step size may collapse in a few runs, never in most
    for key, got in follow.items():
        ck.event("follow_" + key.replace(" ", "_"), len(got))
        if len(got) >= 3:
            for i, mech, what in ((0, "anchor.speed", "the two anchors do not move together"), (1, "axis.speed", "the two axes do not turn together")):
                part = float(np.mean([g[i] <= LOOSE for g in got]))
                ck.worst[mech + " missed"] = max(ck.worst.get(mech + " missed", (0, 0.6)), (1 - part, 0.6))
                ck.expect(part >= 0.4, mech, "in most worlds, after a converged solve " + what, group=key, errors=got)


def torn(ck):
    """joints pulled apart before the simulation starts close again under stabilisation"""
    rng = ck.rng("torn")
    ends = []
    for it in range(ck.n(14, 300)):
        if ck.time_left() < 20:
            break
        scale = float(rng.choice([0.3, 1, 4]))
        n = int(rng.choice([2, 2, 3]))
        fixed = bool(rng.random() < 0.5)
        dt = 0.005
        W, J = tree(ck, rng, n, scale, fixed, gravity=False, spin=0.0, time_step=dt, use_pre_stabilization=True, **dict(EXACT, absolute_tolerance=1e-9 * scale ** 4))
        if ck.violations:
            return
        e = W.e
        crowd = it // 2 % 3 == 2
        if crowd:
            bystanders(W, rng, scale)
        part = it % 2 == 1
        e.params.gap_reduction = 0.1 if part else float(rng.choice([0.1, 0.3]))
        e.params.time_step *= 4 if part else 1
        for b in [x for x in e.bodies if not x.startswith("by")][1:]:
            API.set_position(e, b, API.get_position(e, b) + rng.normal(size=3) * 0.01 * scale)
            API.set_orientation(e, b, ref.qmul(ref.quat(ref.rand_unit(rng), rng.uniform(0.0, 0.05)), API.get_orientation(e, b)))
        start = [j.errors(e) for j in J]
        ck.case(dict(torn=it, n=n, fixed=fixed, start=start), nontrivial=True)
        hist = [max(d for d, _, _ in start)]
        for s in range(40):
            with ck.guard("step.exception", "a step with hinges raises"):
                API.simulate(e, dt, False)
            if ck.violations:
                return
            for b in e.bodies:            # only the correction itself is wanted
                API.set_velocity(e, b, np.zeros(3))
                API.set_spin(e, b, np.zeros(3))
            if touching(W):
                break
            hist.append(max(j.errors(e)[0] for j in J))
        if touching(W):
            ck.event("contacts")
            continue
        end = [j.errors(e) for j in J]
        if crowd:
            ck.event("torn_with_contacts")
        ck.event("torn_joints", len(J))
        a0, a1 = max(a for _, a, _ in start), max(a for _, a, _ in end)
        ends.append((hist[-1] / hist[0], a1 / a0, part))
    for group in (False, True):
        got = np.array([x[:2] for x in ends if x[2] == group])
        if len(got) < 4:
            continue
        # as above: the solver may stall in some worlds, and then leaves these joints apart
        for i, mech, what in ((0, "closes.anchor", "close joints that were pulled apart"), (1, "closes.axis", "align the axes of joints that were twisted")):
            part = float(np.mean(got[:, i] <= 0.3))
            ck.worst[mech + " missed"] = max(ck.worst.get(mech + " missed", (0, 0.6)), (1 - part, 0.6))
            ck.expect(part >= 0.4, mech, "stabilisation does not " + what, left=np.sort(got[:, i]), partial_steps=group)


def pendulum(ck):
    """a body on a fixed hinge swings like a physical pendulum; without gravity it keeps spinning"""
    rng = ck.rng("pendulum")
    for it in range(ck.n(6, 150)):
        if ck.time_left() < 20:
            break
        scale = float(rng.choice([0.3, 1, 4]))
        gravity = it % 3 != 0
        dt = 0.003 * scale ** 0.5
        W, J = tree(ck, rng, 2, scale, True, gravity=gravity, spin=0.0, time_step=dt, use_pre_stabilization=True, **dict(EXACT, absolute_tolerance=1e-9 * scale ** 4))
        if ck.violations:
            return
        e, j = W.e, J[0]
        body = "b1"
        arm, o, ax = j.world(e, body)
        b = e.bodies[body]
        c = -arm                                  # from the anchor to the centre
        I = ax @ rigid.inertia_world(b, API.get_orientation(e, body)) @ ax + b.mass * (c @ c - (c @ ax) ** 2)
        rate = float(rng.normal() * (2 if gravity else 3) / scale ** 0.5)
        API.set_spin(e, body, ax * rate)
        API.set_velocity(e, body, np.cross(ax * rate, c))
        x0 = API.get_orientation(e, body)
        # equation of motion of the angle about the axis
        th, om = 0.0, rate
        T = float(rng.uniform(0.2, 0.5)) * scale ** 0.5
        N = max(1, int(round(T / dt)))
        g = np.array([0, 0, -9.81]) if gravity else np.zeros(3)

        def acc(th):
            cr = ref.rodrigues(ax, th) @ c
            return float(ax @ np.cross(cr, b.mass * g)) / I
        sub = 20
        h = dt / sub
        for _ in range(N * sub):                  # leapfrog, far finer than the steps
            om += 0.5 * h * acc(th)
            th += h * om
            om += 0.5 * h * acc(th)
        ck.case(dict(pendulum=it, gravity=gravity, scale=scale, steps=N), nontrivial=True)
        with ck.guard("step.exception", "a step with hinges raises"):
            API.simulate(e, N * dt, False)
        if ck.violations:
            return
        if len(e.contact_points):
            ck.event("contacts")
            continue
        R = ref.qmat(API.get_orientation(e, body)) @ ref.qmat(x0).T
        got = np.arctan2(0.5 * ax @ np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]), 0.5 * (np.trace(R) - 1))
        d = (got - th + np.pi) % (2 * np.pi) - np.pi
        wn = API.get_spin(e, body) @ ax
        top = max(abs(rate), abs(om), (2 * b.mass * 9.81 * np.linalg.norm(c) / I) ** 0.5 if gravity else 0)
        ck.worst["pendulum.angle"] = max(ck.worst.get("pendulum.angle", (0, 0.03)), (abs(d), 0.03))
        ck.event("pendulums")
        ck.expect(abs(d) <= 0.03, "pendulum.angle", "a body on a hinge does not swing as it should", angle=got, want=th, gravity=gravity)
        ck.expect(abs(wn - om) <= 0.03 * top, "pendulum.rate", "a body on a hinge does not turn at the rate it should", rate=wn, want=om, gravity=gravity)


def hang(ck):
    """released from rest, a hinged body does not fall at its anchor in the very first step"""
    rng = ck.rng("hang")
    got_all = []
    for it in range(ck.n(16, 240)):
        if ck.time_left() < 10:
            break
        scale = float(rng.choice([0.3, 1, 4]))
        dt = 0.005
        W, J = tree(ck, rng, 2, scale, True, gravity=True, spin=0.0, time_step=dt, use_pre_stabilization=bool(it % 2), **dict(EXACT, absolute_tolerance=1e-9 * scale ** 4))
        if ck.violations:
            return
        e, j = W.e, J[0]
        part = it // 2 % 2 == 1
        crowd = it // 4 % 2 == 1
        if crowd:
            bystanders(W, rng, scale)
        e.params.time_step *= 4 if part else 1
        ck.case(dict(hang=it, scale=scale), nontrivial=True)
        geo = {b: j.world(e, b) for b in (j.p, j.c)}
        with ck.guard("step.exception", "a step with hinges raises"):
            API.simulate(e, dt, False)
        if ck.violations:
            return
        if touching(W):
            ck.event("contacts")
            continue
        vp = [API.get_velocity(e, b) + np.cross(API.get_spin(e, b), geo[b][0]) for b in (j.p, j.c)]
        ax = geo[j.p][2]
        w = API.get_spin(e, j.p) - API.get_spin(e, j.c)
        got_all.append((float(np.linalg.norm(vp[0] - vp[1]) / (9.81 * dt)), float(np.linalg.norm(w - ax * (w @ ax)) * scale / (9.81 * dt)), (part, crowd)))
        ck.event("released_with_contacts" if crowd else "released")
    for which, group in ((0, False), (0, True), (1, True)):
        ratios, turns = [x[0] for x in got_all if x[2][which] == group], [x[1] for x in got_all if x[2][which] == group]
        if len(ratios) < 5:
            continue
        for got, mech, what in ((ratios, "hang.anchor", "falls at its anchor"), (turns, "hang.axis", "tilts its axis")):
            part = float(np.mean(np.array(got) <= 0.1))
            ck.worst[mech + " missed"] = max(ck.worst.get(mech + " missed", (0, 0.6)), (1 - part, 0.6))
            ck.expect(part >= 0.4, mech, "in most worlds, a hinged body released from rest " + what, got=np.sort(got), group=("partial steps", "with contacts")[which] + " %s" % group)


def islands(ck):
    """several pairs of bodies joined by hinges, made in any order: what happens to one pair is no business of the others"""
    rng = ck.rng("islands")
    ends, drags = [], []
    for it in range(ck.n(14, 300)):
        if ck.time_left() < 10:
            break
        scale = float(rng.choice([0.3, 1, 4]))
        n = int(rng.integers(2, 6))
        dt = 0.005
        torn_one = bool(rng.random() < 0.6)
        W = World(resolution=4, envelope=0.01 * scale, time_step=dt, use_pre_stabilization=torn_one or bool(rng.random() < 0.5), **dict(EXACT, absolute_tolerance=1e-9 * scale ** 4))
        e = W.e
        e.params.gap_reduction = 0.3
        plan = {}
        for i in range(n):
            at = np.array([6.0 * scale * i, 0, 0]) + rng.normal(size=3) * 0.3 * scale
            d = ref.rand_unit(rng) * scale * rng.uniform(0.7, 1.0)
            plan[i] = (at, d, bool(rng.random() < 0.4))
        names = [(i, s) for i in range(n) for s in (-1, 1)]
        V, T = meshes.make("box", rng)
        W.shape("s", V * 0.3 * scale / np.abs(V).max(), T)
        for k in rng.permutation(2 * n):
            i, s_ = names[k]
            at, d, fixed = plan[i]
            W.body("s", "b%d%s" % (i, "pc"[s_ > 0]), r=at + s_ * d, q=ref.rand_quat(rng), v=np.zeros(3), w=np.zeros(3), rho=float(10 ** rng.uniform(-0.5, 0.5)), fixed=fixed and s_ < 0)
        J = {}
        for i in rng.permutation(n):
            with ck.guard("create.exception", "creating a hinge raises"):
                API.create_hinge(e, "h%d" % i)
        for i in rng.permutation(n):
            at, d, fixed = plan[i]
            p, c = ("b%dp" % i, "b%dc" % i) if rng.random() < 0.5 else ("b%dc" % i, "b%dp" % i)
            a = ref.rand_unit(rng)
            J[int(i)] = Joint(e, "h%d" % i, p, c, at, a)
            with ck.guard("create.exception", "creating a hinge raises"):
                API.set_hinge(e, "h%d" % i, p, c, at, a, "world")
        if ck.violations:
            return
        if it % 3 == 2:
            bystanders(W, rng, scale)
            ck.event("islands_with_contacts")
        who = int(rng.integers(n))
        free = "b%dc" % who
        kick = rng.normal(size=3) * scale
        if torn_one:
            API.set_position(e, free, API.get_position(e, free) + ref.rand_unit(rng) * 0.01 * scale)
            API.set_orientation(e, free, ref.qmul(ref.quat(ref.rand_unit(rng), 0.03), API.get_orientation(e, free)))
        else:
            API.set_velocity(e, free, kick)
        start = J[who].errors(e)
        before = W.states()
        geo = {b: J[who].world(e, b) for b in (J[who].p, J[who].c)}
        ck.case(dict(islands=it, n=n, torn=torn_one, who=who, order=list(e.bodies), hinges=list(e.hinges)), nontrivial=True)
        for s in range(20 if torn_one else 1):
            with ck.guard("step.exception", "a step with hinges raises"):
                API.simulate(e, dt, False)
            if ck.violations:
                return
            if s == 0 and not torn_one:
                vp = [API.get_velocity(e, b) + np.cross(API.get_spin(e, b), geo[b][0]) for b in (J[who].p, J[who].c)]
                drags.append(float(np.linalg.norm(vp[0] - vp[1]) / np.linalg.norm(kick)))
            if torn_one:
                for b in J[who].p, J[who].c:
                    API.set_velocity(e, b, np.zeros(3))
                    API.set_spin(e, b, np.zeros(3))
        moved = {b: max(np.abs(x - y).max() for x, y in zip(before[b], W.state(b))) for b in e.bodies}
        far = [b for b in e.bodies if b not in (J[who].p, J[who].c) and not b.startswith("by")]
        ck.event("islands_at_rest", len(far))
        ck.expect(all(moved[b] <= 1e-7 * scale for b in far), "islands.rest", "the correction of one hinge moves bodies it is not joined to", moved=moved, who=who)
        if torn_one:
            end = J[who].errors(e)
            ends.append(max(end[0] / start[0], end[1] / max(start[1], 1e-3)))
    for got, mech, what in ((ends, "islands.closes", "a joint that was pulled apart stays apart"), (drags, "islands.drag", "a body that is pushed does not take along the one hinged to it")):
        if len(got) >= 4:
            part = float(np.mean(np.array(got) <= 0.35))
            ck.worst[mech + " missed"] = max(ck.worst.get(mech + " missed", (0, 0.6)), (1 - part, 0.6))
            ck.expect(part >= 0.4, mech, "in most worlds, " + what, got=np.sort(got))


ck.require(islands_at_rest=20, exact_steps=20, released=4, torn_joints=10, pendulums=3, mode_world=5, mode_body=5, mode_model=5)
ck.run(islands, hang, torn, pendulum, motion)
