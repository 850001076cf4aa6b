import logging
import os
import subprocess
import sys
import tempfile
import time
import numpy as np
from vh import Check, Inconclusive, VERIF, quiet
import ref
import rigid
import repeat
import soft
from rainbow.util.timer import Timer
import rainbow.simulators.prox_rigid_bodies.api as RB
import rainbow.simulators.prox_soft_bodies.api as SB
from rainbow.simulators.prox_rigid_bodies.scenes.write_xml import write_xml

logging.disable(logging.CRITICAL)
ck = Check("C34", "17 kinds of scenes (stacks, heaps, hinges, bounce, stabilization, factory scenes with random names; soft bodies with hashing and hierarchies, four solver schemes, pins, loads, self contact) run with profiling off, on, and toggled at random, "
                  "with every getter called between steps, with other worlds stepped in between, and in other processes with other hash seeds, random states and memory layouts: digests of all states and contacts compared bit by bit; "
                  "every log record compared with what the step did; non-trivial: scenes with contacts or hinges.")


def curious(S, k):
    """look at everything between two steps, and scribble over what was returned"""
    e = S.e
    if S.soft:
        for n in e.bodies:
            SB.get_material_coordinates(e, n)[:] = 7
        if e.stepper is not None:
            list(SB.get_log(e))
        return
    for n in e.bodies:
        for get in (RB.get_position, RB.get_orientation, RB.get_velocity, RB.get_spin):
            get(e, n)[:] = 7
        RB.is_fixed_body(e, n)
    list(RB.get_log(e))
    with tempfile.NamedTemporaryFile(suffix=".xml") as f:
        try:
            write_xml(e, f.name)
        except (TypeError, AttributeError):  # another check's business
            pass


def compare(ck, a, b, mech, msg, **d):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)
    return ck.expect(len(a) == len(b) and k is None, mech, msg, first_difference=k, steps=len(a) - 1, **d)


def seconds(ck, r, mech, keys, name):
    for k in keys:
        v = r.get(k)
        ck.expect(v is not None and np.isfinite(v) and v >= 0, mech, "a timing is missing or negative", key=k, value=v, scene=name)
    return all(r.get(k) is not None for k in keys)


def within(ck, r, parts, whole, name, slack=0.0):
    if all(k in r for k in parts + [whole]):
        ck.expect(sum(r[k] for k in parts) <= r[whole] * (1 + 1e-9) + slack, "time.within", "parts of a section take longer than the section", parts={k: r[k] for k in parts}, whole={whole: r[whole]}, scene=name)


def kinetic(S):
    if not S.soft:
        return rigid.kinetic(S.e, [n for n in S.e.bodies if not RB.is_fixed_body(S.e, n)])
    K = 0.0
    for b in S.e.bodies.values():
        if not b.is_fixed:
            T = np.array(b.T)
            K += 0.5 * np.sum(b.material_description.rho * soft.volumes(np.array(b.x0), T) * np.sum(np.mean(np.array(b.u)[T], axis=1) ** 2, axis=1))
    return K


def potential(S):
    U, scale = 0.0, 0.0
    for b in S.e.bodies.values():
        if b.is_fixed:
            continue
        if S.soft:
            T = np.array(b.T)
            w = b.material_description.rho * soft.volumes(np.array(b.x0), T)
            d = -np.mean(np.array(b.x)[T], axis=1) @ np.array(b.gravity) * w
            U += d.sum()
            scale += np.abs(d).sum()
        else:
            for f in b.forces:
                if f.force_type == "Gravity":
                    U += b.mass * f.g * float(np.dot(f.up, b.r))
                    scale += b.mass * f.g * np.linalg.norm(b.r)
    return U, scale


def record(ck, S, r, wall, name):
    """does a record describe the step that was just taken?"""
    e = S.e
    P = e.params
    ck.expect(r.get("dt") == S.T, "log.dt", "the record has another step size", dt=r.get("dt"), want=S.T, scene=name)
    n = len(e.contact_points)
    ck.expect(r.get("contact_points") == n, "log.contacts", "the record counts other contacts than the engine holds", record=r.get("contact_points"), engine=n, scene=name)
    g = min([0.0] + [float(c.g) for c in e.contact_points])
    ck.expect(r.get("max_penetration") == -g, "log.penetration", "largest penetration in the record", record=r.get("max_penetration"), want=-g, scene=name)
    ck.close(r.get("kinetic_energy", np.nan), kinetic(S), "log.kinetic", "kinetic energy in the record is not that of the state after the step", tol=1e-10, scale=1e-12, scene=name)
    U, s = potential(S)
    ck.close(r.get("potential_energy", np.nan), U, "log.potential", "potential energy in the record is not that of the state after the step", tol=1e-10, scale=1e-12 + s, scene=name)
    if n and not S.soft:
        ck.expect(r.get("number_of_overlaps", 0) >= 1, "log.overlaps", "contacts without overlaps in the record", scene=name)
    sections = ["stepper_time", "collision_detection_time", "narrow_phase", "contact_determination", "contact_point_reduction"]
    if not (S.soft and P.use_spatial_hashing):
        sections.append("update_bvh")
    if S.soft:
        sections += ["compute_elastic_forces", "compute_traction_forces", "compute_damping_forces", "compute_external_forces", "compute_kinetic_energy", "compute_potential_energy", "compute_elastic_energy"]
        if n:
            sections.append("compute_jacobian_matrix")
    if n:
        sections += ["model_space_update", "contact_optimization", "contact_point_generation"]
    main = P.proximal_solver + "_" if S.soft else ""
    solved = n or (not S.soft and e.hinges)
    if solved:
        sections.append(main + "solver_time")
    seconds(ck, r, "time.sections", sections, name)
    for k, v in r.items():
        if isinstance(v, float) and ("time" in k or k in sections):
            ck.expect(0 <= v <= wall, "time.bounds", "a section of a step takes longer than the step", key=k, value=v, wall=wall, scene=name)
    within(ck, r, ["update_bvh", "narrow_phase", "contact_determination", "contact_point_reduction"] if "update_bvh" in r else ["narrow_phase", "contact_determination", "contact_point_reduction"], "collision_detection_time", name)
    within(ck, r, ["model_space_update", "contact_optimization", "contact_point_generation"] if not S.soft else ["contact_optimization", "contact_point_generation"], "contact_determination", name)
    within(ck, r, ["collision_detection_time"] + ([main + "solver_time"] if solved else []), "stepper_time", name)
    for p in (main, "post_stabilization_"):
        if p + "residuals" not in r:
            ck.expect(not solved or p != main, "log.residuals", "a step with constraints leaves no residuals", scene=name)
            continue
        R, it, code = np.asarray(r[p + "residuals"], float), r.get(p + "iterations"), r.get(p + "exitcode")
        if p == main:
            ck.expect(solved, "log.stale", "residuals of a step that solved nothing", scene=name)
        if not S.soft:
            ck.expect(len(R) == P.max_iterations and 0 <= it <= P.max_iterations and code in (0, 1, 2), "log.iterations", "iterations of the solver", iterations=it, exitcode=code, n=len(R), scene=name)
            used = P.max_iterations if code == 0 else it + 1
            ck.expect(np.all(np.isfinite(R[:used])) and np.all(R[:used] >= 0) and np.all(np.isinf(R[used:])), "log.residual-values", "residuals are recorded for other iterations than those run", iterations=it, exitcode=code, finite=int(np.isfinite(R).sum()), scene=name)
            if code == 1:
                ck.expect(R[used - 1] < P.absolute_tolerance, "log.exit", "said to be converged with a residual above the tolerance", scene=name)
        ck.event("solver records")


def freeze(r):
    return {k: np.array(v, copy=True) if isinstance(v, (np.ndarray, list)) else v for k, v in r.items()}


def same_record(a, b):
    return a.keys() == b.keys() and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)


def scenes(ck):
    steps = ck.n(5, 25)
    base = {}
    for k in range(ck.n(1, 4)):
        seed = ck.seed * 100 + k
        for name in repeat.SCENES:
            rng = ck.rng(name, k)
            with ck.guard("scene.exception", "a scene can not be simulated"):
                S, off, contacts = repeat.trajectory(name, seed, steps)
                base[seed, name] = off
                ck.case(dict(scene=name, seed=seed, steps=steps, contacts=contacts), contacts > 0 or "hinge" in name)
                ck.event("contacts seen", contacts)
                ck.expect(not any("dt" in r for r in S.api.get_log(S.e)) and len(S.api.get_log(S.e)) == 0, "log.off", "records are written although profiling is off", records=len(S.api.get_log(S.e)), scene=name)
                ck.expect(len(set(off)) > steps // 2 or name in ("hinges",), "repeat.moving", "the scene does not move: nothing would be seen", scene=name)
                # profiling on, judged step by step
                frozen = []
                T = repeat.Scene(name, seed)
                on = [T.digest()]
                for i in range(steps):
                    before = [r for r in T.api.get_log(T.e)] if T.e.stepper is not None else []
                    t0 = time.perf_counter()
                    T.step(True)
                    wall = time.perf_counter() - t0
                    on.append(T.digest())
                    log = T.api.get_log(T.e)
                    new = [r for r in log[len(before):]]
                    own = [r for r in new if "dt" in r]
                    if ck.expect(len(own) == 1 and len(new) <= (2 if T.soft and i == 0 else 1) and len(log) == len(before) + len(new) and all(a is b or same_record(a, b) for a, b in zip(before, log)),
                                 "log.one", "a step does not append exactly one record", scene=name, step=i, before=len(before), after=len(log)):
                        record(ck, T, own[0], wall, name)
                        frozen.append((len(log) - 1, freeze(own[0])))
                for i, r in frozen:
                    ck.expect(same_record(r, log[i]), "log.final", "a later step changed the record of an earlier one", scene=name, record=i)
                compare(ck, off, on, "repeat.profiling", "profiling changes the simulation", scene=name, seed=seed)
                more = set(rng.permutation(["toggled", "again", "coexist"])[: ck.n(1, 3)]) | ({"again"} if name in ("heap", "drop-bvh") else set())
                # profiling now and then
                if "toggled" in more:
                    toggled(ck, S, name, seed, steps, off, rng)
                # the same again, watched
                if "again" in more:
                    _, again, _ = repeat.trajectory(name, seed, steps, between=curious)
                    compare(ck, off, again, "repeat.again", "running the same scene again, reading it between the steps, gives something else", scene=name, seed=seed)
                # and with another world stepped in between
                if "coexist" in more:
                    O = repeat.Scene(str(rng.choice(repeat.SOFT if T.soft else repeat.RIGID)), seed + 1)
                    _, mixed, _ = repeat.trajectory(name, seed, steps, lambda i: bool(i % 2), between=lambda S, i: O.step(True))
                    compare(ck, off, mixed, "repeat.coexist", "another world in the same process changes the simulation", scene=name, other=O.name, seed=seed)
    processes(ck, base, steps)


def spikes(ck):
    """corners stuck in fixed and free slabs: the deepest contact is in the record whichever body it belongs to"""
    import meshes
    rng = ck.rng("spikes")
    for it in range(ck.n(24, 300)):
        W = rigid.World(resolution=12, time_step=0.001, max_iterations=20)
        slab, spike = [("a", "b"), ("b", "a")][it % 2]
        fixed = [(True, False), (False, True), (False, False)][it // 2 % 3]
        with ck.guard("scene.exception", "a scene can not be simulated"):
            W.shape("slab", *meshes.grid_box(1.1, 1.2, 0.5, 1))
            W.shape("spike", *meshes.octahedron())
            tip = W.e.shapes["spike"].mesh.V[:, 2].min()
            make = [lambda: W.body("slab", slab, r=[0, 0, -0.25], q=[1.0, 0, 0, 0], model=True, fixed=fixed[0], rho=2.0),
                    lambda: W.body("spike", spike, r=[rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3), -tip - rng.uniform(0.0, 0.1)], q=ref.quat(np.array([0, 0, 1.0]), rng.uniform(0, 6)), v=-rng.random(3), fixed=fixed[1], rho=3.0)]
            for k in (0, 1) if it % 4 < 2 else (1, 0):
                make[k]()
            RB.simulate(W.e, 0.001, True)
        ck.case(dict(spike=it, fixed=fixed, contacts=len(W.e.contact_points)))
        r = RB.get_log(W.e)[-1]
        deep = -min([0.0] + [float(c.g) for c in W.e.contact_points])
        ck.expect(r.get("max_penetration") == deep, "log.penetration", "largest penetration in the record", record=r.get("max_penetration"), want=deep, fixed=fixed)
        ck.event("spikes with a single deepest contact", sum(float(c.g) == -deep for c in W.e.contact_points) == 1)


def toggled(ck, S, name, seed, steps, off, rng):
    flags = [bool(rng.random() < 0.5) for _ in range(steps)]
    M, mixed, _ = repeat.trajectory(name, seed, steps, lambda i: flags[i])
    compare(ck, off, mixed, "repeat.toggled", "switching profiling on and off changes the simulation", scene=name, seed=seed)
    ck.expect(sum("dt" in r for r in M.api.get_log(M.e)) == sum(flags), "log.toggled", "not one record per step with profiling on", flags=flags, records=len(M.api.get_log(M.e)), scene=name)


def processes(ck, base, steps):
    jobs = []
    for seed in sorted({s for s, _ in base}):
        for k, (hashseed, profiling) in enumerate([("1", "off"), ("4242", "on"), ("random", "off")][: ck.n(2, 3)]):
            for part in (repeat.RIGID, repeat.SOFT):
                env = dict(os.environ, PYTHONHASHSEED=hashseed)
                jobs.append((seed, hashseed, subprocess.Popen([sys.executable, "-B", os.path.join(VERIF, "lib", "repeat.py"), str(seed), str(steps), profiling, ",".join(part), str(12345 * (k + 1))], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for seed, hashseed, p in jobs:
        out, err = p.communicate(timeout=700)
        lines = [x.split() for x in out.splitlines() if x.startswith("TRAJECTORY")]
        if p.returncode:
            raise Inconclusive("a run in another process failed: %s" % err[-300:])
        for _, name, contacts, *digests in lines:
            ck.case(dict(scene=name, seed=seed, process=hashseed), int(contacts) > 0)
            compare(ck, base.get((seed, name), []), digests, "repeat.process", "the same scene in another process gives something else", scene=name, seed=seed, hashseed=hashseed)
            ck.event("runs in other processes")


def timers(ck):
    """random histories of a timer against the clock read around each call"""
    clock = time.perf_counter
    for k in range(ck.n(60, 600)):
        rng = ck.rng("timer", k)
        with ck.guard("timer.exception"):
            t = Timer("section%d" % k) if rng.random() < 0.7 else Timer()
            running, total, last = None, [0.0, 0.0], (0.0, 0.0)
            history = []
            ck.close([t.elapsed, t.total], [0, 0], "timer.new", "a new timer has not measured anything", tol=0)
            for _ in range(int(rng.integers(1, 25))):
                op = str(rng.choice(["start", "end", "wait", "read"]))
                history.append(op)
                if op == "start":
                    a = clock()
                    t.start()
                    running = (a, clock())
                elif op == "end" and running is None:
                    ck.expect_error(t.end, "timer.end", "ending a timer that was not started is not refused", history=history)
                elif op == "end":
                    b = clock()
                    t.end()
                    c = clock()
                    last = (b - running[1], c - running[0])
                    total = [total[0] + last[0], total[1] + last[1]]
                    running = None
                elif op == "wait":
                    time.sleep(float(rng.choice([0, 1e-4, 2e-3])))
                eps = 1e-9
                ck.expect(last[0] - eps <= t.elapsed <= last[1] + eps, "timer.elapsed", "elapsed is not the duration of the last section", elapsed=t.elapsed, between=last, history=history)
                ck.expect(total[0] - eps * 9 <= t.total <= total[1] + eps * 9, "timer.total", "total is not the sum of the sections", total=t.total, between=total, history=history)
                ck.expect(isinstance(str(t), str) and (t.name is None or t.name in str(t)), "timer.text", "text of a timer")
            ck.case(dict(timer=k, history=history), len(history) > 3)


ck.require(**{"repeat.profiling": 15, "repeat.again": 2, "repeat.coexist": 1, "repeat.toggled": 1, "repeat.process": 30, "log.one": 80, "contacts seen": 400, "timer.total": 100, "solver records": 40, "spikes with a single deepest contact": 6})
ck.run(timers, spikes, scenes)
