import numpy as np
from vh import Check

import ref
import soft
from soft import API

ck = Check("C25", "worlds of 1-3 separated soft bodies of 4 mesh families x 3 material models x gravity, damping, surface loads, pins (none, some, all nodes), fixed and free, lumped; random histories of up to 8 calls (simulate for "
                  "whole and broken numbers of steps, velocities, densities, viscosities, types, pins, loads, gravity and bodies added in between) against an independent stepper; non-trivial: at least one simulated call "
                  "with a deformed or pinned body.")


def rotation(rng):
    q = rng.normal(size=4)
    return ref.qmat(q / np.linalg.norm(q))


def add(rng, e, B, kind=None, like=None):
    V, T = soft.mesh(rng, kind)
    k = len(B)
    V = V @ rotation(rng).T + np.array([20.0 * k, 0, 0]) + rng.normal(size=3)
    rho = 10 ** rng.uniform(1, 4)
    if like is not None:
        b = soft.Body(e, "b%d" % k, V, T, model=like.model, E=like.E, nu=like.nu, rho=like.rho, c=like.c, g=rng.normal(size=3) * rng.choice([0, 10.0]), material=like.material)
        B.append(b)
        return b
    b = soft.Body(e, "b%d" % k, V, T, model=str(rng.choice(soft.MODELS)), E=rho * 10 ** rng.uniform(0, 2.5), nu=rng.uniform(0, 0.4), rho=rho,
                  c=float(rng.choice([0.0, rho * rng.uniform(0, 5)])), g=rng.normal(size=3) * rng.choice([0, 10.0]))
    B.append(b)
    return b


def halfspace(rng, b):
    d = rng.normal(size=3)
    h = b.x0 @ d
    s = float(rng.choice([np.sort(h)[int(rng.integers(len(h)))] + 1e-9, h.min() - 1, h.max() + 1], p=[0.8, 0.1, 0.1]))
    return (lambda p: float(p @ d) - s), h - s


def worlds(ck):
    rng = ck.rng("worlds")
    for it in range(ck.n(60, 700)):
        if ck.time_left() < 0:
            break
        e = soft.engine(resolution=5, use_spatial_hashing=bool(rng.random() < 0.3))
        B = []
        with ck.guard("create.exception"):
            for _ in range(int(rng.integers(1, 3))):
                add(rng, e, B)
        if ck.violations:
            return
        elapsed, history, interesting = 0, [], False
        dt = 1e-3
        for op in range(int(rng.integers(3, 9))):
            call = str(rng.choice(["simulate", "velocity", "density", "viscosity", "type", "pins", "load", "gravity", "deform", "body"], p=[0.4, 0.1, 0.06, 0.06, 0.06, 0.08, 0.08, 0.04, 0.06, 0.06]))
            if op == 0 and rng.random() < 0.5:
                call = "deform"
            b = B[int(rng.integers(len(B)))]
            history.append(call)
            ck.case(dict(world=it, history=list(history), bodies=[(x.model, len(x.T), x.fixed, len(x.pins), len(x.loads)) for x in B]), nontrivial=interesting and call == "simulate")
            with ck.guard("call.exception", "a legal call raises"):
                if call == "velocity":
                    API.set_velocity(e, b.name, rng.normal(size=3) * 0.5)
                elif call == "density":
                    b.rho *= rng.uniform(0.7, 1.5)
                    API.set_mass_density(e, b.material, b.rho)
                elif call == "viscosity":
                    b.c = float(rng.choice([0.0, b.rho * rng.uniform(0, 5)]))
                    API.set_viscosity(e, b.material, b.c)
                elif call == "type":
                    b.fixed = not b.fixed
                    API.set_type(e, b.name, "fixed" if b.fixed else "free")
                elif call == "pins":
                    pin(rng, e, b)
                    interesting = interesting or bool(b.pins)
                elif call == "load":
                    load(rng, e, b)
                elif call == "gravity":
                    b.g = rng.normal(size=3) * 5
                    g = b.g.copy()
                    API.set_gravity(e, b.name, g)
                    g[:] = np.nan
                elif call == "deform":
                    x, u = b.state()
                    s = 0.05 * np.ptp(b.x0, axis=0).min() / 4
                    y = x + s * rng.normal(size=x.shape)
                    if np.all(soft.volumes(y, b.T) > 0.3 * b.vol):
                        API.set_spatial_coordinates(e, b.name, y)
                        y[:] = np.nan
                        interesting = True
                elif call == "body" and len(B) < 3:
                    add(rng, e, B)
                elif call == "simulate":
                    elapsed += simulate(ck, rng, e, B, dt)
            if ck.violations:
                return


def crowd(ck):
    """three small bodies, each with its own pins, loads and type, changed again and again between simulations"""
    rng = ck.rng("crowd")
    for it in range(ck.n(14, 200)):
        if ck.time_left() < 0:
            break
        e = soft.engine(resolution=4, use_spatial_hashing=bool(rng.random() < 0.3))
        B = []
        for k in range(3):
            with ck.guard("create.exception"):
                add(rng, e, B, str(rng.choice(["tet", "two", "beam"])), B[0] if k == 2 and rng.random() < 0.6 else None)
                pin(rng, e, B[-1])
                if rng.random() < 0.4:
                    load(rng, e, B[-1])
            if ck.violations:
                return
        for op in range(4):
            for b in B:
                with ck.guard("call.exception", "a legal call raises"):
                    if rng.random() < 0.3:
                        pin(rng, e, b)
                    if rng.random() < 0.2:
                        load(rng, e, b)
                    if rng.random() < 0.15:
                        b.fixed = not b.fixed
                        API.set_type(e, b.name, "fixed" if b.fixed else "free")
                    if rng.random() < 0.5:
                        API.set_velocity(e, b.name, rng.normal(size=3) * 0.5)
                    if rng.random() < 0.25:
                        for what in rng.permutation(3)[:int(rng.integers(1, 3))]:  # never all of them: one must not do another's work
                            if what == 0:
                                b.rho *= rng.uniform(0.7, 1.5)
                                API.set_mass_density(e, b.material, b.rho)
                            elif what == 1:
                                b.c = float(rng.choice([0.0, b.rho * rng.uniform(0, 5)]))
                                API.set_viscosity(e, b.material, b.c)
                            else:
                                b.E *= rng.uniform(0.7, 1.5)
                                API.set_elasticity(e, b.material, b.E, b.nu)
                        for o in B:
                            if o.material == b.material:
                                o.rho, o.c, o.E = b.rho, b.c, b.E
                                ck.event("shared_materials", o is not b)
                    if rng.random() < 0.1:
                        o = B[int(rng.integers(3))]
                        if b.loads and o.E < b.E:
                            continue               # the loads would crush it
                        API.set_material(e, b.name, o.material)
                        ck.event("reassigned", o.material != b.material)
                        b.material, b.rho, b.c, b.E, b.nu, b.model = o.material, o.rho, o.c, o.E, o.nu, o.model
            if ck.violations:
                return
            ck.case(dict(crowd=it, op=op, bodies=[(x.model, len(x.T), x.fixed, len(x.pins), len(x.loads)) for x in B]))
            with ck.guard("call.exception", "a legal call raises"):
                simulate(ck, rng, e, B, None, 6)
            if ck.violations:
                return
            ck.event("later_bodies_pinned", sum(bool(b.pins) for b in B[1:]))
            ck.event("partly_pinned", sum(0 < len(b.pins) < len(b.x0) for b in B))


def pin(rng, e, b):
    phi, h = halfspace(rng, b)
    API.create_dirichlet_conditions(e, b.name, phi)
    for i in np.flatnonzero(h <= 0):
        b.pins[int(i)] = b.x0[i].copy()


def load(rng, e, b):
    phi, h = halfspace(rng, b)
    f = rng.normal(size=3) * b.E * 0.02
    API.create_traction_conditions(e, b.name, phi, f)
    for t in np.array(b.b.surface):
        if np.all(h[t] <= 0):
            b.loads.append((tuple(int(i) for i in t), f.copy()))
    f[:] = np.nan                   # the engine has its own copy


def simulate(ck, rng, e, B, _, most=30):
    # explicit integration needs small steps for stiff and small elements
    dt = min(0.05 * np.min(soft.volumes(b.x0, b.T)) ** (1 / 3) / np.sqrt((soft.lame(b.E, b.nu)[0] + 2 * b.E) / b.rho) for b in B)
    dt = min(dt, 5e-3, *(0.1 * b.rho / b.c for b in B if b.c > 0))
    dt = float(dt) * rng.uniform(0.3, 1)
    e.params.time_step = dt
    whole = int(rng.integers(1, most))
    part = float(rng.choice([0.0, 0.0, rng.uniform(0.05, 0.95)]))
    T = (whole + part) * dt
    start = {b.name: b.state() for b in B}
    want = {}
    for b in B:
        x, u = start[b.name]
        for s in [dt] * whole + ([part * dt] if part else []):
            x, u = b.step(x, u, s)
            if not np.all(soft.volumes(x, b.T) > 0.01 * b.vol):
                ck.event("crushed")            # loads or noise turn an element inside out: nothing to compare
                return 0
        want[b.name] = x, u
    logs = len(API.get_log(e)) if e.stepper else 0
    API.simulate(e, T, True)
    log = [l for l in API.get_log(e)[logs:] if "dt" in l]
    steps = [l["dt"] for l in log]
    ck.close(sum(steps), T, "time.sum", "the steps do not add up to the duration", tol=1e-12, scale=1e-300, steps=steps[-3:], whole=whole, part=part)
    ck.expect(len(steps) == whole + (part > 0), "time.count", "a duration takes more or fewer steps than it has room for", steps=len(steps), whole=whole, part=part, last=steps[-1] / dt)
    ck.expect(all(abs(s - dt) <= 1e-9 * dt for s in steps[:whole]), "time.size", "a step has not the configured size", steps=steps[:4], dt=dt)
    if any(l.get("contact_points") for l in log):
        ck.event("contacts")                      # bodies folding into themselves are C26's business
        return T
    potential, elastic = 0.0, 0.0
    for b in B:
        x, u = start[b.name]
        P = [(b.mass[:, None] * u).sum(axis=0)]
        x, u = want[b.name]
        x1, u1 = b.state()
        size = np.ptp(b.x0, axis=0).max()
        speed = max(np.abs(u).max(), size * 1e-3, T * np.abs(b.g).max())
        ck.close((x1 - x) / size, np.zeros_like(x), "positions", "nodes are not where the equations of motion put them", tol=1e-8, model=b.model, pins=len(b.pins), fixed=b.fixed, steps=len(steps))
        ck.close((u1 - u) / speed, np.zeros_like(u), "velocities", "nodes do not move as the equations of motion say", tol=1e-7, model=b.model, pins=len(b.pins), fixed=b.fixed, steps=len(steps))
        for i, p in b.pins.items():
            ck.expect(np.array_equal(x1[i], p) and not u1[i].any(), "pins", "a pinned node moved", node=i, x=x1[i], pin=p, u=u1[i])
        if b.fixed:
            free = [i for i in range(len(x1)) if i not in b.pins]
            ck.expect(np.array_equal(x1[free], start[b.name][0][free]) and not u1.any(), "fixed", "a fixed body moved", moved=float(np.abs(x1 - start[b.name][0]).max()))
            continue
        if not b.pins and not b.loads:
            M = b.mass.sum()
            gone = (b.mass[:, None] * u1).sum(axis=0)
            if b.c == 0:
                ck.close((gone - P[0]) / M / speed, T * b.g / speed, "momentum", "the momentum does not change by gravity times time", tol=1e-9)
                X0, U0 = start[b.name]
                m = b.mass[:, None]
                c0, c1 = (m * X0).sum(axis=0) / M, (m * x1).sum(axis=0) / M
                L0 = np.cross(X0 - c0, m * U0).sum(axis=0)
                L1 = np.cross(x1 - c1, m * u1).sum(axis=0)
                ck.close(L1 / (M * size * speed), L0 / (M * size * speed), "spin", "the angular momentum about the centre changes", tol=1e-8)
        potential -= float(np.sum(b.mass[:, None] * x1 * b.g))
        elastic += b.stored(x1)
    if log:
        scale = 1 + abs(potential) + sum(b.mass.sum() * np.abs(b.g).max() * 30 for b in B)
        ck.close(log[-1]["potential_energy"] / scale, potential / scale, "log.potential", "the reported potential energy is wrong", tol=1e-10)
        scale = sum(b.E * b.vol.sum() for b in B)
        ck.close(log[-1]["elastic_energy"] / scale, elastic / scale, "log.elastic", "the reported elastic energy is wrong", tol=1e-9)
    return T


def simple(ck):
    """free fall, rest, masses and load totals"""
    rng = ck.rng("simple")
    for it in range(ck.n(40, 400)):
        if ck.time_left() < 0:
            break
        kind = ["fall", "rest", "load"][it % 3]
        e = soft.engine(resolution=5, use_spatial_hashing=bool(it % 2))
        V, T = soft.mesh(rng)
        rho = 10 ** rng.uniform(1, 4)
        g = rng.normal(size=3) * 10 if kind == "fall" else np.zeros(3)
        with ck.guard("simple.exception", "a plain world raises"):
            size = 10 ** rng.uniform(-3, 2) if kind == "load" and it % 2 else 1.0
            b = soft.Body(e, "b", V * size, T, model=str(rng.choice(soft.MODELS)), E=rho * 10, nu=0.3, rho=rho, g=g)
            ck.case(dict(kind=kind, model=b.model, nodes=len(V), g=g))
            v = rng.normal(size=3) if kind == "fall" else np.zeros(3)
            load = rng.normal(size=3)
            if kind == "load":
                API.create_traction_conditions(e, "b", lambda p: -1.0, load)
            API.set_velocity(e, "b", v)
            n, dt = int(rng.integers(1, 12)), 1e-3 if kind != "load" else 1e-6 * size
            e.params.envelope *= size
            e.params.time_step = dt
            x0, _ = b.state()
            API.simulate(e, n * dt)
        if ck.violations:
            return
        x1, u1 = b.state()
        ck.expect(len(e.contact_points) == 0, "simple.contacts", "a lone body touches something", n=len(e.contact_points))
        if kind == "fall":
            want = x0 + n * dt * v + dt * dt * g * n * (n + 1) / 2
            ck.close(x1, want, "fall", "a free body does not fall as a rigid one", tol=1e-10)
            ck.close(u1, np.tile(v + n * dt * g, (len(x1), 1)), "fall.speed", "a free body does not speed up by gravity", tol=1e-8)
        elif kind == "rest":
            ck.close(x1, x0, "rest", "a body at rest moves", tol=1e-13)
        else:
            S = np.array(b.b.surface)
            area = 0.5 * np.linalg.norm(np.cross(V_(b)[S[:, 1]] - V_(b)[S[:, 0]], V_(b)[S[:, 2]] - V_(b)[S[:, 0]]), axis=1).sum()
            gained = (b.mass[:, None] * u1).sum(axis=0) / (n * dt)
            ck.close(gained, area * load, "load.total", "surface loads do not add up to load times area", tol=1e-5, scale=area * np.abs(load).max())


def matrices(ck):
    """element matrices, lumped and consistent, their assembly and their products"""
    import rainbow.simulators.prox_soft_bodies.solver as S
    rng = ck.rng("matrices")
    for it in range(ck.n(24, 300)):
        if ck.time_left() < 0:
            break
        V, T = soft.mesh(rng)
        V, T = V @ rotation(rng).T * 10 ** rng.uniform(-2, 2), np.asarray(T)
        vol = np.abs(np.einsum("ei,ei->e", V[T[:, 1]] - V[T[:, 0]], np.cross(V[T[:, 2]] - V[T[:, 0]], V[T[:, 3]] - V[T[:, 0]]))) / 6
        k = 10 ** rng.uniform(-2, 4)
        lumped = bool(it % 2)
        N = len(V)
        ck.case(dict(matrices=it, lumped=lumped, nodes=N))
        with ck.guard("matrices.exception"):
            A = (S.Native.compute_mass_element_array if it % 4 < 2 else S.Native.compute_damping_element_array)(k, vol, T, lumped)
            G = S.ElementArrayUtil.assembly_csr(N, T, A)
            want = np.zeros((N, N))
            for t, w in zip(T, vol):
                want[np.ix_(t, t)] += k * w * (np.eye(4) / 4 if lumped else (np.ones((4, 4)) + np.eye(4)) / 20)
            want = np.kron(want, np.eye(3))
            top = np.abs(want).max()
            ck.close(G.toarray(), want, "matrix.assembled", "the assembled matrix is not the sum of the element matrices of linear shape functions", tol=1e-12, scale=top, lumped=lumped)
            x = rng.normal(size=(N, 3))
            y = want @ x.ravel()
            keep = x.copy()
            ck.close(S.ElementArrayUtil.prod_mat_vec(T, A, x).ravel(), y, "matrix.product", "a product without assembly is another one", tol=1e-12, scale=top * 10, lumped=lumped)
            ck.close(S.ElementArrayUtil.prod_mat_vec(T, A, x.ravel().copy()), y, "matrix.product_flat", "a product with a flat vector is another one", tol=1e-12, scale=top * 10, lumped=lumped)
            # with random blocks
            A = rng.normal(size=A.shape)
            D = np.zeros((3 * N, 3 * N))
            for e, t in enumerate(T):
                for i in range(4):
                    for j in range(4):
                        D[3 * t[i]:3 * t[i] + 3, 3 * t[j]:3 * t[j] + 3] += A[e, i, j]
            B = A.copy()
            ck.close(S.ElementArrayUtil.assembly_csr(N, T, A).toarray(), D, "matrix.assembled_any", "blocks are assembled in other places", tol=1e-12, scale=10)
            ck.close(S.ElementArrayUtil.prod_mat_vec(T, A, x).ravel(), D @ x.ravel(), "matrix.product_any", "a product without assembly is another one", tol=1e-12, scale=100)
            ck.expect(np.array_equal(A, B) and np.array_equal(x, keep), "matrix.arguments", "assembly changes its arguments")


def V_(b):
    return b.x0


ck.require(shared_materials=1, reassigned=1, later_bodies_pinned=25, partly_pinned=20, positions=80, velocities=80, pins=100, fixed=5, momentum=15, spin=15, fall=10, rest=10, **{"load.total": 10, "time.sum": 80})
ck.require(**{"matrix.assembled": 10})
ck.run(matrices, crowd, worlds, simple)
