import copy

import numpy as np
from vh import Check
import meshes
import ref

import rainbow.simulators.prox_rigid_bodies.api as API

ck = Check("C14", "random histories (40-120 calls) of every building call on two engines at once, about a third of them naming unknown or existing things or carrying illegal values, "
                  "the caller's arrays overwritten after each call; a reference world is compared in full after every call; non-trivial: history with at least one body and one shape.")


def same(a, b, tol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (np.array_equal(a, b) if tol == 0 else np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


class Model:
    def __init__(self):
        self.bodies, self.shapes, self.forces, self.hinges, self.mats = {}, {}, {}, {}, {}
        self.mat_names = {"default"}


class Pair:
    """engine and reference world"""

    def __init__(self, ck):
        self.ck = ck
        self.e = API.create_engine()
        self.e.params.resolution = 4
        self.m = Model()

    def compare(self, op):
        ck, e, m = self.ck, self.e, self.m
        ck.expect(set(e.bodies) == set(m.bodies), "names.bodies", "bodies differ after " + op, got=sorted(e.bodies), want=sorted(m.bodies))
        ck.expect(set(e.shapes) == set(m.shapes), "names.shapes", "shapes differ after " + op)
        ck.expect(set(e.forces) == set(m.forces), "names.forces", "forces differ after " + op)
        ck.expect(set(e.hinges) == set(m.hinges), "names.hinges", "hinges differ after " + op)
        ck.expect(sorted(b.idx for b in e.bodies.values()) == list(range(len(e.bodies))), "body.index", "body indices are no numbering after " + op)
        for n, b in m.bodies.items():
            if n not in e.bodies:
                continue
            g = e.bodies[n]
            bad = []
            for key, get in (("r", API.get_position), ("q", API.get_orientation), ("v", API.get_velocity), ("w", API.get_spin)):
                if not same(get(e, n), b[key], 1e-9):
                    bad.append((key, get(e, n), b[key]))
            if API.is_fixed_body(e, n) != b["fixed"]:
                bad.append(("fixed", API.is_fixed_body(e, n), b["fixed"]))
            if g.material != b["material"]:
                bad.append(("material", g.material, b["material"]))
            if [f.name for f in g.forces] != b["forces"]:
                bad.append(("forces", [f.name for f in g.forces], b["forces"]))
            if (g.shape.name if g.shape is not None else None) != b["shape"]:
                bad.append(("shape", g.shape and g.shape.name, b["shape"]))
            if not same(g.mass, b["mass"], 1e-12) or not same(g.inertia, b["inertia"], 1e-12):
                bad.append(("mass", (g.mass, g.inertia), (b["mass"], b["inertia"])))
            if g.name != n:
                bad.append(("name", g.name, n))
            ck.expect(not bad, "body.values", "a body does not hold what was put into it after " + op, name=n, bad=[(k, str(x)[:60], str(y)[:60]) for k, x, y in bad])
        for n, f in m.forces.items():
            if n not in e.forces:
                continue
            g = e.forces[n]
            if f[0] == "g":
                ok = getattr(g, "g", None) == f[1] and same(getattr(g, "up", np.zeros(3)), f[2], 1e-12)
            else:
                ok = getattr(g, "alpha", None) == f[1] and getattr(g, "beta", None) == f[2]
            ck.expect(ok, "force.values", "a force does not hold what was put into it after " + op, name=n, want=f)
        lib = e.surfaces_interactions
        names = sorted(m.mat_names | {"default", "never-made"})
        for i, A in enumerate(names):
            ck.expect(lib.exist_material(A) == (A in m.mat_names), "material.exists", "material existence is wrong after " + op, name=A)
            for B in names[i:]:
                eps, mu = m.mats.get((A, B), (0.0, np.ones(3)))
                x, y = lib.get_interaction(A, B), lib.get_interaction(B, A)
                ck.expect(x.epsilon == eps and same(x.mu, mu), "material.values", "a material pair does not hold what was put into it (or the defaults) after " + op, pair=(A, B), got=(x.epsilon, x.mu), want=(eps, mu))
                ck.expect(y.epsilon == eps and same(y.mu, mu), "material.order", "material properties depend on the order of the pair after " + op, pair=(A, B))
                ck.expect(lib.exist_interaction(A, B) == lib.exist_interaction(B, A) == ((A, B) in m.mats or A == B == "default"), "material.pair_exists", pair=(A, B))
        for n, h in m.hinges.items():
            if n not in e.hinges:
                continue
            g = e.hinges[n]
            if h is None:
                ck.expect(g.parent is None and g.child is None, "hinge.unset", "a hinge that was never set has links after " + op)
                continue
            P, C = e.bodies[h["parent"]], e.bodies[h["child"]]
            ck.expect(g.parent is P and g.child is C, "hinge.links", "a hinge joins other bodies than asked", name=n)
            ck.expect(same(g.arm_p, h["arm_p"], 1e-8) and same(g.arm_c, h["arm_c"], 1e-8), "hinge.origin",
                      "the joint origin recorded in the links is not where it was asked to be", name=n, got=(g.arm_p, g.arm_c), want=(h["arm_p"], h["arm_c"]))
            ck.expect(same(g.axis_p, h["axis_p"], 1e-8) and same(g.axis_c, h["axis_c"], 1e-8), "hinge.axis",
                      "the joint axis recorded in the links is not the one asked for", name=n, got=(g.axis_p, g.axis_c), want=(h["axis_p"], h["axis_c"]))
        for n, s in m.shapes.items():
            g = e.shapes[n]
            ck.expect(same(g.mesh.V, s["V"]) and np.array_equal(g.mesh.T, s["T"]) and same(g.r, s["r"]) and same(g.q, s["q"]) and g.mass == s["mass"] and same(g.inertia, s["inertia"]),
                      "shape.stable", "a shape changed after " + op, name=n)


def history(ck, it):
    rng = ck.rng("history", str(it))
    P = [Pair(ck), Pair(ck)]
    for k in range(int(rng.integers(40, 120))):
        p = P[int(k >= 14 and rng.random() < 0.25)]
        e, m = p.e, p.m
        pick = lambda known, miss=0.15: ("ghost%d" % rng.integers(3)) if (not known or rng.random() < miss) else sorted(known)[int(rng.integers(len(known)))]
        vec = lambda: rng.normal(size=3) * 10 ** rng.uniform(-2, 2)
        op = str(rng.choice(["body", "shape", "shape", "connect", "pos", "quat", "vel", "spin", "mass", "type", "surf", "mat", "grav", "damp", "attach", "hinge", "sethinge", "sethinge", "unknown"],
                            p=np.array([3, 1, 1, 4, 6, 6, 2, 2, 3, 3, 3, 3, 1.5, 1.5, 4, 1.5, 3, 3, 2]) / 53.5))
        if k < 14:
            op = ["body", "shape", "connect", "body", "surf", "hinge", "body", "shape", "connect", "mass", "grav", "body", "connect", "sethinge"][k]
        legal, apply = True, None
        scratch = []

        def arr(x):
            a = np.array(x, float)
            scratch.append(a)
            return a

        if op == "body":
            n = "b%d" % rng.integers(6)
            legal = n not in m.bodies
            call = lambda: API.create_rigid_body(e, n)

            def apply():
                m.bodies[n] = dict(r=np.zeros(3), q=np.array([1., 0, 0, 0]), v=np.zeros(3), w=np.zeros(3), mass=0.0, inertia=np.zeros(3), shape=None, fixed=False, material="default", forces=[])
        elif op == "shape":
            n = "s%d" % rng.integers(4)
            legal = n not in m.shapes
            V, T = meshes.make(str(rng.choice(["box", "tetra", "lshape", "cone"])), rng)
            V = V @ ref.rand_rot(rng).T + rng.normal(size=3)
            mesh = API.create_mesh(arr(V), T.copy())
            keep = rng.random() < 0.25
            call = (lambda: API.create_shape(e, n, mesh, False)) if keep else (lambda: API.create_shape(e, n, mesh))

            def apply():
                s = e.shapes[n]
                if keep:
                    ck.event("shape_used_as_given")
                    ck.expect(same(s.r, np.zeros(3)) and same(s.q, [1, 0, 0, 0]), "shape.frame_as_given", "a shape used as it is has a model frame of its own", r=s.r, q=s.q)
                back = s.mesh.V @ ref.qmat(s.q).T + s.r
                ck.expect(same(np.sort(np.round(back, 7), axis=0), np.sort(np.round(V, 7), axis=0), 1e-6), "shape.geometry", "the stored shape is not the given mesh")
                m.shapes[n] = dict(V=s.mesh.V.copy(), T=s.mesh.T.copy(), r=s.r.copy(), q=s.q.copy(), mass=s.mass, inertia=np.array(s.inertia))
        elif op == "connect":
            n, s = pick(m.bodies), pick(m.shapes)
            legal = n in m.bodies and s in m.shapes
            call = lambda: API.connect_shape(e, n, s)

            def apply():
                m.bodies[n]["shape"] = s
        elif op in ("pos", "quat"):
            n = pick(m.bodies)
            legal = n in m.bodies
            model = bool(rng.random() < 0.5)
            if legal and m.bodies[n]["shape"] is None:
                model = False
            if op == "pos":
                x = vec()
                a = arr(x)
                call = lambda: API.set_position(e, n, a, use_model_frame=model)
            else:
                x = ref.hostile_unit_quat(rng) * (1.0 if rng.random() < 0.7 else 10 ** rng.uniform(-3, 3))
                a = arr(x)
                call = lambda: API.set_orientation(e, n, a, use_model_frame=model)

            def apply():
                b = m.bodies[n]
                if not model:
                    if op == "pos":
                        b["r"] = x
                    else:
                        b["q"] = x / np.linalg.norm(x)
                    ok_q = np.array(API.get_orientation(e, n))
                    if op == "quat" and ref.same_rot(ok_q, b["q"]) < 1e-9:
                        b["q"] = ok_q
                    return
                s = m.shapes[b["shape"]]
                # model frame origin / orientation in the world before the call
                Rm = ref.qmat(b["q"]) @ ref.qmat(s["q"]).T
                om = b["r"] - Rm @ s["r"]
                if op == "pos":
                    b["r"] = x + Rm @ s["r"]
                else:
                    Rm = ref.qmat(x / np.linalg.norm(x))
                    b["r"] = om + Rm @ s["r"]
                    q = API.get_orientation(e, n)
                    ck.close(ref.qmat(q), Rm @ ref.qmat(s["q"]), "place.model_orientation", "the model frame does not have the orientation asked for", tol=1e-9)
                    b["q"] = q
        elif op in ("vel", "spin"):
            n, x = pick(m.bodies), vec()
            a = arr(x)
            legal = n in m.bodies
            call = lambda: (API.set_velocity if op == "vel" else API.set_spin)(e, n, a)

            def apply():
                m.bodies[n]["v" if op == "vel" else "w"] = x
        elif op == "mass":
            n, rho = pick(m.bodies), float(10 ** rng.uniform(-2, 4))
            legal = n in m.bodies and m.bodies[n]["shape"] is not None
            call = lambda: API.set_mass_properties(e, n, rho)

            def apply():
                s = m.shapes[m.bodies[n]["shape"]]
                m.bodies[n].update(mass=s["mass"] * rho, inertia=s["inertia"] * rho)
        elif op == "type":
            n, t = pick(m.bodies), str(rng.choice(["fixed", "Fixed", "FIXED", "free", "Free", "FREE", "frozen", ""]))
            legal = n in m.bodies and t.lower() in ("fixed", "free")
            call = lambda: API.set_body_type(e, n, t)

            def apply():
                m.bodies[n]["fixed"] = t.lower() == "fixed"
        elif op == "surf":
            A, B = [str(rng.choice(["m0", "M1", "Zinc", "ash", "9", "10", "écorce"])) if rng.random() < 0.85 else "default" for _ in range(2)]
            eps, mu = float(rng.uniform(0, 1)), rng.uniform(0, 2, 3)
            bad = rng.random()
            if bad < 0.08:
                eps = -eps - 0.1
            elif bad < 0.2:
                mu[int(rng.integers(3))] *= -1
            key = tuple(sorted((A, B)))
            legal = key not in m.mats and key != ("default", "default") and eps >= 0 and (mu >= 0).all()
            a = arr(mu) if rng.random() < 0.8 else mu.tolist()
            call = lambda: API.create_surfaces_interaction(e, A, B, eps, a)

            def apply():
                m.mats[key] = (eps, mu)
                m.mat_names.update(key)
        elif op == "mat":
            n, t = pick(m.bodies), pick(m.mat_names, 0.2)
            legal = n in m.bodies and t in m.mat_names
            call = lambda: API.set_body_material(e, n, t)

            def apply():
                m.bodies[n]["material"] = t
        elif op in ("grav", "damp"):
            n = "f%d" % rng.integers(6)
            c = rng.uniform(0.1, 20, 2) * (1 if rng.random() < 0.8 else -1)
            if rng.random() < 0.1:
                c[int(rng.integers(2))] = 0
            c = [float(x) for x in c]
            up = vec()
            a = arr(up)
            legal = n not in m.forces and c[0] > 0 and (op == "grav" or c[1] > 0)
            call = (lambda: API.create_gravity_force(e, n, c[0], a)) if op == "grav" else (lambda: API.create_damping_force(e, n, c[0], c[1]))

            def apply():
                m.forces[n] = ("g", c[0], up / np.linalg.norm(up)) if op == "grav" else ("d", c[0], c[1])
        elif op == "attach":
            n, f = pick(m.bodies), pick(m.forces)
            legal = n in m.bodies and f in m.forces and f not in m.bodies[n]["forces"]
            call = lambda: API.connect_force(e, n, f)

            def apply():
                m.bodies[n]["forces"].append(f)
        elif op == "hinge":
            n = "h%d" % rng.integers(4)
            legal = n not in m.hinges
            call = lambda: API.create_hinge(e, n)

            def apply():
                m.hinges[n] = None
        elif op == "sethinge":
            n, a_, b_ = pick(m.hinges), pick(m.bodies, 0.08), pick(m.bodies, 0.08)
            mode = str(rng.choice(["world", "body", "model", "World", "joint"], p=[.3, .3, .3, .05, .05]))
            legal = n in m.hinges and a_ in m.bodies and b_ in m.bodies and mode in ("world", "body", "model")
            if legal and mode == "model" and m.bodies[a_]["shape"] is None:
                mode = "body"
            if legal and a_ == b_:
                continue
            o, s = rng.normal(size=3) * 3, ref.hostile_axis(rng)
            s = s / np.linalg.norm(s)
            ao, as_ = arr(o), arr(s)
            if mode == "world" and rng.random() < 0.3:
                call = lambda: API.set_hinge(e, n, a_, b_, ao, as_)
            else:
                call = lambda: API.set_hinge(e, n, a_, b_, ao, as_, mode)

            def apply():
                A, B = m.bodies[a_], m.bodies[b_]
                RA, RB = ref.qmat(A["q"]), ref.qmat(B["q"])
                ow, sw = o, s
                if mode == "body":
                    ow, sw = RA @ o + A["r"], RA @ s
                elif mode == "model":
                    S = m.shapes[A["shape"]]
                    Rs = ref.qmat(S["q"])
                    ow, sw = RA @ (Rs.T @ (o - S["r"])) + A["r"], RA @ (Rs.T @ s)
                m.hinges[n] = dict(parent=a_, child=b_, arm_p=RA.T @ (ow - A["r"]), arm_c=RB.T @ (ow - B["r"]), axis_p=RA.T @ sw, axis_c=RB.T @ sw)
        else:
            fns = [lambda: API.get_position(e, "nobody"), lambda: API.get_orientation(e, "nobody"), lambda: API.get_velocity(e, "nobody"), lambda: API.get_spin(e, "nobody"),
                   lambda: API.is_fixed_body(e, "nobody")]
            legal = False
            call = fns[int(rng.integers(len(fns)))]

        ck.event("calls")
        desc = "%s%s" % (op, "" if legal else " (illegal)")
        if legal:
            ck.event("legal." + op)
            with ck.guard("call.exception", "a legal building call raises (%s)" % op):
                call()
                apply()
        else:
            ck.event("illegal." + op)
            ck.expect_error(call, "call.rejects." + op, "an illegal building call (%s) is accepted" % op)
        for a in scratch:
            a += 1e3                                      # the caller goes on using its arrays
        if m.bodies:                                      # so does the reader of a getter's result
            n = sorted(m.bodies)[int(rng.integers(len(m.bodies)))]
            for get in (API.get_position, API.get_orientation, API.get_velocity, API.get_spin):
                x = get(e, n)
                x += 77.0
        for q in P:
            q.compare(desc)
    ck.case(dict(history=it, bodies=len(P[0].m.bodies), shapes=len(P[0].m.shapes), forces=len(P[0].m.forces), hinges=len(P[0].m.hinges), mats=len(P[0].m.mats)),
            nontrivial=bool(P[0].m.bodies and P[0].m.shapes))


def histories(ck):
    for it in range(ck.n(60, 700)):
        if ck.time_left() < 0:
            break
        history(ck, it)


def placement(ck):
    """geometry lands in the world where the call asked: vertices of the original mesh, placed by hand"""
    rng = ck.rng("placement")
    for it in range(ck.n(60, 500)):
        kind = meshes.KINDS[it % len(meshes.KINDS)]
        V, T = meshes.make(kind, rng)
        V = V @ ref.rand_rot(rng).T + rng.normal(size=3) * 3
        ck.case(dict(placement=kind, it=it))
        with ck.guard("place.exception"):
            e = API.create_engine()
            e.params.resolution = 4
            API.create_shape(e, "s", API.create_mesh(V.copy(), T.copy()))
            API.create_rigid_body(e, "b")
            API.connect_shape(e, "b", "s")
            q, r = ref.rand_quat(rng), rng.normal(size=3) * 5
            if it % 2:
                API.set_orientation(e, "b", q, use_model_frame=True)
                API.set_position(e, "b", r, use_model_frame=True)
            else:
                API.set_position(e, "b", r, use_model_frame=True)
                API.set_orientation(e, "b", q, use_model_frame=True)
            b = e.bodies["b"]
            W = b.shape.mesh.V @ ref.qmat(API.get_orientation(e, "b")).T + API.get_position(e, "b")
            want = V @ ref.qmat(q).T + r
            key = lambda X: X[np.lexsort(np.round(X.T, 6))]
            ck.close(key(W), key(want), "place.geometry", "the body's geometry is not where it was placed by its model frame", tol=1e-8)


def names(ck):
    rng = ck.rng("names")
    seen = set()
    for it in range(ck.n(3000, 20000)):
        base = str(rng.choice(["a", "box", "body_1", "link"]))
        with ck.guard("unique.exception"):
            n = API.generate_unique_name(base)
        ck.expect(n not in seen and n.startswith(base), "unique.name", "generate_unique_name returned a name twice or without the wanted one", name=n)
        seen.add(n)
        if it % 100 == 0:
            ck.expect(n.replace("_", "a").isalnum(), "unique.characters", "a generated name has characters a scene file cannot store", name=n)
    ck.case(dict(names=len(seen)))


ck.require(calls=2000)
ck.require(**{"place.geometry": 40, "hinge.origin": 300, "material.values": 1000, "body.values": 3000})
ck.run(histories, placement, names)
