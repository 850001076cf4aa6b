import copy

import numpy as np
from vh import Check

import ref
import soft
from soft import API

ck = Check("C27", "random histories of up to 40 building calls (18 kinds, valid and invalid: unknown and duplicate names, wrong shapes, out-of-range parameters, degenerate and inverted meshes) over up to 4 soft bodies, 4 materials, with "
                  "hierarchies and with spatial hashing; the whole world is read back after every call and compared with a model of it; arguments are overwritten after each call; non-trivial: histories with at least 5 accepted and 3 rejected calls.")

MODELS = {m: getattr(API, m) for m in soft.MODELS}


def faces(T):
    F = np.concatenate([T[:, [0, 2, 1]], T[:, [0, 1, 3]], T[:, [1, 2, 3]], T[:, [0, 3, 2]]])
    _, first, count = np.unique(np.sort(F, axis=1), axis=0, return_index=True, return_counts=True)
    return {canon(f) for f in F[first[count == 1]]}


def canon(f):
    f = [int(i) for i in f]
    k = f.index(min(f))
    return tuple(f[k:] + f[:k])


class Model:
    def __init__(self):
        self.bodies, self.materials, self.mu = {}, {"default": dict(E=1e5, nu=0.3, c=0.0, rho=1000.0, model="COR")}, {}


def read(e):
    out = dict(bodies={}, materials={}, nodes=int(e.number_of_nodes), hash=(float(e.hash_grid.cell_size),))
    for n, b in e.bodies.items():
        out["bodies"][n] = dict(
            name=b.name, x0=np.array(b.x0), x=np.array(b.x), u=np.array(b.u), T=np.array(b.T), fixed=bool(b.is_fixed), g=np.array(b.gravity, float),
            material=None if b.material_description is None else b.material_description.name, surface=np.array(b.surface), offset=int(b.offset),
            pins=[(int(c.idx), np.array(c.value, float)) for c in b.dirichlet_conditions],
            loads=[((int(c.i), int(c.j), int(c.k)), np.array(c.traction, float)) for c in b.traction_conditions])
    for n, m in e.materials.items():
        cm = [k for k, v in MODELS.items() if v is m.constitutive_model]
        out["materials"][n] = dict(name=m.name, E=float(m.E), nu=float(m.nu), c=float(m.c), rho=float(m.rho), model=cm[0] if cm else repr(m.constitutive_model))
    names = sorted(out["materials"])
    lib = e.surfaces_interactions
    out["mu"] = {}
    for i, a in enumerate(names):
        for b in names[:i + 1]:
            for p in ((a, b), (b, a)):
                ia = lib.get_interaction(*p)
                out["mu"][p] = None if ia is None else float(np.asarray(ia.mu).ravel()[0])
                assert (ia is not None) == bool(lib.exist_interaction(*p))
    return out


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == np.shape(b) and np.array_equal(a, b, equal_nan=True)
    return a == b


def differ(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s/%s only on one side" % (path, k)
            if not same(a[k], b[k]):
                return differ(a[k], b[k], "%s/%s" % (path, k))
    return "%s: %r instead of %r" % (path, str(a)[:200], str(b)[:200])


def compare(ck, e, M, call, others_before, target):
    w = read(e)
    ck.expect(list(w["bodies"]) == list(M.bodies) or set(w["bodies"]) == set(M.bodies), "names.bodies", "the world holds other bodies than were created", got=list(w["bodies"]), want=list(M.bodies), call=call)
    ck.expect(set(w["materials"]) == set(M.materials), "names.materials", "the world holds other materials than were created", got=list(w["materials"]), want=list(M.materials), call=call)
    for n, m in M.bodies.items():
        b = w["bodies"].get(n)
        if b is None:
            continue
        for k in ("name", "fixed", "g", "material", "x", "u", "x0", "T", "pins", "loads"):
            ck.expect(same(m[k], b[k]), "stored." + k, "a body does not hold the value it was given", body=n, call=call, got=b[k] if k not in ("pins", "loads") else b[k][:3], want=m[k] if k not in ("pins", "loads") else m[k][:3], count=len(b[k]) if hasattr(b[k], "__len__") else None)
    for n, m in M.materials.items():
        got = w["materials"].get(n)
        if got:
            want = dict(m, name=n)
            ck.expect(same(want, got), "stored.material", "a material does not hold the values it was given", call=call, got=got, want=want)
    for (a, b), v in w["mu"].items():
        if (a, b) == ("default", "default"):
            continue
        ck.expect(v == M.mu.get(frozenset((a, b))), "stored.friction", "an interaction does not hold the coefficient it was given", pair=(a, b), got=v, want=M.mu.get(frozenset((a, b))), call=call)
    spans = sorted((b["offset"], b["offset"] + len(b["x0"])) for b in w["bodies"].values())
    ck.expect(all(s[0] == (spans[i - 1][1] if i else 0) for i, s in enumerate(spans)) and w["nodes"] == (spans[-1][1] if spans else 0), "node_numbers", "bodies do not own consecutive ranges of the world's nodes", spans=spans, nodes=w["nodes"])
    return w


def new_body(ck, e, M, name, V, T):
    """what the engine made of a mesh: the same solid, nodes possibly renumbered"""
    b = e.bodies[name]
    x0, TT = np.array(b.x0), np.array(b.T)
    ok = x0.shape == V.shape and TT.shape == T.shape
    ck.expect(ok, "mesh.shape", "a body has another number of nodes or elements than its mesh", got=(x0.shape, TT.shape), want=(V.shape, T.shape))
    if ok:
        look = {}
        for i, v in enumerate(V):
            look.setdefault(tuple(v), []).append(i)
        back = [look.get(tuple(v), [-1])[0] for v in x0]
        ck.expect(sorted(back) == list(range(len(V))), "mesh.nodes", "the nodes of a body are not the nodes of its mesh", missing=sum(i < 0 for i in back))
        if sorted(back) == list(range(len(V))):
            back = np.array(back)
            a = sorted(tuple(sorted(int(i) for i in t)) for t in back[TT])
            c = sorted(tuple(sorted(int(i) for i in t)) for t in T)
            ck.expect(a == c, "mesh.elements", "the elements of a body are not the elements of its mesh")
        ck.expect(np.all(soft.volumes(x0, TT) > 0), "mesh.orientation", "an element of a body is turned inside out")
        s = {canon(f) for f in np.array(b.surface)}
        ck.expect(s == faces(TT) and len(np.array(b.surface)) == len(s), "mesh.surface", "the surface of a body is not the boundary of its elements", got=len(s), want=len(faces(TT)))
    M.bodies[name] = dict(name=name, x0=x0.copy(), x=x0.copy(), u=np.zeros_like(x0), T=TT.copy(), fixed=False, g=np.array([0, -9.82, 0]), material=None, pins=[], loads=[])


def bad_mesh(rng):
    V, T = soft.mesh(rng, str(rng.choice(["beam", "two", "ball"])))
    how = str(rng.choice(["inverted", "flat", "duplicate_node"]))
    k = int(rng.integers(len(T)))
    T = T.copy()
    if how == "inverted":
        T[k] = T[k][[1, 0, 2, 3]]
    elif how == "flat":
        V = V.copy()
        V[:, 2] = 0.0
    else:
        T[k, 1] = T[k, 0]
    return how, V, T


def halfspace(rng, x):
    d = rng.normal(size=3)
    h = x @ d
    s = float(rng.choice([np.sort(h)[int(rng.integers(len(h)))] + 1e-9, h.min() - 1, h.max() + 1], p=[0.8, 0.1, 0.1]))
    kind = rng.random()
    if kind < 0.3:
        return lambda p: max(0.0, float(p @ d) - s)        # nothing is negative: zero counts as inside
    flat = kind < 0.5
    f = (lambda p: float(np.sign(float(p @ d) - s))) if flat else (lambda p: float(p @ d) - s)          # zero counts as inside
    return f


def histories(ck):
    rng = ck.rng("histories")
    for it in range(ck.n(300, 4000)):
        if ck.time_left() < 0:
            break
        e = soft.engine(resolution=4, use_spatial_hashing=bool(rng.random() < 0.5))
        M = Model()
        good = bad = 0
        hist = []
        for step in range(int(rng.integers(15, 41))):
            before = read(e)
            bodies, mats = list(M.bodies), list(M.materials)
            ops = ["body", "material", "elasticity", "viscosity", "density", "model", "assign", "pins", "load", "velocity", "coords", "type", "gravity", "interaction", "material_coords"]
            op = str(rng.choice(ops)) if bodies else "body"
            if op == "body" and len(bodies) >= 4:
                op = "assign"
            invalid = rng.random() < 0.35
            n = bodies[int(rng.integers(len(bodies)))] if bodies else "none"
            m = mats[int(rng.integers(len(mats)))]
            if op == "body":
                name = "body%d" % len(bodies)
                how = "ok"
                V, T = soft.mesh(rng)
                V = V + rng.normal(size=3) * rng.choice([0, 10])
                if invalid and bodies and rng.random() < 0.4:
                    name, how = n, "duplicate"
                elif invalid:
                    how, V, T = bad_mesh(rng)
                V0, T0 = V.copy(), T.copy()
                fn = lambda: API.create_soft_body(e, name, V, T)
                arrays = [V, T]

                def apply():
                    ck.expect(np.array_equal(V, V0) and np.array_equal(T, T0), "caller.mesh", "building a body changes the caller's mesh")
                    new_body(ck, e, M, name, V0, T0)
                call = (op, how, name)
                legal = how == "ok"
            elif op == "material":
                name = m if invalid else "mat%d" % len(mats)
                if len(mats) > 4:
                    name, invalid = m, True
                fn = lambda: API.create_material(e, name)
                arrays = []
                apply = lambda: M.materials.__setitem__(name, dict(E=1e5, nu=0.3, c=0.0, rho=1000.0, model="COR"))
                call, legal = (op, name), not invalid
            elif op in ("elasticity", "viscosity", "density", "model"):
                who = "nomat" if invalid and rng.random() < 0.4 else m
                arrays = []
                if op == "elasticity":
                    E, nu = 10 ** rng.uniform(2, 7), rng.uniform(0, 0.49)
                    if rng.random() < 0.1:
                        nu = 0.0
                    if invalid and who == m:
                        E, nu = [(0.0, nu), (-E, nu), (E, -0.01), (E, 0.51), (E, 3.0)][int(rng.integers(5))]
                    fn, apply, call = (lambda: API.set_elasticity(e, who, E, nu)), (lambda: M.materials[who].update(E=E, nu=nu)), (op, who, E, nu)
                elif op == "viscosity":
                    c = float(rng.choice([0.0, rng.uniform(0, 100)]))
                    if invalid and who == m:
                        c = -10 ** rng.uniform(-9, 2)
                    fn, apply, call = (lambda: API.set_viscosity(e, who, c)), (lambda: M.materials[who].update(c=c)), (op, who, c)
                elif op == "density":
                    r = 10 ** rng.uniform(-3, 4)
                    if invalid and who == m:
                        r = -10 ** rng.uniform(-9, 2)
                    fn, apply, call = (lambda: API.set_mass_density(e, who, r)), (lambda: M.materials[who].update(rho=r)), (op, who, r)
                else:
                    k = str(rng.choice(soft.MODELS))
                    obj = MODELS[k] if not (invalid and who == m) else [object(), None, 3, type("Half", (), dict(pk1_stress=1)), type("Half", (), dict(energy_density=1))][int(rng.integers(5))]
                    fn, apply, call = (lambda: API.set_constitutive_model(e, who, obj)), (lambda: M.materials[who].update(model=k)), (op, who, k)
                legal = not invalid
            elif op == "assign":
                who, what = n, m
                if invalid:
                    who, what = [("nobody", m), (n, "nomat")][int(rng.integers(2))]
                fn, apply, arrays, call, legal = (lambda: API.set_material(e, who, what)), (lambda: M.bodies[who].update(material=what)), [], (op, who, what), not invalid
            elif op == "pins":
                who = "nobody" if invalid else n
                phi = halfspace(rng, M.bodies[n]["x0"])
                spoil = rng.random() < 0.3

                def used(p):
                    v = phi(p)
                    return v
                fn = lambda: API.create_dirichlet_conditions(e, who, used)

                def apply():
                    b = M.bodies[who]
                    b["pins"] = b["pins"] + [(i, p.copy()) for i, p in enumerate(b["x0"]) if phi(p) <= 0]
                    ck.event("pinned_nodes", len(b["pins"]))
                arrays, call, legal = [], (op, who), not invalid
            elif op == "load":
                who = n
                load = rng.normal(size=3) * 10
                if invalid:
                    who, load = [("nobody", load), (n, [1.0, 2.0, 3.0]), (n, 3.0)][int(rng.integers(3))]
                phi = halfspace(rng, M.bodies[n]["x0"])
                kept = np.array(load, float)
                fn = lambda: API.create_traction_conditions(e, who, phi, load)

                def apply():
                    b = M.bodies[who]
                    new = [(tuple(int(i) for i in t), kept.copy()) for t in np.array(e.bodies[who].surface) if all(phi(b["x0"][i]) <= 0 for i in t)]
                    b["loads"] = b["loads"] + new
                    ck.event("loaded_faces", len(new))
                arrays, call, legal = [load] if isinstance(load, np.ndarray) else [], (op, who), not invalid
            elif op in ("velocity", "gravity"):
                who, v = n, rng.normal(size=3)
                if invalid:
                    who, v = [("nobody", v), (n, rng.normal(size=2)), (n, rng.normal(size=4)), (n, np.zeros(0))][int(rng.integers(4))]
                kept = v.copy()
                f = API.set_velocity if op == "velocity" else API.set_gravity
                if not invalid and rng.random() < 0.3:
                    v = [float(x) for x in v]
                fn = lambda: f(e, who, v)
                apply = (lambda: M.bodies[who].update(u=np.tile(kept, (len(M.bodies[who]["x0"]), 1)))) if op == "velocity" else (lambda: M.bodies[who].update(g=kept))
                arrays, call, legal = [v] if isinstance(v, np.ndarray) else [], (op, who, kept.tolist()), not invalid
            elif op == "coords":
                who, x = n, M.bodies[n]["x0"] + rng.normal(size=M.bodies[n]["x0"].shape)
                if invalid:
                    who, x = [("nobody", x), (n, x[:-1]), (n, x.T.copy()), (n, np.vstack([x, x[:1]])), (n, x[:, :2])][int(rng.integers(5))]
                    if x.shape == M.bodies[n]["x0"].shape and who == n:
                        continue
                kept = x.copy()
                fn, apply, arrays, call, legal = (lambda: API.set_spatial_coordinates(e, who, x)), (lambda: M.bodies[who].update(x=kept)), [x], (op, who, list(x.shape)), not invalid
            elif op == "type":
                who, t = n, str(rng.choice(["fixed", "free", "Fixed", "FREE", "FiXeD", "Free"]))
                if invalid:
                    who, t = [("nobody", t), (n, "static"), (n, ""), (n, "fixed "), (n, "not fixed")][int(rng.integers(5))]
                fn, apply, arrays, call, legal = (lambda: API.set_type(e, who, t)), (lambda: M.bodies[who].update(fixed=t.lower() == "fixed")), [], (op, who, t), not invalid
            elif op == "interaction":
                a, b = m, mats[int(rng.integers(len(mats)))]
                mu = float(rng.choice([0.0, rng.uniform(0, 2)]))
                pair = frozenset((a, b))
                exists = pair in M.mu or pair == frozenset(["default"])
                if invalid and not exists:
                    a, b, mu = [(a, b, -10 ** rng.uniform(-9, 1)), ("nomat", b, mu), (a, "nomat", mu)][int(rng.integers(3))]
                fn, apply, arrays, call, legal = (lambda: API.create_surfaces_interaction(e, a, b, mu)), (lambda: M.mu.__setitem__(frozenset((a, b)), mu)), [], (op, a, b, mu, "exists" if exists else ""), not (invalid or exists)
            else:
                who = "nobody" if invalid else n
                got = []

                def fn():
                    r = API.get_material_coordinates(e, who)
                    ck.expect(np.array_equal(r, M.bodies[who]["x0"]), "get.material", "the material coordinates are not the ones of the mesh")
                    r[:] = np.nan
                apply, arrays, call, legal = (lambda: None), [], (op, who), not invalid
            hist.append(call)
            ck.case(dict(history=hist[-6:], it=it, step=step), nontrivial=good >= 5 and bad >= 3)
            if legal:
                ok = False
                with ck.guard("legal.exception", "a legal building call raises"):
                    fn()
                    ok = True
                if not ok:
                    break
                good += 1
                apply()
                ck.event("accepted_" + op)
            else:
                err = ck.expect_error(fn, "rejects." + op, "an illegal building call is accepted", call=call)
                bad += 1
                ck.event("rejected_" + op)
                after = read(e)
                ck.expect(same(before, after), "rejected.unchanged", "a rejected call changes the world", call=call, change=differ(after, before))
                if err is None:
                    break
            for a in arrays:
                if a.dtype.kind == "f":
                    a[...] = 1e300
                else:
                    a[...] = -7
            compare(ck, e, M, call, before, None)
        ck.event("histories")


ck.require(histories=10, pinned_nodes=50, loaded_faces=20, rejected_body=4, accepted_body=20)
ck.run(histories)
