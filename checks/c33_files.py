import ast
import logging
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET
import numpy as np
from vh import Check, REPO
import igl
import meshes
import ref
from rigid import World
import rainbow.simulators.prox_rigid_bodies.api as API
from rainbow.simulators.prox_rigid_bodies.scenes.write_xml import write_xml
from rainbow.simulators.prox_rigid_bodies.scenes.read_urdf import read_urdf

ck = Check("C33", "scene files: engines of 0-8 bodies (shared shapes, odd names, huge and tiny states, materials, forces, hinges, changed parameters, before and after simulating, factory scenes) written and parsed back with the standard XML reader, under changed print options; "
                  "robot files: random trees of 1-9 links (any rpy/xyz of joints, collision and inertial frames, scaled and mirrored meshes in STL/OBJ/PLY files, shuffled tags, virtual links, missing optional tags), placed by an independent forward kinematics; non-trivial: at least two bodies.")

logging.disable(logging.CRITICAL)
ODD = ["a<b", "x&y", 'he said "hi"', "it's", "blå bil", "two words", "tab\tbed", "b1", "1", "æøå", "bød>", "line\nbreak", "[0 1]", "_"]


def numbers(text):
    return np.array([float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", text)])


def pair(text, names):
    """the two materials of an interaction, whatever the notation"""
    try:
        k = ast.literal_eval(text)
        if isinstance(k, (tuple, list)) and len(k) == 2:
            return tuple(k)
    except Exception:  # noqa
        pass
    hits = [(a, b) for a in names for b in names
            if re.fullmatch(r"[\s(\['\"]*" + re.escape(a) + r"['\"]*\s*[,;:/| -]\s*['\"]*" + re.escape(b) + r"[\s)\]'\"]*", text)]
    return hits[0] if len(hits) == 1 else None


def state(e):
    return [(n, b.idx, b.r.tolist(), b.q.tolist(), b.v.tolist(), b.w.tolist(), b.mass, np.ravel(b.inertia).tolist(), b.is_fixed, b.material,
             [f.name for f in b.forces], b.shape.name) for n, b in e.bodies.items()] + [(n, s.mesh.V.tolist(), s.mesh.T.tolist()) for n, s in e.shapes.items()]


def random_engine(ck, rng):
    W = World(resolution=4, envelope=0.01)
    e = W.e
    odd = rng.random() < 0.5
    name = (lambda p, i: "%s %s%d" % (ODD[(i * 5 + len(p)) % len(ODD)], p, i)) if odd else (lambda p, i: "%s%d" % (p, i))
    shapes = [name("shape", i) for i in range(int(rng.integers(1, 4)))]
    for s in shapes:
        V, T = meshes.make(str(rng.choice(["box", "tetra", "octa", "cyl", "lshape"])), rng)
        W.shape(s, V * 10.0 ** rng.uniform(-2, 2), T)
    mats = ["default"] + [["wood", "stone<1>", "ice&snow", "rubber"][i] for i in range(int(rng.integers(0, 4)))]
    pairs = {}
    for i, a in enumerate(mats):
        for b in mats[: i + 1]:
            if (a, b) != ("default", "default") and rng.random() < 0.7:
                eps, mu = float(rng.uniform(0, 1)), rng.uniform(0, 2, size=3)
                API.create_surfaces_interaction(e, a, b, eps, mu)
                pairs[frozenset((a, b))] = (eps, mu.copy())
    used = [m for m in mats if m == "default" or any(m in p for p in pairs)]
    forces = {}
    for i in range(int(rng.integers(0, 4))):
        if rng.random() < 0.5:
            g, up = float(rng.uniform(0.1, 20)), ref.rand_unit(rng)
            API.create_gravity_force(e, name("force", i), g, up)
            forces[name("force", i)] = ("gravity", g, up)
        else:
            a, b = float(10 ** rng.uniform(-9, 1)), float(rng.uniform(0, 1))
            API.create_damping_force(e, name("force", i), a, b)
            forces[name("force", i)] = ("damping", a, b)
    bodies = []
    attached = {}
    for i in range(int(rng.integers(0, 9))):
        k = 10.0 ** rng.uniform(-6, 6)
        fs = [f for f in forces if rng.random() < 0.5]
        q = ref.rand_quat(rng) if rng.random() < 0.8 else np.array([1.0, 0, 0, 0])
        b = W.body(str(rng.choice(shapes)), name=name("body", i), r=rng.normal(size=3) * k, q=q, v=rng.normal(size=3) * k, w=rng.normal(size=3), rho=10.0 ** rng.uniform(-3, 4),
                   fixed=bool(rng.random() < 0.3), forces=fs, material=str(rng.choice(used)))
        attached[b] = fs
        bodies.append(b)
    hinges = {}
    if len(bodies) > 1:
        for i in range(int(rng.integers(0, 4))):
            a, b = [bodies[int(j)] for j in rng.permutation(len(bodies))[:2]]
            h = name("hinge", i)
            API.create_hinge(e, h)
            o = API.get_position(e, a) + rng.normal(size=3)
            s = ref.rand_unit(rng)
            API.set_hinge(e, h, a, b, o, s, mode="world")
            R = ref.qmat(API.get_orientation(e, a))
            hinges[h] = (a, b, R.T @ (o - API.get_position(e, a)), R.T @ s)
    if rng.random() < 0.5:
        for i, b in enumerate(bodies):  # the hinge follows its parent
            API.set_position(e, b, rng.normal(size=3) * 3)
            API.set_orientation(e, b, ref.rand_quat(rng))
    for p in ("time_step", "max_iterations", "gap_reduction", "absolute_tolerance"):
        if rng.random() < 0.5:
            v = getattr(e.params, p)
            setattr(e.params, p, type(v)(v * float(rng.uniform(1.1, 3)) + (1 if isinstance(v, int) else 0)))
    return W, dict(forces=forces, attached=attached, hinges=hinges, pairs=pairs, mats=mats)


def check_file(ck, e, path, info=None, mats=("default",)):
    with ck.guard("xml.well-formed", "the file written can not be parsed"):
        try:
            root = ET.parse(path).getroot()
        except ET.ParseError as err:
            ck.expect(False, "xml.well-formed", "the scene file is not well formed: %s" % err)
            return
    ck.expect(True, "xml.well-formed")
    exact = lambda text, want, mech, msg, **d: ck.expect(text is not None and np.array_equal(numbers(text), np.ravel(np.asarray(want, float))), mech, msg, text=text, want=want, **d)  # noqa: E731
    same = lambda text, want, mech, msg, **d: ck.expect(text == want, mech, msg, text=text, want=want, **d)  # noqa: E731
    bodies = list(root.iter("body"))
    ck.expect([b.get("name") for b in bodies] == list(e.bodies), "xml.bodies", "not one body of the file per body of the engine", file=[b.get("name") for b in bodies], engine=list(e.bodies))
    for x in bodies:
        b = e.bodies.get(x.get("name"))
        if b is None:
            continue
        same(x.get("shape"), b.shape.name, "xml.body-shape", "shape of a body")
        same(x.get("idx"), str(b.idx), "xml.body-idx", "index of a body")
        for attr, v in (("pos", API.get_position(e, b.name)), ("rot", API.get_orientation(e, b.name)), ("vel", API.get_velocity(e, b.name)), ("spin", API.get_spin(e, b.name)), ("mass", [b.mass]), ("inertia", b.inertia)):
            exact(x.get(attr), v, "xml.body-" + attr, "%s of a body is not written with the value it has" % attr)
        same(x.get("is_fixed").lower() in ("true", "1"), bool(API.is_fixed_body(e, b.name)), "xml.body-fixed", "fixed flag of a body")
        same(x.get("material"), b.material, "xml.body-material", "material of a body")
        got = [f.get("name") for f in x.iter("apply")]
        want = [f.name for f in b.forces]
        same(sorted(got), sorted(want), "xml.body-forces", "forces applied to a body")
        if info:
            same(sorted(got), sorted(info["attached"][b.name]), "xml.body-forces", "forces applied to a body")
    fnode = root.find("forces")
    ck.expect(fnode is not None and [f.get("name") for f in fnode] == list(e.forces), "xml.forces", "not one force of the file per force of the engine")
    for f in fnode if fnode is not None else []:
        F = e.forces.get(f.get("name"))
        if F is None:
            continue
        same(f.tag, F.force_type.lower(), "xml.force-type", "type of a force")
        for a in ("g", "up") if f.tag == "gravity" else ("alpha", "beta"):
            exact(f.get(a), getattr(F, a), "xml.force-" + a, "parameter of a force")
        if info:
            kind, a, b = info["forces"][f.get("name")]
            same(f.tag, kind, "xml.force-type", "type of a force")
            ck.close(numbers(f.get("g" if kind == "gravity" else "alpha")), [a], "xml.force-values", "parameter of a force", tol=1e-14, scale=0)
            ck.close(numbers(f.get("up" if kind == "gravity" else "beta")), np.ravel(b), "xml.force-values", "parameter of a force", tol=1e-14, scale=0)
    shapes = list(root.iter("shape"))
    same([s.get("name") for s in shapes], list(e.shapes), "xml.shapes", "not one shape of the file per shape of the engine")
    for x in shapes:
        s = e.shapes.get(x.get("name"))
        if s is None:
            continue
        vs, ts = list(x.iter("v")), list(x.iter("t"))
        same([v.get("idx") for v in vs], [str(i) for i in range(len(s.mesh.V))], "xml.vertices", "vertices are not numbered from 0 up")
        same([t.get("idx") for t in ts], [str(i) for i in range(len(s.mesh.T))], "xml.triangles", "triangles are not numbered from 0 up")
        same(x.find("vertices").get("count"), str(len(s.mesh.V)), "xml.counts", "count of vertices")
        same(x.find("triangles").get("count"), str(len(s.mesh.T)), "xml.counts", "count of triangles")
        if len(vs) == len(s.mesh.V) and len(ts) == len(s.mesh.T):
            ck.expect(np.array_equal(np.array([numbers(v.get("p")) for v in vs]), s.mesh.V), "xml.vertex-values", "vertices of a shape are not written with the values they have")
            ck.expect(np.array_equal(np.array([numbers(t.get("labels")) for t in ts]), s.mesh.T), "xml.triangle-values", "triangles of a shape")
    got = {}
    for x in root.iter("interaction"):
        k = pair(x.get("materials") or "", list(mats))
        if ck.expect(k is not None, "xml.pair", "the materials of an interaction can not be told from the file", text=x.get("materials")):
            ck.expect(frozenset(k) not in got, "xml.pairs", "a pair of materials is written twice", pair=k)
            got[frozenset(k)] = x
    want = {frozenset(k): v for k, v in e.surfaces_interactions.storage.items()}
    same(set(got), set(want), "xml.pairs", "not one interaction of the file per pair of materials")
    for k, v in want.items():
        if k in got:
            exact(got[k].get("friction"), v.mu, "xml.friction", "friction of a pair of materials")
            exact(got[k].get("restitution"), v.epsilon, "xml.restitution", "restitution of a pair of materials")
            if info and k in info["pairs"]:
                exact(got[k].get("friction"), info["pairs"][k][1], "xml.friction", "friction of a pair of materials")
                exact(got[k].get("restitution"), info["pairs"][k][0], "xml.restitution", "restitution of a pair of materials")
    hs = list(root.iter("hinge"))
    same([h.get("name") for h in hs], list(e.hinges), "xml.hinges", "not one hinge of the file per hinge of the engine")
    for x in hs:
        h = e.hinges.get(x.get("name"))
        if h is None:
            continue
        ck.event("hinges written")
        same((x.get("parent"), x.get("child")), (h.parent.name, h.child.name), "xml.hinge-links", "parent and child of a hinge")
        same((x.get("parent-idx"), x.get("child-idx")), (str(h.parent.idx), str(h.child.idx)), "xml.hinge-links", "indices of parent and child of a hinge")
        same(x.get("mode"), "world", "xml.hinge-mode", "origin and axis are given in the world")
        if info:
            a, b, o, s = info["hinges"][h.name]
            same((x.get("parent"), x.get("child")), (a, b), "xml.hinge-links", "parent and child of a hinge")
            R, r = ref.qmat(API.get_orientation(e, a)), API.get_position(e, a)
            ck.close(numbers(x.get("origin")), R @ o + r, "xml.hinge-origin", "origin of a hinge in the world", tol=1e-9, scale=1 + np.linalg.norm(r))
            ck.close(numbers(x.get("axis")), R @ s, "xml.hinge-axis", "axis of a hinge in the world", tol=1e-9)
    params = {p.get("name"): p for p in root.iter("param")}
    want = {k: v for k, v in vars(e.params).items() if not k.startswith("_")}
    ck.expect(set(want) <= set(params), "xml.params", "parameters are missing", missing=sorted(set(want) - set(params)))
    for k, v in want.items():
        if k in params:
            t = params[k].get("value")
            ck.expect(t == str(v) or (isinstance(v, float) and float(t) == v), "xml.param-value", "value of a parameter", name=k, text=t, want=v)
            same(params[k].get("type"), type(v).__name__, "xml.param-type", "type of a parameter", name=k)


def scene_files(ck):
    d = tempfile.mkdtemp(prefix="c33-")
    try:
        for k in range(ck.n(60, 500)):
            rng = ck.rng("xml", k)
            W, info = random_engine(ck, rng)
            e = W.e
            path = os.path.join(d, "scene%d.xml" % (k % 3))  # overwrites earlier, longer and shorter files
            ck.case(dict(kind="xml", k=k, bodies=list(e.bodies), hinges=list(e.hinges)), len(e.bodies) > 1)
            before = state(e)
            old = np.get_printoptions()
            try:
                if rng.random() < 0.5:
                    np.set_printoptions(precision=3, suppress=True, threshold=2, edgeitems=1, linewidth=20)
                    ck.event("print options changed")
                with ck.guard("xml.write", "a scene can not be written"):
                    write_xml(e, path)
            finally:
                np.set_printoptions(**old)
            if not os.path.exists(path):
                continue
            ck.expect(state(e) == before, "xml.observes", "writing the scene changed it")
            check_file(ck, e, path, info, info["mats"])
            with open(path, "rb") as f:
                first = f.read()
            with ck.guard("xml.write", "a scene can not be written"):
                write_xml(e, path + "2")
                with open(path + "2", "rb") as f:
                    ck.expect(first == f.read(), "xml.repeat", "writing the scene twice gives different files")
        for k in range(ck.n(2, 8)):  # after simulating
            rng = ck.rng("xml-sim", k)
            W = World(resolution=6)
            W.shape("s", *meshes.box())
            API.create_gravity_force(W.e, "g", 9.8, np.array([0.0, 1, 0]))
            for i in range(4):
                W.body("s", r=[0.02 * i, 0.98 * i, 0], q=ref.quat(np.array([0, 1.0, 0]), 0.2 * i), fixed=i == 0, forces=["g"])
            API.create_hinge(W.e, "h")
            API.set_hinge(W.e, "h", "b2", "b3", np.array([0, 2.5, 0.]), np.array([0, 0, 1.0]))
            with ck.guard("xml.simulated"):
                W.step(3)
                ck.case(dict(kind="xml-sim", k=k))
                write_xml(W.e, os.path.join(d, "sim.xml"))
                check_file(ck, W.e, os.path.join(d, "sim.xml"))
                ck.event("files of simulated scenes")
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------------------------------- robots
def rpy_matrix(r, p, y):
    return ref.rodrigues(np.array([0, 0, 1.0]), y) @ ref.rodrigues(np.array([0, 1.0, 0]), p) @ ref.rodrigues(np.array([1.0, 0, 0]), r)


def write_mesh(path, V, T, rng):
    ext = os.path.splitext(path)[1].lower()
    if ext == ".obj":
        with open(path, "w") as f:
            f.writelines("v %r %r %r\n" % tuple(map(float, v)) for v in V)
            f.writelines("f %d %d %d\n" % tuple(int(i) + 1 for i in t) for t in T)
    elif ext == ".ply":
        with open(path, "w") as f:
            f.write("ply\nformat ascii 1.0\nelement vertex %d\nproperty double x\nproperty double y\nproperty double z\nelement face %d\nproperty list uchar int vertex_indices\nend_header\n" % (len(V), len(T)))
            f.writelines("%r %r %r\n" % tuple(map(float, v)) for v in V)
            f.writelines("3 %d %d %d\n" % tuple(map(int, t)) for t in T)
    else:
        P = V[T].astype("<f4")
        n = np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0])
        rec = np.zeros(len(T), dtype=[("n", "<f4", 3), ("p", "<f4", (3, 3)), ("a", "<u2")])
        rec["n"], rec["p"] = n / np.linalg.norm(n, axis=1, keepdims=True), P
        with open(path, "wb") as f:
            f.write(b"binary mesh".ljust(80, b" ") + np.uint32(len(T)).tobytes() + rec.tobytes())


class Link:
    pass


def origin_tag(rng, spread, parent):
    """an origin tag (or none at all), and the rotation and translation it means"""
    k = int(rng.choice([0, 1, 1, 2, 3, 4, 5]))
    r = np.zeros(3)
    x = np.zeros(3)
    if k >= 1:
        x = np.round(rng.normal(size=3) * spread * rng.choice([1, 5e-4]), 7)       # also fractions of a millimetre
    if k >= 2:
        r = rng.uniform(-np.pi, np.pi, size=3) if k < 5 else rng.choice([0, np.pi / 2, np.pi, -np.pi / 2], size=3)
        r = np.array([float("%.12g" % a) for a in r])
    if k > 0 or rng.random() < 0.5:
        o = ET.SubElement(parent, "origin")
        if k >= 2 or rng.random() < 0.5:
            o.set("rpy", " ".join(repr(float(a)) for a in r))
        if k >= 1:
            o.set("xyz", "  ".join(repr(float(a)) for a in x))
    return rpy_matrix(*r), x


def robot(ck, rng, d):
    n = int(rng.integers(1, 10))
    fmt = lambda v: " ".join(repr(float(a)) for a in v)  # noqa: E731
    root = ET.Element("robot", name="robbie")
    tags = []
    links = []
    prefix = str(rng.choice(["", "link_", "arm/", "æ "]))
    for i in range(n):
        L = Link()
        L.name = "%slink%d" % (prefix, i)
        tag = ET.Element("link", name=L.name)
        tags.append(tag)
        sub = []
        c = ET.Element("collision")
        L.Rc, L.xc = origin_tag(rng, 0.5, c)
        g = ET.SubElement(c, "geometry")
        if i and rng.random() < 0.35:  # two links share a mesh file
            V, T, fn = links[int(rng.integers(i))].file
            ck.event("shared mesh files")
        else:
            V, T = meshes.make(str(rng.choice(["box", "tetra", "octa", "cyl", "lshape", "hull"])), rng)
            V = V.astype(np.float32).astype(float)
            ext = str(rng.choice([".stl", ".obj", ".ply", ".STL"]))
            fn = "meshes/part%d%s" % (i, ext)
            write_mesh(os.path.join(d, fn), V, T, rng)
        L.file = (V, T, fn)
        m = ET.SubElement(g, "mesh")
        m.set("filename", "package://" + fn if rng.random() < 0.8 else os.path.join(d, fn))
        scale = np.ones(3)
        k = rng.integers(5)
        if k == 1:
            scale = np.full(3, float(rng.choice([0.001, 0.5, 2.0])))
        elif k == 2:
            scale = np.round(rng.uniform(0.2, 3, size=3), 3)
        elif k == 3:
            scale = np.round(rng.uniform(0.2, 3, size=3), 3) * rng.choice([-1, 1], size=3)
        if k:
            m.set("scale", fmt(scale))
        L.V, L.T = V * scale, T
        L.volume = float(np.prod(np.abs(scale)) * ref.mesh_volume_centroid_inertia(V, T)[0])
        sub.append(c)
        if rng.random() < 0.4:  # what is drawn may look different
            v = ET.Element("visual")
            origin_tag(rng, 5.0, v)
            g = ET.SubElement(v, "geometry")
            ET.SubElement(g, "mesh", filename="package://meshes/missing.dae") if rng.random() < 0.5 else ET.SubElement(g, "box", size="1 2 3")
            sub.append(v)
        t = ET.Element("inertial")
        L.Rb, L.xb = origin_tag(rng, 0.5, t)
        L.mass = float(np.round(10.0 ** rng.uniform(-2, 2), 5))
        L.I = np.round(rng.uniform(1, 1.9, size=3) * L.mass, 6)
        L.I = np.maximum(L.I, 1e-5)
        ET.SubElement(t, "mass", value=repr(L.mass))
        a = dict(ixx=repr(float(L.I[0])), iyy=repr(float(L.I[1])), izz=repr(float(L.I[2])))
        if rng.random() < 0.7:
            a.update(ixy="0", ixz="0.0", iyz="0")
        ET.SubElement(t, "inertia", **a)
        sub.append(t)
        for j in rng.permutation(len(sub)):
            tag.append(sub[int(j)])
        links.append(L)
    # the tree: any shape, from chains to stars
    order = [int(i) for i in rng.permutation(n)]
    joints = []
    for k in range(1, n):
        L = links[order[k]]
        P = links[order[k - 1]] if rng.random() < 0.6 else links[order[int(rng.integers(0, k))]]
        j = ET.Element("joint", name="%sjoint%d" % (prefix, k), type="revolute")
        L.parent, L.joint = P, j.get("name")
        L.Rj, L.xj = origin_tag(rng, 4.0, j)
        sub = [ET.Element("parent", link=P.name), ET.Element("child", link=L.name)]
        axis = np.array([1.0, 0, 0])
        if rng.random() < 0.85:
            axis = np.round(rng.normal(size=3), 4) if rng.random() < 0.5 else np.eye(3)[int(rng.integers(3))] * float(rng.choice([-1, 1]))
            sub.append(ET.Element("axis", xyz=fmt(axis)))
        L.axis = axis / np.linalg.norm(axis)
        if rng.random() < 0.5:
            sub.append(ET.Element("limit", lower="-1", upper="2", effort="10", velocity="3"))
        for i in rng.permutation(len(sub)):
            j.append(sub[int(i)])
        tags.append(j)
        joints.append(L)
    # links without geometry: a virtual base, tool frames
    if rng.random() < 0.5:
        tags.append(ET.Element("link", name="tool0"))
        j = ET.Element("joint", name="to_tool", type="fixed")
        ET.SubElement(j, "origin", xyz="1 2 3", rpy="0.1 0.2 0.3")
        ET.SubElement(j, "parent", link=links[order[-1]].name)
        ET.SubElement(j, "child", link="tool0")
        tags.append(j)
        ck.event("robots with virtual links")
    if rng.random() < 0.3:
        tags.append(ET.Element("link", name="world_base"))
        j = ET.Element("joint", name="to_base", type="fixed")
        ET.SubElement(j, "parent", link="world_base")
        ET.SubElement(j, "child", link=links[order[0]].name)
        tags.append(j)
    for i in rng.permutation(len(tags)):
        root.append(tags[int(i)])
    tr = ET.SubElement(root, "transmission", name="t")
    ET.SubElement(tr, "type").text = "x"
    # forward kinematics
    links[order[0]].parent = None
    for k in order:
        L = links[k]
        if L.parent is None:
            L.R, L.x = np.eye(3), np.zeros(3)
        else:
            L.R, L.x = L.parent.R @ L.Rj, L.parent.R @ L.xj + L.parent.x
    fn = str(rng.choice(["robot.urdf", "urdf/robot.urdf"]))
    os.makedirs(os.path.join(d, "urdf"), exist_ok=True)
    ET.ElementTree(root).write(os.path.join(d, fn), encoding="utf-8", xml_declaration=True)
    return links, joints, fn, links[order[0]].name


def hausdorff(A, B):
    """largest distance of a point of A or B to the other set"""
    D = np.linalg.norm(A[:, None, :] - B[None, :, :], axis=2)
    return float(max(D.min(axis=0).max(), D.min(axis=1).max()))


def check_robot(ck, e, links, joints, tol=1e-6):
    ck.expect(set(e.bodies) == {L.name for L in links}, "urdf.bodies", "not one body per link", bodies=list(e.bodies), links=[L.name for L in links])
    ck.expect(set(e.hinges) == {L.joint for L in joints}, "urdf.hinges", "not one hinge per joint", hinges=list(e.hinges), joints=[L.joint for L in joints])
    for L in links:
        if L.name not in e.bodies:
            continue
        b = e.bodies[L.name]
        r, q = API.get_position(e, L.name), API.get_orientation(e, L.name)
        ck.close(r, L.R @ L.xb + L.x, "urdf.position", "a link is not where its joint chain puts it", tol=1e-9, link=L.name)
        ck.close(ref.qmat(q), L.R @ L.Rb, "urdf.orientation", "a link is not turned as its joint chain says", tol=1e-9, link=L.name)
        W = b.shape.mesh.V @ ref.qmat(q).T + r
        want = (L.V @ L.Rc.T + L.xc) @ L.R.T + L.x
        size = float(np.ptp(want, axis=0).max())
        ck.expect(hausdorff(W, want) <= 1e-6 * (size + np.abs(want).max()), "urdf.geometry", "the surface of a link is not the one described, where it should be", link=L.name, got=W[:4], want=want[:4], off=hausdorff(W, want), size=size)
        if L.volume is not None:
            vol = ref.mesh_volume_centroid_inertia(b.shape.mesh.V, b.shape.mesh.T)[0]
            ck.close(vol / L.volume, 1.0, "urdf.volume", "volume of a link (negative: turned inside out)", tol=1e-5, link=L.name)
        ck.close(b.mass, L.mass, "urdf.mass", "mass of a link", tol=1e-12, link=L.name)
        ck.close(b.inertia, L.I, "urdf.inertia", "inertia of a link", tol=1e-12, link=L.name)
        ck.expect(not np.any(API.get_velocity(e, L.name)) and not np.any(API.get_spin(e, L.name)), "urdf.at-rest", "a link is not at rest")
    for L in joints:
        if L.joint not in e.hinges:
            continue
        h = e.hinges[L.joint]
        if not ck.expect(h.parent is e.bodies[L.parent.name] and h.child is e.bodies[L.name], "urdf.hinge-links", "a hinge joins other links", hinge=L.joint):
            continue
        ck.event("joints")
        scale = 1 + np.abs(L.x).max()
        for b, s in ((h.parent, h.socket_p), (h.child, h.socket_c)):
            R = ref.qmat(b.q)
            ck.close(R @ s.r + b.r, L.x, "urdf.hinge-origin", "a hinge is not at the origin of its joint", tol=1e-9, scale=scale, hinge=L.joint, seen_from=b.name)
            ck.close(R @ ref.qmat(s.q)[:, 2], L.R @ L.axis, "urdf.hinge-axis", "a hinge does not turn about the axis of its joint", tol=1e-7, hinge=L.joint, seen_from=b.name)


def robot_files(ck):
    for k in range(ck.n(40, 400)):
        rng = ck.rng("urdf", k)
        d = os.path.join(tempfile.gettempdir(), "c33-robot")  # the files of one robot replace those of the last
        try:
            os.makedirs(os.path.join(d, "meshes"))
            links, joints, fn, base = robot(ck, rng, d)
            ck.case(dict(kind="urdf", k=k, links=[(L.name, L.parent.name if L.parent else None) for L in links]), len(links) > 1)
            e = API.create_engine()
            e.params.resolution = 4
            e.params.envelope = 0.01
            if rng.random() < 0.3:  # something else is there already
                V, T = meshes.box()
                API.create_shape(e, "other", API.create_mesh(V, T))
                API.create_rigid_body(e, "other body")
                API.connect_shape(e, "other body", "other")
                API.set_position(e, "other body", np.array([1e3, 0, 0]))
            else:
                V = None
            files = {f: open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}
            done = False
            with ck.guard("urdf.read", "a robot description can not be read"):
                read_urdf(e, d, fn)
                done = True
            if not done:
                continue
            ck.expect(files == {f: open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}, "urdf.files", "reading changed files")
            if V is not None:
                ck.close(API.get_position(e, "other body"), [1e3, 0, 0], "urdf.undisturbed", "reading moved a body that was there before", tol=0)
                del e.bodies["other body"]
                # keep the engine usable for the comparison below
            check_robot(ck, e, links, joints)
            ck.event("links", len(links))
            if V is None:
                ck.expect_error(lambda: read_urdf(e, d, fn), "urdf.duplicate", "reading the same robot twice was not refused")
                e2 = API.create_engine()
                e2.params.resolution, e2.params.envelope = 4, 0.01
                with ck.guard("urdf.read"):
                    read_urdf(e2, d, fn)
                    ck.expect(state(e) == state(e2), "urdf.repeat", "reading a robot again gives another one")
                    for L in links:  # placed by the frame of the mesh, which is the body frame
                        r = rng.normal(size=3)
                        API.set_position(e2, L.name, r, use_model_frame=True)
                        ck.close(API.get_position(e2, L.name), r, "urdf.model-frame", "links keep the frame of the file as their model frame", tol=1e-12)
                    with ck.guard("urdf.xml"):
                        write_xml(e, os.path.join(d, "robot.xml"))
                        check_file(ck, e, os.path.join(d, "robot.xml"))
        finally:
            shutil.rmtree(d)


def stored_robot(ck):
    """the robot that comes with the repository, read by an independent walk over its file"""
    folder = os.path.join(REPO, "data", "urdf")
    path = os.path.join(folder, "ur_description", "ur5e.urdf")
    if not os.path.exists(path):
        return
    root = ET.parse(path).getroot()
    vec = lambda t, a: np.array([float(x) for x in (t.get(a) if t is not None and t.get(a) else "0 0 0").split()])  # noqa: E731
    links, by = [], {}
    for t in root.findall("link"):
        if t.find("collision") is None:
            continue
        L = Link()
        L.name, L.parent, L.volume = t.get("name"), None, None
        o = t.find("inertial/origin")
        L.Rb, L.xb = rpy_matrix(*vec(o, "rpy")), vec(o, "xyz")
        o = t.find("collision/origin")
        L.Rc, L.xc = rpy_matrix(*vec(o, "rpy")), vec(o, "xyz")
        L.mass = float(t.find("inertial/mass").get("value"))
        i = t.find("inertial/inertia")
        L.I = np.array([float(i.get(a)) for a in ("ixx", "iyy", "izz")])
        V, _ = igl.read_triangle_mesh(os.path.join(folder, t.find("collision/geometry/mesh").get("filename").replace("package://", "")))
        L.V = V
        links.append(L)
        by[L.name] = L
    joints = []
    for j in root.findall("joint"):
        if j.get("type") != "revolute":
            continue
        L = by[j.find("child").get("link")]
        L.parent, L.joint = by[j.find("parent").get("link")], j.get("name")
        L.Rj, L.xj = rpy_matrix(*vec(j.find("origin"), "rpy")), vec(j.find("origin"), "xyz")
        a = vec(j.find("axis"), "xyz")
        L.axis = a / np.linalg.norm(a)
        joints.append(L)

    def frame(L):
        if L.parent is None:
            return np.eye(3), np.zeros(3)
        R, x = frame(L.parent)
        return R @ L.Rj, R @ L.xj + x

    for L in links:
        L.R, L.x = frame(L)
    e = API.create_engine()
    e.params.resolution = 4
    ck.case(dict(kind="stored", file="ur5e.urdf"))
    # the hausdorff distance of the full meshes is costly: keep every vertex, compare by nearest neighbours
    with ck.guard("urdf.read", "the stored robot can not be read"):
        read_urdf(e, folder, "ur_description/ur5e.urdf")
        for L in links:
            b = e.bodies[L.name]
            r, q = API.get_position(e, L.name), API.get_orientation(e, L.name)
            ck.close(r, L.R @ L.xb + L.x, "urdf.position", "a link is not where its joint chain puts it", tol=1e-9, link=L.name)
            ck.close(ref.qmat(q), L.R @ L.Rb, "urdf.orientation", "orientation of a link", tol=1e-9, link=L.name)
            W = b.shape.mesh.V @ ref.qmat(q).T + r
            want = (L.V @ L.Rc.T + L.xc) @ L.R.T + L.x
            ck.close(np.sort(W, axis=0), np.sort(want, axis=0), "urdf.stored-geometry", "the surface of a link is not the one described", tol=1e-9)
            ck.close(b.mass, L.mass, "urdf.mass", tol=1e-12)
        for L in joints:
            h = e.hinges[L.joint]
            for b, s in ((h.parent, h.socket_p), (h.child, h.socket_c)):
                ck.close(ref.qmat(b.q) @ s.r + b.r, L.x, "urdf.hinge-origin", "origin of a hinge", tol=1e-9)
                ck.close(ref.qmat(b.q) @ ref.qmat(s.q)[:, 2], L.R @ L.axis, "urdf.hinge-axis", "axis of a hinge", tol=1e-7)
        ck.event("stored robots")


ck.require(**{"xml.body-pos": 20, "xml.hinge-axis": 10, "xml.pairs": 20, "urdf.geometry": 50, "joints": 40, "robots with virtual links": 3, "print options changed": 5, "shared mesh files": 10})
ck.run(scene_files, robot_files, stored_robot)
