import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
from vh import Check
import meshes
import ref
from rainbow.util.USD import USD
from pxr import Gf, Usd, UsdGeom

ck = Check("C31", "recordings of 1-6 rigid bodies and deforming meshes (triangles, quads, mixed polygons; integer, single and double precision arrays; sizes 1e-3..1e5), 0-25 samples each at unsorted, repeated, fractional and negative times, saved once or repeatedly as text and binary files, "
                  "two recorders at once, recordings of simulated scenes; read back with the USD library itself; non-trivial: at least two samples of something.")
EPS = 2.0 ** -23
NAMES = ["box", "Body_1", "_x", "a", "wheel_12", "floor", "M", "scene", "xform", "points", "mesh"]


def polygons(rng, V, T):
    """triangles, or some neighbouring pairs of them given as quads"""
    kind = str(rng.choice(["triangles", "triangles", "int32", "lists", "quads", "mixed"]))
    if kind == "triangles":
        return np.asarray(T), [list(t) for t in T]
    if kind == "int32":
        return np.asarray(T, dtype=np.int32), [list(t) for t in T]
    if kind == "lists":
        return [list(map(int, t)) for t in T], [list(t) for t in T]
    n = len(V)
    F = [[int(x) for x in rng.permutation(n)[:4]] for _ in range(5)]
    if kind == "mixed":
        F += [[int(x) for x in rng.permutation(n)[:3]] for _ in range(4)]
        F += [[int(x) for x in rng.permutation(n)[:min(n, 6)]]]
        return F, F
    return np.array(F), F


def times(rng):
    n = int(rng.choice([0, 1, 2, 5, 25]))
    k = rng.integers(4)
    t = np.arange(n) * 1.0 if k == 0 else np.sort(rng.uniform(0, 10, size=n)) if k == 1 else rng.permutation(n) * 0.5 if k == 2 else rng.integers(-3, 4, size=n) * 1.0
    t = t + rng.choice([0, 0, 0, 250.0])            # late in a long recording
    return [float(x) for x in t]


class Model:
    def __init__(self):
        self.rigid, self.mesh, self.stage = {}, {}, {}


def place(T, R):
    """USD stores row vectors: points are multiplied from the left"""
    M = np.eye(4)
    M[:3, :3] = R.T
    M[3, :3] = T
    return M


def at(samples, t):
    ts = sorted(samples)
    if t <= ts[0]:
        return samples[ts[0]]
    if t >= ts[-1]:
        return samples[ts[-1]]
    i = next(i for i in range(len(ts) - 1) if ts[i] <= t <= ts[i + 1])
    a = (t - ts[i]) / (ts[i + 1] - ts[i])
    return (1 - a) * samples[ts[i]] + a * samples[ts[i + 1]]


def compare(ck, path, M, rng):
    stage = Usd.Stage.Open(path)
    ck.expect(bool(stage), "file.opens", "a saved file does not open")
    prims = [p for p in stage.Traverse() if p.IsA(UsdGeom.Mesh)]
    ck.expect(sorted(p.GetName() for p in prims) == sorted(list(M.rigid) + list(M.mesh)), "file.names", "the file does not hold exactly the meshes that were added", got=[p.GetName() for p in prims], want=sorted(list(M.rigid) + list(M.mesh)))
    if "end" in M.stage:
        ck.expect(stage.GetStartTimeCode() == 0 and stage.GetEndTimeCode() == M.stage["end"], "file.duration", "the file does not hold the animation time", got=(stage.GetStartTimeCode(), stage.GetEndTimeCode()), want=M.stage["end"])
    if "fps" in M.stage:
        ck.expect(stage.GetFramesPerSecond() == M.stage["fps"] and stage.GetTimeCodesPerSecond() == M.stage["fps"], "file.rate", "the file does not hold the frame rate", got=(stage.GetFramesPerSecond(), stage.GetTimeCodesPerSecond()), want=M.stage["fps"])
    for p in prims:
        name, g = p.GetName(), UsdGeom.Mesh(p)
        m = M.rigid.get(name) or M.mesh.get(name)
        if m is None:
            continue
        counts, idx = list(g.GetFaceVertexCountsAttr().Get()), list(g.GetFaceVertexIndicesAttr().Get())
        ck.expect(counts == [len(f) for f in m["F"]] and idx == [int(i) for f in m["F"] for i in f], "file.faces", "the file holds other faces than the mesh has", name=name, counts=counts, indices=idx)
        P = np.array(g.GetPointsAttr().Get(), float)
        size = np.abs(m["V"]).max() + 1e-30
        ck.close(P, m["V"], "file.vertices", "the file holds other vertices than the mesh has", tol=EPS, scale=size, name=name)
        x = UsdGeom.Xformable(p)
        if name in M.rigid:
            ck.expect(not g.GetPointsAttr().GetTimeSamples(), "file.rigid_points", "a rigid body's vertices change in the file")
            S = m["samples"]
            ck.expect(sorted(x.GetTimeSamples()) == sorted(S), "file.times", "the file holds other times than were recorded", name=name, got=sorted(x.GetTimeSamples()), want=sorted(S))
            for t, (r, q) in S.items():
                X = np.array(g.ComputeLocalToWorldTransform(t))
                ck.close(X[:3, :3], ref.qmat(q).T, "placement.orientation", "a body is not oriented in the file as recorded", tol=1e-12, name=name, time=t)
                ck.close(X[3, :3], r, "placement.position", "a body is not placed in the file as recorded", tol=1e-12, scale=np.abs(r).max() + 1e-30, name=name, time=t)
                ck.event("placements")
            if S:
                rs = {t: r for t, (r, q) in S.items()}
                for t in rng.uniform(min(S) - 1, max(S) + 1, size=4):
                    X = np.array(g.ComputeLocalToWorldTransform(float(t)))
                    ck.close(X[3, :3], at(rs, t), "placement.between", "between recorded times a body is not between its neighbouring placements", tol=1e-9, scale=max(np.abs(r).max() for r in rs.values()) + 1e-30)
            else:
                ck.close(np.array(g.ComputeLocalToWorldTransform(0.0)), np.eye(4), "placement.none", "a body without recorded placement is moved", tol=0)
        else:
            S = m["samples"]
            got = g.GetPointsAttr().GetTimeSamples()
            ck.expect(sorted(got) == sorted(S), "file.times", "the file holds other times than were recorded", name=name, got=sorted(got), want=sorted(S))
            ck.close(np.array(g.ComputeLocalToWorldTransform(0.0)), np.eye(4), "placement.none", "a deforming mesh is moved as a whole", tol=0)
            for t, W in S.items():
                ck.close(np.array(g.GetPointsAttr().Get(t), float), W, "deform.vertices", "the file holds other vertices at a recorded time", tol=EPS, scale=np.abs(W).max() + 1e-30, name=name, time=t)
                ck.event("deformations")
            if S:
                for t in rng.uniform(min(S) - 1, max(S) + 1, size=3):
                    W = at(S, t)
                    ck.close(np.array(g.GetPointsAttr().Get(float(t)), float), W, "deform.between", "between recorded times the vertices are not between their neighbours", tol=4 * EPS, scale=max(np.abs(w).max() for w in S.values()) + 1e-30)


def refused(ck, what, kind, call):
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            call()
        ok = False
    except kind:
        ok = True
    except Exception as x:
        ck.expect(False, "refuse." + what, "an illegal request raises an unspecific error", error=repr(x))
        return
    ck.expect(ok, "refuse." + what, "an illegal request is accepted")


def recordings(ck):
    rng = ck.rng("recordings")
    base = tempfile.mkdtemp(prefix="verif-usd-")
    try:
        for it in range(ck.n(120, 3000)):
            if ck.time_left() < 15:
                break
            pair = []
            for k in range(2):
                path = os.path.join(base, "r%d_%d.%s" % (it, k if rng.random() < 0.8 else 0, rng.choice(["usda", "usdc", "usd"])))
                with ck.guard("record.exception", "recording raises"):
                    pair.append((USD(path), Model(), path))
            with ck.guard("record.exception", "recording raises"), contextlib.redirect_stdout(io.StringIO()):
                for u, M, path in pair:
                    for name in rng.permutation(NAMES)[:rng.integers(1, 7)]:
                        name = str(name)
                        V, T = meshes.make(str(rng.choice(meshes.KINDS)), rng)
                        V = V * float(10 ** rng.uniform(-3, 5)) + rng.normal(size=3)
                        if rng.random() < 0.2:
                            V = np.round(V)
                        V = V.astype(np.float32) if rng.random() < 0.2 else V
                        keep = V.copy()
                        if rng.random() < 0.5:
                            F = [list(t) for t in T]
                            T = np.asarray(T, dtype=rng.choice([np.int32, np.int64]))
                            u.add_rigid_body(name, V, T)
                            M.rigid[name] = dict(V=keep.astype(float), F=F, samples={})
                        else:
                            G, F = polygons(rng, V, T)
                            u.add_mesh(name, V, G)
                            M.mesh[name] = dict(V=keep.astype(float), F=F, samples={})
                        ck.expect(np.array_equal(V, keep), "record.argument", "recording changes the caller's vertices")
                        V += 1                   # the recorder has its own copy
                todo = [(k, n, t) for k, (u, M, _) in enumerate(pair) for n in list(M.rigid) + list(M.mesh) for t in times(rng)]
                most = 0
                saved = False
                for k, n, t in [todo[i] for i in (rng.permutation(len(todo)) if rng.random() < 0.3 else range(len(todo)))]:
                    u, M, path = pair[k]
                    if n in M.rigid:
                        r, q = rng.normal(size=3) * 10 ** rng.uniform(-3, 5), ref.rand_quat(rng)
                        q = -q if rng.random() < 0.5 else q
                        if M.rigid[n]["samples"] and rng.random() < 0.35:     # it rests for a while, or turns on the spot, or slides
                            r0, q0 = list(M.rigid[n]["samples"].values())[-1]
                            r, q = (r0, q0) if rng.random() < 0.5 else (r0, q) if rng.random() < 0.5 else (r, q0)
                            ck.event("holds")
                        a, b = (r.copy(), q.copy()) if rng.random() < 0.8 else (list(r), tuple(q))
                        u.update_rigid_body(n, a, b, t)
                        M.rigid[n]["samples"][t] = (r, q)
                        most = max(most, len(M.rigid[n]["samples"]))
                        if isinstance(a, np.ndarray):
                            a += 1
                            b += 1
                    else:
                        W = M.mesh[n]["V"] * rng.uniform(0.5, 2) + rng.normal(size=M.mesh[n]["V"].shape)
                        if M.mesh[n]["samples"] and rng.random() < 0.35:
                            W = list(M.mesh[n]["samples"].values())[-1]
                            ck.event("holds")
                        give = W.copy()
                        u.set_mesh_positions(n, give, t)
                        give += 1
                        M.mesh[n]["samples"][t] = W
                        got = u.get_mesh_positions(n, t)
                        ck.close(got, W, "deform.read", "the recorder does not return the vertices recorded at a time", tol=EPS, scale=np.abs(W).max())
                        got += 1
                        ck.close(u.get_mesh_positions(n, t), W, "deform.read", "the recorder does not return the vertices recorded at a time", tol=EPS, scale=np.abs(W).max())
                        most = max(most, len(M.mesh[n]["samples"]))
                    if rng.random() < 0.02:
                        u.save()
                        compare(ck, path, M, rng)
                        ck.event("saved_midway")
                for u, M, path in pair:
                    if rng.random() < 0.7:
                        M.stage["end"] = float(rng.choice([1, 10.5, 240]))
                        u.set_animation_time(M.stage["end"])
                    if rng.random() < 0.7:
                        M.stage["fps"] = float(rng.choice([24, 25, 30, 60, 100]))
                        u.set_frames_per_second(M.stage["fps"])
                ck.case(dict(it=it, bodies=[len(M.rigid) for _, M, _ in pair], meshes=[len(M.mesh) for _, M, _ in pair], samples=len(todo)), nontrivial=most > 1)
                # refusals, and that they leave the recording alone
                u, M, path = pair[0]
                V, T = meshes.make("box", rng) if "box" in meshes.KINDS else meshes.make(str(meshes.KINDS[0]), rng)
                known = list(M.rigid) + list(M.mesh)
                refused(ck, "unknown_body", ValueError, lambda: u.update_rigid_body("nobody", np.zeros(3), np.array([1., 0, 0, 0]), 0.0))
                refused(ck, "unknown_mesh", ValueError, lambda: u.set_mesh_positions("nobody", V, 0.0))
                refused(ck, "unknown_read", ValueError, lambda: u.get_mesh_positions("nobody", 0.0))
                n = str(rng.choice(known))
                refused(ck, "duplicate_body", ValueError, lambda: u.add_rigid_body(n, V, T))
                refused(ck, "duplicate_mesh", ValueError, lambda: u.add_mesh(n, V, T))
                if M.mesh:
                    refused(ck, "body_type", TypeError, lambda: u.update_rigid_body(str(rng.choice(list(M.mesh))), np.zeros(3), np.array([1., 0, 0, 0]), 0.0))
                if M.rigid:
                    n = str(rng.choice(list(M.rigid)))
                    refused(ck, "short_translation", ValueError, lambda: u.update_rigid_body(n, np.zeros(2), np.array([1., 0, 0, 0]), 77.0))
                for u, M, path in pair:          # one after the other: paths may be the same
                    u.save()
                    if os.path.exists(path):
                        compare(ck, path, M, rng)
                    else:
                        ck.expect(False, "file.exists", "saving writes no file")
                ck.event("recordings")
            if ck.violations:
                return
            for f in os.listdir(base):
                os.remove(os.path.join(base, f))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def simulated(ck):
    """a simulated scene recorded as the applications do: reloaded vertices are the ones simulated"""
    import rigid
    rng = ck.rng("simulated")
    base = tempfile.mkdtemp(prefix="verif-usd-")
    try:
        for it in range(ck.n(4, 40)):
            W = rigid.World(resolution=6, time_step=0.01)
            rigid.API.create_gravity_force(W.e, "g", 9.81, np.array([0., 0., 1.]))
            for i in range(3):
                V, T = meshes.make(str(rng.choice(meshes.KINDS)), rng)
                W.shape("s%d" % i, V * 0.3 / np.abs(V).max(), T)
                W.body("s%d" % i, "b%d" % i, r=np.array([3.0 * i, 0, 1]), q=ref.rand_quat(rng), v=rng.normal(size=3), w=rng.normal(size=3) * 3, rho=1.0, fixed=False, forces=["g"])
            path = os.path.join(base, "s%d.usda" % it)
            with ck.guard("simulated.exception", "recording a simulation raises"):
                u = USD(path)
                frames = []
                for b in W.e.bodies.values():
                    u.add_rigid_body(b.name, b.shape.mesh.V, b.shape.mesh.T)
                for k in range(6):
                    frames.append({})
                    for b in W.e.bodies.values():
                        u.update_rigid_body(b.name, b.r, b.q, float(k))
                        R = ref.qmat(rigid.API.get_orientation(W.e, b.name))
                        frames[-1][b.name] = b.shape.mesh.V @ R.T + rigid.API.get_position(W.e, b.name)
                    rigid.API.simulate(W.e, 0.02)
                u.save()
            if ck.violations:
                return
            ck.case(dict(simulated=it), nontrivial=True)
            stage = Usd.Stage.Open(path)
            for k, f in enumerate(frames):
                for n, want in f.items():
                    g = UsdGeom.Mesh(stage.GetPrimAtPath("/scene/xform/" + n))
                    X = np.array(g.ComputeLocalToWorldTransform(float(k)))
                    P = np.array(g.GetPointsAttr().Get(), float)
                    ck.close(P @ X[:3, :3] + X[3, :3], want, "simulated.vertices", "a reloaded frame does not show the simulated bodies", tol=1e-6, scale=np.abs(want).max() + 1)
                    ck.event("simulated_frames")
    finally:
        shutil.rmtree(base, ignore_errors=True)


ck.require(recordings=40, holds=40, placements=200, deformations=200, simulated_frames=30)
ck.run(recordings, simulated)
