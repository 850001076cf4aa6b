import numpy as np
from vh import Check
import ref

import rainbow.geometry.grid3 as GRID
import rainbow.geometry.volume_mesh as VM

ck = Check("C12", "beams and grid meshes with 2..7 nodes per axis (even and odd), any dimensions/origins; random subsets of their elements (with holes and loose elements, node order permuted); "
                  "affine images; 1..2 rounds of subdivision; blocks of ~40000 elements by totals and samples; every face, edge, vertex and element checked by brute force; non-trivial: at least 5 elements.")


def vols(V, T):
    a, b, c, d = (V[T[:, k]] for k in range(4))
    return np.einsum("ij,ij->i", d - a, np.cross(b - a, c - a)) / 6


def faces_of(t):
    """outward faces of a positively oriented tetrahedron, keyed by the local index of the opposite vertex"""
    i, j, k, m = (int(x) for x in t)
    return {0: (j, k, m), 1: (i, m, k), 2: (i, j, m), 3: (i, k, j)}


def rot(f):
    k = f.index(min(f))
    return tuple(f[k:] + f[:k])


def boundary(T):
    cnt = {}
    for e, t in enumerate(T):
        for v, f in faces_of(t).items():
            cnt.setdefault(tuple(sorted(f)), []).append((e, v, f))
    return cnt


def topology(ck, V, T, tag):
    """neighbours, boundary surface, circulator against brute force; returns boundary faces"""
    T0, V0 = T.copy(), V.copy()
    with ck.guard("topology.exception"):
        N = VM.compute_neighbors(T)
        S, O = VM.compute_surface(T, N)
        C = VM.VertexTetrahedronCirculator(V, T)
    ck.expect(np.array_equal(T, T0) and np.array_equal(V, V0), "topology.untouched", "a mesh query changed the mesh")
    cnt = boundary(T)
    want = -np.ones(T.shape, int)
    for own in cnt.values():
        if len(own) == 2:
            (e, v, _), (f, w, _) = own
            want[e, v], want[f, w] = f, e
    ck.expect(N.shape == T.shape and np.array_equal(N, want), tag + ".neighbours", "the neighbour table differs from brute force", bad=[(e, list(N[e]), list(want[e])) for e in range(len(T)) if list(N[e]) != list(want[e])][:3])
    single = {(e, v): f for own in cnt.values() if len(own) == 1 for e, v, f in own}
    ck.event("boundary_faces", len(single))
    ck.event("interior_faces", sum(len(o) == 2 for o in cnt.values()))
    got = [(int(e), int(v)) for e, v in O]
    ok = ck.expect(len(S) == len(O) and sorted(got) == sorted(single), tag + ".surface_owners", "the surface does not list exactly the unshared faces with their owners", got=len(got), want=len(single))
    if ok:
        for s, (e, v) in zip(S, got):
            ck.expect(rot(tuple(int(x) for x in s)) == rot(single[(e, v)]), tag + ".surface_faces", "a surface triangle is not the outward face of its owner opposite the stated node", got=s, want=single[(e, v)], owner=(e, v))
    for v in range(len(V)):
        w = sorted(np.nonzero((T == v).any(axis=1))[0].tolist())
        with ck.guard("circulator.exception"):
            g = sorted(int(x) for x in C.tetrahedra(v))
        ck.expect(g == w, tag + ".circulator", "the elements around a vertex are wrong", vertex=v, got=g, want=w)
    return S


def export(ck, V, T, rng):
    with ck.guard("export.exception"):
        F = VM.to_triangles(T)
        sc = float(rng.choice([0.9, 0.5, 1.0]))
        W, G = VM.to_tetrahedrons(V, T) if sc == 0.9 else VM.to_tetrahedrons(V, T, scale=sc)
    want = sorted(rot(f) for t in T for f in faces_of(t).values())
    ck.expect(sorted(rot(tuple(int(x) for x in f)) for f in F) == want, "to_triangles", "the triangles of the elements are wrong or inward")
    c = V[T].mean(axis=1, keepdims=True)
    ck.close(W, (c + sc * (V[T] - c)).reshape(-1, 3), "to_tetrahedrons.vertices", "shrunken elements are in the wrong place", tol=1e-12, scale=1e-3)
    ck.expect(sorted(rot(tuple(int(x) for x in f)) for f in G) == sorted(rot(f) for e in range(len(T)) for f in faces_of(np.arange(4) + 4 * e).values()), "to_tetrahedrons.faces", "shrunken elements have wrong or inward faces")


def inside_count(P, V, T):
    """how many elements contain each point (barycentric)"""
    M = np.stack([V[T[:, k]] - V[T[:, 0]] for k in (1, 2, 3)], axis=-1)
    inv = np.linalg.inv(M)
    w = np.einsum("tij,ptj->pti", inv, P[:, None, :] - V[T[:, 0]][None])
    m = np.minimum(w.min(-1), 1 - w.sum(-1))
    clear = (np.abs(m) > 1e-9).all(axis=1)
    return (m > 0).sum(axis=1), clear


def blocks(ck):
    rng = ck.rng("blocks")
    for it in range(ck.n(70, 600)):
        if ck.time_left() < 0:
            break
        I, J, K = (int(x) for x in rng.integers(2, 6 if it % 10 else 8, size=3))
        d = 10.0 ** rng.uniform(-2, 2) * rng.uniform(0.3, 3, size=3)
        viagrid = it % 3 == 0
        ck.case(dict(kind="block", dims=(I, J, K), size=d, grid=viagrid))
        with ck.guard("block.exception"):
            if viagrid:
                mn = rng.normal(size=3) * d
                g = GRID.Grid(mn, mn + d, I, J, K)
                g.values = rng.normal(size=I * J * K)
                vv = g.values.copy()
                V, T, A = VM.from_grid3d(g)
                lo = mn
                ck.expect(np.array_equal(A, vv), "grid.attributes", "grid values are not carried over")
                A[0] += 1
                ck.expect(np.array_equal(g.values, vv), "grid.attributes_copied", "the attributes share memory with the grid")
            else:
                V, T = VM.create_beam(I, J, K, *d)
                lo = -d / 2
                T2 = VM.create_tetrahedron_array_from_cube_mesh(I, J, K)
                ck.expect(np.array_equal(T, T2), "beam.elements", "a beam has other elements than the cube mesh")
        lat = np.array([(lo[0] + i * d[0] / (I - 1), lo[1] + j * d[1] / (J - 1), lo[2] + k * d[2] / (K - 1)) for k in range(K) for j in range(J) for i in range(I)])
        ck.close(V, lat, "block.lattice", "nodes are not the lattice nodes (i fastest)", tol=1e-10, scale=d.max())
        v = vols(V, T)
        cell = np.prod(d) / ((I - 1) * (J - 1) * (K - 1))
        ck.expect(len(T) == 5 * (I - 1) * (J - 1) * (K - 1) and v.min() > 0.1 * cell, "block.positive", "an element is not positively oriented", worst=v.min() / cell)
        ck.close(v.sum(), np.prod(d), "block.volume", "the elements do not fill the block", tol=1e-9, scale=0)
        with ck.guard("block.exception"):
            ck.close(VM.compute_volumes(V, T), v, "volumes", "reported element volumes are wrong", tol=1e-10, scale=0)
            if it % 4 == 1:                # whole-number coordinates
                Z = np.round(V / d.min() * 97).astype(np.int64)
                ck.close(VM.compute_volumes(Z, T), vols(Z.astype(float), T), "volumes", "element volumes of whole-number coordinates are wrong", tol=1e-10, scale=1.0)
        S = topology(ck, V, T, "block")
        ck.expect(ref.surface_defects(S) == 0, "block.surface_closed", "the boundary surface is not closed")
        ck.close(ref.mesh_volume_centroid_inertia(V, S)[0], np.prod(d), "block.surface_volume", "the boundary surface encloses another volume", tol=1e-9, scale=0)
        b = V[np.unique(S)]
        on = (np.abs(b - lo) < 1e-9 * d).any(1) | (np.abs(b - lo - d) < 1e-9 * d).any(1)
        ck.expect(on.all(), "block.surface_place", "a surface node is not on the block's surface")
        P = lo + rng.uniform(0.01, 0.99, size=(40, 3)) * d
        n, clear = inside_count(P, V, T)
        ck.expect((n[clear] == 1).all(), "block.tiling", "a point of the block is not in exactly one element", counts=n[clear][:10])
        export(ck, V, T, rng)
        if len(T) <= 200:
            subdivide(ck, V, T, rng, 1 if len(T) > 20 else 2, closed=True)


def subdivide(ck, V, T, rng, rounds, closed):
    for r in range(rounds):
        V0, T0 = V.copy(), T.copy()
        with ck.guard("subdivision.exception"):
            W, U = VM.create_loop_subdivision(V, T)
        ck.expect(np.array_equal(V, V0) and np.array_equal(T, T0), "subdivision.untouched", "subdivision changed its input")
        v0, v1 = vols(V, T), vols(W, U)
        ok = ck.expect(len(U) == 8 * len(T), "subdivision.count", "subdivision does not give eight elements per element")
        ck.expect(np.array_equal(W[:len(V)], V0), "subdivision.old_nodes", "subdivision moved the old nodes")
        edges = {(min(a, b), max(a, b)) for t in T for x in range(4) for y in range(x) for a, b in ((int(t[x]), int(t[y])),)}
        mid = sorted(tuple(np.round((V[a] + V[b]) / 2 / np.abs(V).max(), 10) + 0.0) for a, b in edges)
        ck.expect(len(W) == len(V) + len(edges) and sorted(tuple(np.round(p / np.abs(V).max(), 10) + 0.0) for p in W[len(V):]) == mid, "subdivision.new_nodes", "the new nodes are not exactly the edge midpoints, once each")
        if not ok:
            return
        ck.expect(v1.min() > 0, "subdivision.positive", "subdivision inverts an element", worst=v1.min(), volume=v0.min())
        ck.close(v1.sum(), v0.sum(), "subdivision.volume", "subdivision changes the volume", tol=1e-10, scale=0)
        # every child lies in exactly one parent and the eight children add up to it
        cen = W[U].mean(axis=1)
        M = np.stack([V[T[:, k]] - V[T[:, 0]] for k in (1, 2, 3)], axis=-1)
        w = np.einsum("tij,ptj->pti", np.linalg.inv(M), cen[:, None, :] - V[T[:, 0]][None])
        m = np.minimum(w.min(-1), 1 - w.sum(-1))
        parent = m.argmax(axis=1)
        acc = np.zeros(len(T))
        np.add.at(acc, parent, v1)
        if len(T) < 300 and closed:
            ck.close(acc, v0, "subdivision.children", "the children of an element do not fill it", tol=1e-9, scale=0)
        S0, S1 = topology(ck, V, T, "coarse"), topology(ck, W, U, "fine")
        ck.expect(len(S1) == 4 * len(S0), "subdivision.surface_count", "the fine boundary does not have four triangles per coarse triangle", coarse=len(S0), fine=len(S1))
        if closed:
            ck.expect(ref.surface_defects(S1) == 0, "subdivision.surface_closed", "the boundary of the subdivided mesh is not closed")
        ck.close(ref.mesh_volume_centroid_inertia(W, S1)[0], v0.sum(), "subdivision.surface_volume", "the boundary of the subdivided mesh encloses another volume", tol=1e-9, scale=0)
        ck.event("subdivisions")
        V, T = W, U


def large(ck):
    """meshes of the size one simulates with: tables indexed by nodes, faces and elements beyond 2^8 and 2^15"""
    rng = ck.rng("large")
    for it in range(ck.n(1, 6)):
        I, J, K = (int(x) for x in rng.integers(19, 24, size=3)) if it % 2 == 0 else (int(rng.integers(3, 5)), int(rng.integers(3, 5)), int(rng.integers(2300, 2600)))
        d = rng.uniform(0.5, 3, size=3)
        ck.case(dict(kind="large", dims=(I, J, K)))
        with ck.guard("large.exception", "a large mesh fails"):
            V, T = VM.create_beam(I, J, K, *d)
            N = VM.compute_neighbors(T)
            S, O = VM.compute_surface(T, N)
            C = VM.VertexTetrahedronCirculator(V, T)
            vs = rng.choice(len(V), 20, replace=False)
            around = [sorted(int(x) for x in C.tetrahedra(int(v))) for v in vs]
            v = VM.compute_volumes(V, T)
        ck.close(v.sum(), np.prod(d), "large.volume", "the elements do not fill the block", tol=1e-9, scale=0)
        faces = 4 * ((I - 1) * (J - 1) + (J - 1) * (K - 1) + (I - 1) * (K - 1))
        ck.expect(len(S) == len(O) == faces, "large.surface", "the boundary of a large block has another number of triangles", got=len(S), want=faces)
        ck.close(ref.mesh_volume_centroid_inertia(V, S)[0], np.prod(d), "large.surface_volume", "the boundary of a large block encloses another volume", tol=1e-9, scale=0)
        N = np.asarray(N)
        e, k = np.nonzero(N >= 0)
        shared = np.array([len(set(T[a].tolist()) - {int(T[a, b])} & set(T[c].tolist())) for a, b, c in zip(e[::7], k[::7], N[e, k][::7])])
        ck.expect(len(e) == 4 * len(T) - faces and np.all(N[N >= 0] < len(T)) and np.all(shared == 3), "large.neighbours", "neighbours of a large block do not share the face")
        ck.expect(all(a == sorted(np.nonzero((T == v).any(axis=1))[0].tolist()) for v, a in zip(vs, around)), "large.circulator", "the elements around a vertex are wrong")
    for it in range(ck.n(1, 6)):
        n = [int(x) for x in rng.integers([16, 17, 4], [19, 19, 7])]       # neighbours more than 2^8 apart in the node order
        ck.case(dict(kind="large", subdivided=n))
        with ck.guard("large.exception", "a large mesh fails"):
            V, T = VM.create_beam(*n, *rng.uniform(0.5, 3, size=3))
            W, U = VM.create_loop_subdivision(V, T)
        e = np.unique(np.sort(np.vstack([T[:, [a, b]] for a in range(4) for b in range(a)]), axis=1), axis=0)
        mid = (V[e[:, 0]] + V[e[:, 1]]) / 2
        key = lambda P: sorted(map(tuple, np.round(P / np.abs(V).max(), 9) + 0.0))
        ck.expect(len(W) == len(V) + len(e) and key(W[len(V):]) == key(mid), "large.new_nodes", "the new nodes are not exactly the edge midpoints, once each", got=len(W), want=len(V) + len(e))
        v0, v1 = vols(V, T), vols(W, U)
        ck.expect(len(U) == 8 * len(T) and v1.min() > 0, "large.positive", "subdivision inverts an element")
        ck.close(v1.sum(), v0.sum(), "large.subdivided_volume", "subdivision changes the volume", tol=1e-10, scale=0)
        ck.event("large_subdivided")


def subsets(ck):
    rng = ck.rng("subsets")
    for it in range(ck.n(90, 900)):
        if ck.time_left() < 0:
            break
        I, J, K = (int(x) for x in rng.integers(2, 5, size=3))
        with ck.guard("block.exception"):
            V, T = VM.create_beam(I, J, K, *rng.uniform(0.5, 2, size=3))
        A = np.eye(3) + 0.3 * rng.normal(size=(3, 3))
        if np.linalg.det(A) < 0.1:
            A = ref.rand_rot(rng)
        V = V @ A.T + rng.normal(size=3)
        keep = rng.uniform(size=len(T)) < rng.choice([0.1, 0.5, 0.9, 1.0])
        keep[rng.integers(0, len(T))] = True
        T = T[keep]
        even = [(0, 1, 2, 3), (1, 2, 0, 3), (2, 0, 1, 3), (1, 0, 3, 2), (3, 1, 0, 2), (0, 3, 1, 2), (3, 2, 1, 0), (2, 3, 0, 1), (0, 2, 3, 1), (1, 3, 2, 0), (2, 1, 3, 0), (3, 0, 2, 1)]
        T = np.array([t[list(even[rng.integers(0, 12)])] for t in T])
        T = T[rng.permutation(len(T))]
        used = np.unique(T)
        if rng.uniform() < 0.5:            # drop loose vertices
            m = -np.ones(len(V), int)
            m[used] = rng.permutation(len(used))
            W = np.zeros((len(used), 3))
            W[m[used]] = V[used]
            V, T = W, m[T]
        ck.case(dict(kind="subset", n=len(T), T=T[:4]), nontrivial=len(T) >= 5)
        v = vols(V, T)
        assert v.min() > 0
        with ck.guard("block.exception"):
            ck.close(VM.compute_volumes(V, T), v, "volumes", "reported element volumes are wrong", tol=1e-10, scale=0)
            flip = T[:, [1, 0, 2, 3]]
            ck.close(VM.compute_volumes(V, flip), -v, "volumes.signed", "inverted elements do not have negative volume", tol=1e-10, scale=0)
            m = VM.T4Mesh(V, T)
            m.V += 1
            m.T += 0
            ck.close(m.V - 1, V, "t4mesh.copy", "a mesh shares its arrays with its source", tol=1e-12)
        S = topology(ck, V, T, "subset")
        ck.close(ref.mesh_volume_centroid_inertia(V, S)[0], v.sum(), "subset.surface_volume", "the boundary encloses another volume than the elements", tol=1e-9, scale=0)
        export(ck, V, T, rng)
        if len(T) <= 60:
            subdivide(ck, V, T, rng, 1, closed=False)
        ck.event("subsets")


ck.require(large_subdivided=1, subdivisions=60, subsets=60, interior_faces=2000, boundary_faces=2000, **{"block.tiling": 40, "block.surface_volume": 40})
ck.run(blocks, subsets, large)
