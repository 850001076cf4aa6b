import numpy as np
from vh import Check

import rainbow.geometry.grid3 as GRID

ck = Check("C06", "grid boxes with any origin (also containing or touching 0), different spacing and 2..9 nodes per axis; fields constant, affine, multilinear, random and node-indicator; "
                  "points inside, on nodes/faces/edges/upper corner and outside; non-trivial: field not constant.")


def trilinear(vals, mn, h, dims, p):
    """value and gradient of the trilinear blend in the (clamped) cell of p; vals[i,j,k]"""
    idx = [int(np.clip(np.floor((p[a] - mn[a]) / h[a]), 0, dims[a] - 2)) for a in range(3)]
    w = [(p[a] - (mn[a] + idx[a] * h[a])) / h[a] for a in range(3)]
    v, g = 0.0, np.zeros(3)
    for c in np.ndindex(2, 2, 2):
        x = vals[idx[0] + c[0], idx[1] + c[1], idx[2] + c[2]]
        f = [w[a] if c[a] else 1 - w[a] for a in range(3)]
        d = [(1 if c[a] else -1) / h[a] for a in range(3)]
        v += x * f[0] * f[1] * f[2]
        g += x * np.array([d[0] * f[1] * f[2], f[0] * d[1] * f[2], f[0] * f[1] * d[2]])
    return v, g, idx, w


def trilinear_in(vals, mn, h, idx, p):
    w = [(p[a] - (mn[a] + idx[a] * h[a])) / h[a] for a in range(3)]
    g = np.zeros(3)
    for c in np.ndindex(2, 2, 2):
        x = vals[idx[0] + c[0], idx[1] + c[1], idx[2] + c[2]]
        f = [w[a] if c[a] else 1 - w[a] for a in range(3)]
        d = [(1 if c[a] else -1) / h[a] for a in range(3)]
        g += x * np.array([d[0] * f[1] * f[2], f[0] * d[1] * f[2], f[0] * f[1] * d[2]])
    return g


def make(rng):
    dims = [int(x) for x in rng.integers(2, 10, size=3)]
    if rng.uniform() < 0.2:
        dims = [int(rng.integers(2, 6))] * 3
    ext = 10.0 ** rng.uniform(-2, 2) * rng.uniform(0.3, 3, size=3)
    k = rng.integers(0, 4)
    mn = rng.normal(size=3) * 10.0 ** rng.uniform(-2, 2)
    if k == 0:
        mn[rng.integers(0, 3)] = 0.0
    elif k == 1:
        mn = -ext / 2
    elif k == 2:
        mn = -ext * rng.uniform(0, 1, size=3)
    return GRID.Grid(mn.copy(), mn + ext, *dims), mn, mn + ext, dims


def field(rng, mn, ext):
    k = rng.integers(0, 4)
    c = rng.normal(size=8)
    if k == 0:
        return "const", lambda p: c[0], True
    f = lambda p: (p - mn) / ext
    if k == 1:
        return "affine", lambda p: c[0] + c[1:4] @ f(p), True
    if k == 2:
        return "multilinear", lambda p: c[0] + c[1:4] @ f(p) + c[4] * f(p)[0] * f(p)[1] + c[5] * f(p)[1] * f(p)[2] + c[6] * f(p)[0] * f(p)[2] + c[7] * f(p).prod(), True
    tbl = {}
    return "random", lambda p: tbl.setdefault(tuple(np.round(f(p), 9)), float(rng.normal())), False


def grids(ck):
    rng = ck.rng("grid")
    for k in range(ck.n(220, 3000)):
        with ck.guard("grid.raises"):
            g, mn, mx, dims = make(rng)
            ext = mx - mn
            h = ext / (np.array(dims) - 1)
            name, f, exactf = field(rng, mn, ext)
            ck.case(dict(min=mn, ext=ext, dims=dims, field=name), nontrivial=name != "const")
            ck.close(g.spacing, h, "grid.spacing", tol=1e-13, scale=0)
            calls = []
            GRID.eval_on_grid(g, lambda p: calls.append(p.copy()) or f(p))
            N = dims[0] * dims[1] * dims[2]
            ck.expect(np.asarray(g.values).size == N, "grid.one_value_per_node", "", got=np.asarray(g.values).shape, N=N)
            vals = np.zeros(dims)
            seen = set()
            nodes = np.asarray(GRID.get_nodes_array(g))
            ck.expect(nodes.shape == (N, 3), "grid.nodes_array_shape")
            sc = np.abs(mn).max() + ext.max()
            for i, j, l in np.ndindex(*dims):
                want = mn + h * np.array([i, j, l])
                ck.close(g.get_node_coord(i, j, l), want, "grid.node_position", tol=1e-13, scale=sc)
                ix = int(g.get_linear_index(i, j, l))
                seen.add(ix)
                ck.close(nodes[ix], want, "grid.nodes_array", tol=1e-13, scale=sc)
                vals[i, j, l] = float(np.asarray(g.get_node_value(i, j, l)).item())
                if exactf:
                    ck.close(vals[i, j, l], f(want), "grid.node_value", tol=1e-10)
            ck.expect(seen == set(range(N)), "grid.linear_index_bijective", "node indices do not cover the value array exactly once", dims=dims)
            for ijk, ok in (((0, 0, 0), True), ((dims[0] - 1, dims[1] - 1, dims[2] - 1), True), ((-1, 0, 0), False), ((dims[0], 0, 0), False), ((0, dims[1], 0), False),
                            ((0, 0, dims[2]), False), ((0, -1, 0), False), ((0, 0, -1), False)):
                ck.expect(bool(g.is_valid_node_index(*ijk)) == ok, "grid.valid_node", "", ijk=ijk, dims=dims)
            vmag = np.abs(vals).max()
            for q in range(14):
                kind = q % 7
                w = rng.uniform(0, 1, size=3)
                if kind == 1:   # on a node
                    w = np.array([rng.integers(0, d) / (d - 1) for d in dims])
                elif kind == 2:  # on a face of the box
                    w[rng.integers(0, 3)] = rng.choice([0.0, 1.0])
                elif kind == 3:
                    w = rng.choice([0.0, 1.0], size=3)
                elif kind == 4:
                    w = 1 - 10.0 ** rng.uniform(-12, -1, size=3)
                elif kind == 5:  # outside: nearest cell is continued
                    w[rng.integers(0, 3)] += rng.choice([-1.5, 1.5]) * rng.uniform(0.7, 2)
                    ck.event("outside")
                p = mn + w * ext
                p0 = p.copy()
                v, gr, idx, wl = trilinear(vals, mn, h, dims, p)
                onface = min(min(abs(x - round(x)) for x in wl), 1) < 1e-6
                got = GRID.get_value(g, p)
                over = max(1.0, np.abs(wl).max()) ** 3
                ck.close(got, v, "grid.value", "interpolated value differs from the trilinear blend", tol=1e-8, scale=vmag * over + 1e-12, p=p, dims=dims, mn=mn, ext=ext, field=name)
                if exactf and kind != 5:
                    ck.close(got, f(p), "grid.exact_on_linear_fields", tol=1e-8, p=p, field=name)
                if kind != 5:
                    cell = vals[idx[0]:idx[0] + 2, idx[1]:idx[1] + 2, idx[2]:idx[2] + 2]
                    e = 1e-8 * (vmag + 1e-12)
                    ck.expect(cell.min() - e <= float(np.asarray(got).item()) <= cell.max() + e, "grid.between_samples", "", p=p)
                if kind == 1:
                    n = [int(round(w[a] * (dims[a] - 1))) for a in range(3)]
                    ck.close(got, vals[tuple(n)], "grid.node_sample_exact", tol=1e-8, scale=vmag + 1e-12, p=p)
                gg = GRID.get_gradient(g, p)
                ck.expect(np.shape(gg) == (3,), "grid.gradient_shape", "", shape=np.shape(gg))
                if not onface:
                    ck.close(gg * h, gr * h, "grid.gradient", "gradient is not the derivative of the interpolated field", tol=1e-7, scale=vmag * over + 1e-12, p=p, dims=dims, mn=mn, ext=ext, field=name)
                    if kind != 5:
                        for a in range(3):
                            d = np.zeros(3)
                            d[a] = 0.4 * min(wl[a], 1 - wl[a]) * h[a]
                            if d[a] > 1e-4 * h[a]:
                                fd = (np.asarray(GRID.get_value(g, p + d)).item() - np.asarray(GRID.get_value(g, p - d)).item()) / (2 * d[a])
                                ck.close(gg[a] * h[a], fd * h[a], "grid.gradient_matches_values", "gradient disagrees with differences of the interpolated values", tol=1e-6, scale=vmag + 1e-12, p=p)
                    ci = g.get_enclosing_cell_idx(p)
                    ck.expect(tuple(int(x) for x in ci) == tuple(idx), "grid.enclosing_cell", "", got=ci, want=idx, p=p)
                else:
                    # on a cell face either adjacent cell is fine, but it must exist and touch p
                    ci = [int(x) for x in g.get_enclosing_cell_idx(p)]
                    okc = all(0 <= ci[a] <= dims[a] - 2 for a in range(3))
                    okp = all((mn[a] + ci[a] * h[a] - 1e-6 * h[a] <= p[a] or ci[a] == 0) and (p[a] <= mn[a] + (ci[a] + 1) * h[a] + 1e-6 * h[a] or ci[a] == dims[a] - 2) for a in range(3))
                    ck.expect(okc and okp, "grid.enclosing_cell_on_face", "", got=ci, p=p, dims=dims)
                    # one-sided derivative of an adjacent cell: compare with every cell that touches p
                    best = np.inf
                    for c in np.ndindex(*[d - 1 for d in dims]):
                        if all(mn[a] + c[a] * h[a] - 1e-6 * h[a] <= p[a] <= mn[a] + (c[a] + 1) * h[a] + 1e-6 * h[a] for a in range(3)):
                            best = min(best, np.abs((gg - trilinear_in(vals, mn, h, c, p)) * h).max())
                    if kind != 5:
                        ck.expect(best <= 1e-6 * (vmag + 1e-12), "grid.gradient_on_face", "no adjacent cell has this gradient", p=p, got=gg, err=best)
                b = float(rng.choice([0.0, 0.1 * ext.min(), 0.49 * ext.min(), 0.6 * ext.max()]))
                margin = min((p - mn).min(), (mx - p).min()) - b
                if abs(margin) > 1e-9 * sc:
                    ck.expect(bool(GRID.is_inside(g, p, b)) == (margin > 0), "grid.inside_margin", "", p=p, mn=mn, mx=mx, boundary=b, margin=margin)
                ck.expect(np.array_equal(p, p0), "grid.argument_changed")
            for _ in range(3):                         # one look on either side of a cell face, close together
                a = int(rng.integers(3))
                if dims[a] < 3:
                    continue
                p = mn + rng.uniform(0, 1, size=3) * ext
                d = 10.0 ** rng.uniform(-6, -3) * h[a]
                p[a] = mn[a] + h[a] * int(rng.integers(1, dims[a] - 1))
                for side in rng.permutation([-1, 1]):
                    x = p.copy()
                    x[a] += side * d
                    v, gr, idx, wl = trilinear(vals, mn, h, dims, x)
                    if min(min(abs(w - round(w)) for w in wl), 1) < 1e-7:
                        continue
                    ck.close(GRID.get_value(g, x), v, "grid.value", "interpolated value differs from the trilinear blend", tol=1e-8, scale=vmag + 1e-12, p=x, dims=dims)
                    ck.close(GRID.get_gradient(g, x) * h, gr * h, "grid.gradient", "gradient is not the derivative of the interpolated field", tol=1e-7, scale=vmag + 1e-12, p=x, dims=dims, mn=mn, ext=ext, field=name)
                    ck.event("beside_a_face")
            corner = np.where(rng.random(3) < 0.5, mn, mx)
            ck.expect(bool(GRID.is_inside(g, corner, 0.0)), "grid.inside_closed", "a corner of the grid is not inside it", p=corner, mn=mn, mx=mx)
    z = np.zeros(3)
    for bad in (lambda: GRID.Grid(z + 1, z, 3, 3, 3), lambda: GRID.Grid(np.array([0, 0, 2.0]), np.ones(3), 3, 3, 3), lambda: GRID.Grid(z, z + 1, 1, 3, 3), lambda: GRID.Grid(z, z + 1, 3, 1, 3),
                lambda: GRID.Grid(z, z + 1, 3, 3, 1), lambda: GRID.is_inside(GRID.Grid(z, z + 1, 2, 2, 2), z, -0.1)):
        ck.expect_error(bad, "grid.invalid_rejected", "illegal argument accepted")


ck.require(outside=50, **{"grid.gradient": 500, "grid.value": 500, "grid.inside_margin": 500})
ck.run(grids)
