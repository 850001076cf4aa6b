import hashlib
import json
import os
import subprocess
import sys
from types import SimpleNamespace

import numpy as np
from vh import Check

import contactlab
import rainbow.simulators.proximal_contact.blocking as BLOCKING
import rainbow.simulators.proximal_contact.prox_solvers as PS
import rainbow.simulators.proximal_contact.proximal_operators as PC

SCHEMES = ["gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid"]


def solve(L, scheme, **params):
    """the real solver with its log of iterates"""
    inputs = [L.J.copy(), L.WJT.copy(), L.b.copy(), np.asarray(L.mu, float).copy()]
    sol, stats = PS.solve(*inputs, PC.prox_sphere, L.engine(**params), {}, True, "p_", scheme)
    return np.array(sol), stats


def groups_of(L):
    G = BLOCKING.build_contact_graph(L.cps, "rigid_body")
    return G, BLOCKING.greedy_graph_coloring(G)


def order_of(L, scheme):
    if scheme == "gauss_seidel":
        return list(range(L.K))
    return [s // 4 for group in groups_of(L)[1].values() for s, _ in group]


def reference(L, scheme, x, r):
    if scheme in SCHEMES[:2]:
        return L.sweep(x, r, order_of(L, scheme))
    return L.jacobi(x, r, scheme == SCHEMES[3])


if len(sys.argv) > 1 and sys.argv[1] == "--child":
    # solve some systems with the number of threads in the environment and print the exact bits
    out = []
    for seed, N, K, mu in json.loads(sys.argv[2]):
        L = contactlab.Lab(np.random.default_rng(seed), N, K, mu)
        for scheme in SCHEMES:
            for rep in range(2):
                x, st = solve(L, scheme, max_iterations=25, nu_increase=1.0, absolute_tolerance=1e-13, relative_tolerance=0.0)
                out.append([scheme, rep, hashlib.sha1(np.ascontiguousarray(st["p_lambda"]).tobytes() + x.tobytes()).hexdigest(), x.tolist()])
    print("RESULT " + json.dumps(out))
    sys.stdout.flush()
    os._exit(0)

ck = Check("C23", "random contact graphs (chains, stars, random pairs, shared immovable bodies; 1-40 contacts, friction 0..1, masses over 1.5 decades) solved by every scheme: each logged sweep against the "
                  "documented proximal map in the order of the groups, converged velocities and contact law across schemes and contact orders, exact bits across thread counts 1/2/4/8 and repetitions; colourings of rigid "
                  "and soft contact graphs against the shared-body relation; non-trivial: at least two contacts sharing a body.")


def first_sweeps(ck):
    rng = ck.rng("sweeps")
    rng2 = ck.rng("sweeps.units")
    for it in range(ck.n(45, 500)):
        if ck.time_left() < 0:
            break
        K = int(rng.integers(1, 25))
        N = int(rng.integers(2, max(3, K) + 2))
        L = contactlab.Lab(rng, N, K, mu=None if rng.random() < 0.6 else float(rng.choice([0.0, 0.5])), fixed0=bool(rng.random() < 0.7), local=bool(rng.random() < 0.6))
        if it % 3 == 1:                       # other units: masses and speeds
            L.rescale(10 ** rng2.uniform(-4, 6), 10 ** rng2.uniform(-5, 2))
        big = max(1e-300, float(np.max(np.abs(L.b) / np.where(np.diag(L.A) > 0, np.diag(L.A), 1.0))))
        for scheme in SCHEMES:
            ck.case(dict(kind="sweep", N=N, K=K, scheme=scheme, pairs=L.pairs[:12]), nontrivial=K > N // 2 and K > 1)
            with ck.guard("sweep.exception", "a sweep raises"):
                sol, st = solve(L, scheme, max_iterations=4, nu_increase=1.0, absolute_tolerance=0.0, relative_tolerance=0.0)
            if ck.violations:
                continue
            d = np.diag(L.A).copy()
            d[d == 0] = 1.0
            r = 0.1 / d
            x = np.zeros(4 * K)
            last = np.inf
            for i in range(4):
                want = reference(L, scheme, x, r)
                got = np.asarray(st["p_lambda"][i])
                if not ck.close(got, want, "sweep." + scheme, "one sweep is not the proximal map of the scheme", tol=1e-10, scale=big, sweep=i, scheme=scheme, pairs=L.pairs):
                    break
                merit = float(np.max(np.abs(got - x)))
                if abs(merit - last) < 1e-12 * merit:
                    break                         # rounding decides about acceptance
                if merit > last:
                    r = r * L.engine().params.nu_reduce
                else:
                    x, last = got, merit
                if merit == 0:
                    break


def reused(ck):
    """one engine, its contacts replaced between solves, as a simulation does"""
    rng = ck.rng("reused")
    for it in range(ck.n(12, 120)):
        K = int(rng.integers(2, 16))
        engine = None
        for again in range(3):
            L = contactlab.Lab(rng, int(rng.integers(3, K + 3)), K, mu=0.5, local=bool(rng.random() < 0.5))
            if engine is None:
                engine = L.engine(max_iterations=1, nu_increase=1.0, absolute_tolerance=0.0, relative_tolerance=0.0)
            engine.contact_points = L.cps
            for scheme in SCHEMES:
                ck.case(dict(kind="reused", K=K, scheme=scheme, again=again, pairs=L.pairs[:12]))
                with ck.guard("sweep.exception", "a sweep raises"):
                    st = PS.solve(L.J.copy(), L.WJT.copy(), L.b.copy(), np.asarray(L.mu, float), PC.prox_sphere, engine, {}, True, "p_", scheme)[1]
                if ck.violations:
                    return
                d = np.diag(L.A).copy()
                d[d == 0] = 1.0
                want = reference(L, scheme, np.zeros(4 * K), 0.1 / d)
                ck.close(np.asarray(st["p_lambda"][0]), want, "sweep.reused", "a sweep depends on the contacts the engine had before", tol=1e-10, scheme=scheme, pairs=L.pairs, again=again)


def agreement(ck):
    rng = ck.rng("agree")
    done = 0
    for it in range(ck.n(7, 150)):
        if ck.time_left() < 0:
            break
        K = int(rng.integers(1, 9))
        N = int(rng.integers(2, K + 3))
        L = contactlab.Lab(rng, N, K, mu=float(rng.choice([0.0, 0.1, 0.4, 0.8])), fixed0=bool(rng.random() < 0.6), local=bool(rng.random() < 0.7))
        p = rng.permutation(K)
        LP = L.permuted(p)
        P = dict(max_iterations=3000, nu_increase=1.0, absolute_tolerance=1e-9, relative_tolerance=0.0)
        vs = []
        for scheme in SCHEMES:
            for lab, name in ((L, "listed"), (LP, "permuted")):
                ck.case(dict(kind="agree", N=N, K=K, scheme=scheme, order=name, mu=L.mu, pairs=L.pairs), nontrivial=K > 1)
                with ck.guard("solve.exception", "solving raises"):
                    x, st = solve(lab, scheme, **P)
                if ck.violations:
                    return
                if st["p_exitcode"] != 1:
                    ck.event("slow")              # out of iterations: nothing was promised
                    continue
                if np.count_nonzero(st["p_reject"]):
                    ck.event("rejecting")         # the step size went down: the last change says less about the law
                    continue
                if lab is LP:
                    y = np.zeros_like(x)
                    for i, k in enumerate(p):
                        y[4 * k:4 * k + 4] = x[4 * i:4 * i + 4]
                    x = y
                law = L.law(x)
                ck.expect(law < 1e-5 * max(1.0, np.max(np.abs(x))), "law", "a converged solution does not satisfy the contact law", scheme=scheme, order=name, law=law, x=x, residual=st["p_residuals"][st["p_iterations"]])
                vs.append((scheme + "/" + name, L.velocity(x)))
                done += 1
        if np.max(L.mu) == 0:                     # without friction the velocities are unique
            for name, v in vs[1:]:
                ck.close(v, vs[0][1], "agree.frictionless", "two schemes find different contact velocities", tol=1e-5, a=vs[0][0], b=name)
        else:
            for name, v in vs[1:]:
                ck.close(v, vs[0][1], "agree.friction", "two schemes find different contact velocities", tol=1e-4, a=vs[0][0], b=name, pairs=L.pairs, mu=L.mu)
    ck.event("converged", done)


def colourings(ck):
    rng = ck.rng("colour")
    for it in range(ck.n(160, 2500)):
        if ck.time_left() < 0:
            break
        K = int(rng.integers(0, 41))
        soft = rng.random() < 0.5
        if soft:
            bodies = []
            off = 0
            for i in range(int(rng.integers(2, 4))):
                nv = int(rng.integers(5, 14))
                T = np.array([rng.choice(nv, 4, replace=False) for _ in range(int(rng.integers(2, 12)))])
                bodies.append(SimpleNamespace(T=T, offset=off, idx=i))
                off += nv
            cps, used = [], []
            for k in range(K):
                a, b = rng.choice(len(bodies), 2, replace=False)
                A, B = bodies[a], bodies[b]
                ta, tb = int(rng.integers(len(A.T))), int(rng.integers(len(B.T)))
                cps.append(SimpleNamespace(bodyA=A, bodyB=B, idx_tetA=ta, idx_tetB=tb))
                used.append(set((A.T[ta] + A.offset).tolist()) | set((B.T[tb] + B.offset).tolist()))
            kind = "soft_body"
        else:
            N = int(rng.integers(2, 30))
            bodies = [SimpleNamespace(idx=i) for i in range(N)]
            mode = rng.choice(["random", "star", "chain", "sparse"])
            cps, used = [], []
            for k in range(K):
                if mode == "star":
                    a, b = 0, int(rng.integers(1, N))
                elif mode == "chain":
                    a = int(rng.integers(N - 1))
                    b = a + 1
                elif mode == "sparse":
                    a = int(rng.integers(N // 2 + 1)) * 2 % N
                    b = (a + 1) % N
                else:
                    a, b = (int(v) for v in rng.choice(N, 2, replace=False))
                if rng.random() < 0.5:
                    a, b = b, a
                cps.append(SimpleNamespace(bodyA=bodies[a], bodyB=bodies[b]))
                used.append({a, b})
            kind = "rigid_body"
        ck.case(dict(kind="colour", type=kind, used=[sorted(u) for u in used]), nontrivial=K > 1)
        with ck.guard("colour.exception", "colouring contacts raises"):
            G = BLOCKING.build_contact_graph(cps, kind)
            greedy = BLOCKING.greedy_graph_coloring(G)
            np.random.seed(int(rng.integers(2 ** 31)))
            rnd = BLOCKING.random_graph_coloring(G, int(rng.choice([200, 1, 3])))
        if ck.violations:
            return
        edges = {(i, j) for i in range(K) for j in range(i + 1, K) if used[i] & used[j]}
        got = {(min(int(a), int(b)), max(int(a), int(b))) for a, b in G.edges()}
        ck.expect(got == edges and sorted(int(v) for v in G.nodes()) == list(range(K)), "graph", "the contact graph is not the relation of sharing a body", missing=sorted(edges - got)[:5], extra=sorted(got - edges)[:5])
        for name, groups in (("greedy", [[s // 4 for s, _ in g] for g in greedy.values()]), ("random", list(rnd.values()))):
            if name == "greedy":
                ck.expect(all(s % 4 == 0 and e == s + 4 for g in greedy.values() for s, e in g), "blocks", "a block is not the four rows of one contact", groups=list(greedy.values())[:3])
            allk = sorted(int(k) for g in groups for k in g)
            ck.expect(allk == list(range(K)), "partition." + name, "the groups are not a partition of the contacts", groups=groups, K=K)
            bad = [(i, j) for g in groups for a, i in enumerate(g) for j in g[a + 1:] if used[i] & used[j]]
            ck.expect(not bad, "proper." + name, "two contacts of one group share a body", pairs=bad[:5])
    ck.expect_error(lambda: BLOCKING.build_contact_graph([SimpleNamespace(bodyA=SimpleNamespace(idx=0), bodyB=SimpleNamespace(idx=1))] * 2, "cloth"), "graph.unknown", "an unknown kind of bodies is accepted")


def threads(ck):
    rng = ck.rng("threads")
    jobs = [(int(rng.integers(2 ** 31)), 3 if i % 3 == 0 else int(rng.integers(4, 24)), int(rng.integers(6, 50)), float(rng.choice([0.0, 0.5, 0.9]))) for i in range(ck.n(5, 40))]
    results = {}
    counts = ("1", "8", "3") if not ck.thorough else ("1", "2", "3", "4", "8", "16")
    for t in counts:
        env = dict(os.environ, NUMBA_NUM_THREADS=t)
        try:
            p = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "--child", json.dumps(jobs)], env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            ck.event("child_timeout")
            continue
        ck.case(dict(kind="threads", threads=t, systems=len(jobs)))
        line = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
        if not ck.expect(p.returncode == 0 and line, "threads.run", "the solvers do not run with this number of threads", threads=t, err=p.stderr[-600:]):
            continue
        results[t] = json.loads(line[0][7:])
        ck.event("thread_counts")
    if len(results) < 2:
        return
    base = results[counts[0]] if counts[0] in results else next(iter(results.values()))
    for t, res in results.items():
        for a, b in zip(base, res):
            ck.expect(a[0] == b[0] and a[2] == b[2], "threads.bits", "the result depends on the number of threads", scheme=a[0], threads=t, a=a[3][:8], b=b[3][:8])
        for i in range(0, len(res), 2):
            ck.expect(res[i][2] == res[i + 1][2], "repeat.bits", "a repeated run gives another result", scheme=res[i][0], threads=t)


def defaults(ck):
    """the shipped parameters on one fixed contact: a unit mass approaching an immovable plane"""
    L = contactlab.Lab(np.random.default_rng(20231119), 2, 1, mu=0.5, fixed0=True)
    L.b = np.array([-1.0, 0.5, 0.0, 0.0])
    for scheme in SCHEMES:
        ck.case(dict(kind="defaults", scheme=scheme, b=L.b, mu=L.mu))
        with ck.guard("solve.exception", "solving raises"):
            x, st = solve(L, scheme)
        v = L.velocity(x)
        ck.expect(x[0] >= 0, "push", "a normal impulse pulls", x=x)
        if st["p_exitcode"] == 1:
            ck.expect(v[0] > -0.05, "stall.default_parameters", "a contact reported as solved still approaches", scheme=scheme, b=L.b, x=x, v=v)


def unknown(ck):
    L = contactlab.Lab(ck.rng("u"), 3, 3)
    ck.case(dict(kind="unknown"))
    ck.expect_error(lambda: solve(L, "newton"), "scheme.unknown", "an unknown scheme is accepted")


ck.require(**{"sweep.gauss_seidel": 60, "sweep.parallel_gauss_seidel": 60, "sweep.parallel_jacobi": 60, "sweep.parallel_jacboi_hybrid": 60, "law": 20, "proper.greedy": 100, "proper.random": 100, "threads.bits": 20})
ck.run(first_sweeps, reused, agreement, colourings, threads, defaults, unknown)
