import numpy as np
from vh import Check

import contactlab
import meshes
from rigid import World, API

import rainbow.simulators.prox_rigid_bodies.constraints.problem as PROBLEM
import rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver as SOLVER
import rainbow.simulators.proximal_contact.prox_solvers as PS
import rainbow.simulators.proximal_contact.proximal_operators as PC

ck = Check("C21", "the iteration logs of every stand-alone scheme on random contact systems (well posed, immovable bodies, frictionless, one contact, contradictory contacts) and the problems of the rigid solver - scripted ones whose "
                  "changes rise and fall at will, alone and in groups, and those of real scenes with contacts, hinges and stabilisation - under tolerances 0..1e-1, limits 1..200, growth factors 1..2; replayed against the "
                  "documented accept/reject automaton; non-trivial: at least one rejection.")

SCHEMES = ["gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid"]


def parameters(rng):
    return dict(max_iterations=int(rng.choice([1, 2, 5, 30, 80])), nu_reduce=float(rng.choice([0.5, 0.8, 0.99])), nu_increase=float(rng.choice([1.0, 1.1, 1.3, 2.0])),
                too_small_merit_change=float(rng.choice([0.0, 1e-4, 0.01, 1.0])), absolute_tolerance=float(rng.choice([0.0, 1e-12, 1e-6, 1e-3, 0.1])), relative_tolerance=float(rng.choice([0.0, 1e-6, 1e-3, 0.05])))


def order_of(L, scheme):
    if scheme == "gauss_seidel":
        return range(L.K)
    import rainbow.simulators.proximal_contact.blocking as BLOCKING
    return [s // 4 for g in BLOCKING.greedy_graph_coloring(BLOCKING.build_contact_graph(L.cps, "rigid_body")).values() for s, _ in g]


def standalone(ck):
    rng = ck.rng("standalone")
    for it in range(ck.n(120, 1500)):
        if ck.time_left() < 0:
            break
        K = int(rng.integers(1, 12))
        N = int(rng.integers(2, K + 3))
        L = contactlab.Lab(rng, N, K, mu=None if rng.random() < 0.5 else float(rng.choice([0.0, 0.8])), fixed0=bool(rng.random() < 0.7), local=bool(rng.random() < 0.6))
        if rng.random() < 0.15:                       # nothing can move
            L.WJT = L.WJT * 0
            L.A = L.A * 0
        if rng.random() < 0.1:
            L.b = L.b * 0
        P = parameters(rng)
        scheme = SCHEMES[it % 4]
        debug = rng.random() < 0.85
        ins = [L.J.copy(), L.WJT.copy(), L.b.copy(), np.asarray(L.mu, float).copy()]
        keep = [ins[0].toarray(), ins[1].toarray(), ins[2].copy(), ins[3].copy()]
        stats = {"mine": 1}
        E = L.engine(**P)
        kept_params = dict(vars(E.params))
        desc = dict(kind="standalone", scheme=scheme, N=N, K=K, params=P, debug=debug)
        with ck.guard("solve.exception", "solving raises"):
            sol, st = PS.solve(*ins, PC.prox_sphere, E, stats, debug, "", scheme)
        if ck.violations:
            return
        sol = np.array(sol)
        ck.expect(all(np.array_equal(a.toarray() if hasattr(a, "toarray") else a, b) for a, b in zip(ins, keep)) and dict(vars(E.params)) == kept_params, "inputs", "a solve changed its inputs", scheme=scheme)
        ck.expect(st is stats and st.get("mine") == 1, "stats.kept", "statistics of the caller are lost")
        ck.expect(sol.shape == L.b.shape and np.all(np.isfinite(sol)) and not any(np.shares_memory(sol, i) for i in ins[2:]), "result", "the result is not a new finite array", sol=sol)
        d = np.diag(L.A).copy()
        d[d == 0] = 1.0
        r = 0.1 / d
        if not debug:
            ck.expect(set(st) == {"mine"}, "stats.off", "statistics are written although debugging is off", keys=list(st))
            ck.case(desc, nontrivial=False)
            # the same solve with its log on returns the same bits
            again, _ = PS.solve(*ins, PC.prox_sphere, L.engine(**P), {}, True, "", scheme)
            ck.expect(np.array_equal(again, sol), "debug.same", "the log changes the result", scheme=scheme)
            continue
        pre = scheme + "_"
        lam, res, rej, code, its = (st[pre + k] for k in ("lambda", "residuals", "reject", "exitcode", "iterations"))
        ck.expect(st[pre + "solver_time"] >= 0, "time", "a solver time is negative")
        limit = P["max_iterations"]
        acc, last = np.zeros(4 * K), np.inf
        rejections = 0
        stopped = None
        fuzzy = False
        for i in range(limit):
            x = np.asarray(lam[i])
            want = L.sweep(acc, r, order_of(L, scheme)) if scheme in SCHEMES[:2] else L.jacobi(acc, r, scheme == SCHEMES[3])
            ck.close(x, want, "continues", "an iterate does not start from the best accepted one with the current step size", tol=1e-9, scheme=scheme, iteration=i, params=P)
            merit = float(np.max(np.abs(x - acc)))
            if not ck.close(res[i], merit, "residual", "a recorded residual is not the change of its iterate", tol=1e-12, scale=1e-300, iteration=i):
                break
            if merit < P["absolute_tolerance"]:
                stopped = (1, i)
            elif abs(merit - last) < P["relative_tolerance"] * last and np.isfinite(last):
                stopped = (2, i)
            if stopped:
                break
            if np.isfinite(last) and abs(merit - last) <= 1e-13 * last and merit != last:
                fuzzy = True
                break
            bad = merit > last
            ck.expect(bool(rej[i]) == bad, "flag", "a reject flag does not tell whether the iterate was rejected", iteration=i, merit=merit, last=last)
            if bad:
                r = r * P["nu_reduce"]
                rejections += 1
            else:
                if last - merit < P["too_small_merit_change"]:
                    r = r * P["nu_increase"]
                acc, last = x, merit
        if fuzzy or ck.violations:
            continue
        ck.case(desc, nontrivial=rejections > 0)
        ck.event("rejections", rejections)
        if stopped:
            ck.event("exit%d" % stopped[0])
            ck.expect((code, its) == stopped, "exit", "the exit status or iteration count is not that of the log", got=(code, its), want=stopped)
            ck.expect(np.array_equal(sol, acc) or np.array_equal(sol, lam[its]), "best", "the result is neither the last accepted nor the final iterate", sol=sol, accepted=acc)
            ck.expect(np.all(np.isinf(res[its + 1:])) and not np.any(rej[its + 1:]), "after", "entries after the end are filled in")
        else:
            ck.event("exit0")
            ck.expect(code == 0 and its == limit, "exit", "the exit status or iteration count is not that of the log", got=(code, its), want=(0, limit))
            ck.expect(np.array_equal(sol, acc), "best", "the result is not the last accepted iterate", sol=sol, accepted=acc)


class Script(PROBLEM.Problem):
    """a problem whose iterates move by scripted distances, whatever the solver does"""

    def __init__(self, rng, moves, size):
        super().__init__("script")
        self.rng, self.moves = rng, list(moves)
        self.x, self.sol, self.error, self.r = np.zeros(size), np.zeros(size), np.zeros(size), np.full(size, 1.0)
        self.log = []
        self.k = 0

    def initialize(self, dt, state, engine):
        pass

    def finalize_solution(self):
        return self.sol

    def sweep(self):
        before, r = self.x.copy(), self.r.copy()
        s = self.moves[min(self.k, len(self.moves) - 1)]
        self.k += 1
        d = self.rng.uniform(-1, 1, self.x.size)
        self.x += s * d / np.max(np.abs(d))
        self.log.append((before, self.sol.copy(), self.x.copy(), r))


def replay(ck, probs, logs, P, data, prefix, profiling, rough):
    """logs[p] = [(x before, best, x after, r)] per sweep of problem p; the automaton of the documentation"""
    n = max(len(l) for l in logs)
    ck.expect(all(len(l) == n for l in logs), "rigid.turns", "the problems are not swept equally often", sweeps=[len(l) for l in logs])
    ck.expect(1 <= n <= P["max_iterations"], "rigid.limit", "the iteration limit is exceeded", n=n, limit=P["max_iterations"])
    last = [np.inf] * len(logs)
    acc = [l[0][1] for l in logs]
    rejections = 0
    quiet, previous, worst, diverged = False, np.inf, 0.0, False
    for i in range(n):
        worst, diverged = 0.0, False
        for p, l in enumerate(logs):
            if i >= len(l):
                return None
            before, best, after, r = l[i]
            ck.expect(np.array_equal(before, acc[p]) and np.array_equal(best, acc[p]), "rigid.continues", "a sweep does not start from the best accepted iterate", iteration=i, problem=p, before=before, best=best, want=acc[p])
            merit = float(np.max(np.abs(after - acc[p])))
            bad = merit > last[p]
            if i + 1 < len(l):
                f = l[i + 1][3] / np.where(r == 0, 1, r)
                f = f[r != 0]
                if bad:
                    ck.expect(np.allclose(f, P["nu_reduce"], rtol=1e-12), "rigid.step", "a diverging problem does not reduce its step size", factor=f, iteration=i, problem=p)
                elif last[p] - merit < P["too_small_merit_change"]:
                    ck.expect(np.allclose(f, P["nu_increase"], rtol=1e-12), "rigid.step", "a slow problem does not grow its step size", factor=f, iteration=i, problem=p)
                else:
                    ck.expect(np.allclose(f, 1.0, rtol=1e-12), "rigid.step", "the step size of a converging problem changes", factor=f, iteration=i, problem=p)
            if bad:
                rejections += 1
                diverged = True
                worst = max(worst, last[p])
            else:
                acc[p], last[p] = after, merit
                worst = max(worst, merit)
        if profiling:
            ck.close(data[prefix + "residuals"][i], worst, "rigid.residual", "a recorded residual is not the largest change", tol=1e-12, scale=1e-300, iteration=i)
        if not diverged:
            stop = worst < P["absolute_tolerance"] or abs(worst - previous) < P["relative_tolerance"] * previous
            if i + 1 < n:
                ck.expect(not stop or abs(worst - previous) > 0.999999 * P["relative_tolerance"] * previous, "rigid.stop", "the solver goes on after it has converged", iteration=i, worst=worst, previous=previous)
            previous = worst
    for p, prob in enumerate(probs):
        ck.expect(np.array_equal(prob.sol, acc[p]), "rigid.best", "the solution is not the last accepted iterate", problem=p, sol=prob.sol, want=acc[p])
    if profiling:
        code, its = data[prefix + "exitcode"], data[prefix + "iterations"]
        ck.event("rigid.exit%d" % code)
        if code == 0:
            ck.expect(n == its == P["max_iterations"], "rigid.exit", "a solve without convergence did not use its iterations", n=n, its=its)
        else:
            ck.expect(its == n - 1 and not diverged and code in (1, 2), "rigid.exit", "a solve reported as converged ended with a rejected iterate", n=n, its=its, code=code, diverged=diverged)
            ck.expect(code != 1 or worst < P["absolute_tolerance"], "rigid.exit", "a solve reported as converged has a large last change", worst=worst)
        ck.expect(np.all(np.isinf(data[prefix + "residuals"][n:])), "rigid.after", "entries after the end are filled in")
        ck.expect(data[prefix + "solver_time"] >= 0, "rigid.time", "no solver time")
    return rejections


def scripted(ck):
    rng = ck.rng("scripted")
    for it in range(ck.n(1500, 20000)):
        if ck.time_left() < 0:
            break
        e = API.create_engine()
        P = parameters(rng)
        for k, v in P.items():
            setattr(e.params, k, v)
        probs = []
        for p in range(int(rng.integers(1, 4))):
            n = int(rng.integers(1, 90))
            kind = rng.choice(["down", "noise", "spikes", "flat", "stop"])
            m = 10 ** rng.uniform(-1, 1) * np.cumprod(rng.uniform(0.5, 1, n))
            if kind == "noise":
                m *= np.exp(rng.normal(size=n))
            elif kind == "spikes":
                m[rng.random(n) < 0.2] *= 50
            elif kind == "flat":
                m[:] = m[0]
            elif kind == "stop":
                m[n // 2:] = 0
            probs.append(Script(ck.rng("script", it, p), m, int(rng.integers(1, 9))))
        profiling = bool(rng.random() < 0.8)
        data = {"mine": 1}
        with ck.guard("rigid.exception", "solving raises"):
            SOLVER.solve(e, list(probs), data, profiling, "t_")
        if not profiling:
            ck.expect(set(data) == {"mine"}, "rigid.off", "profiling data are written although profiling is off", keys=list(data))
        k = replay(ck, probs, [p.log for p in probs], P, data, "t_", profiling, False)
        ck.case(dict(kind="scripted", params=P, moves=[p.moves[:4] for p in probs], sweeps=len(probs[0].log)), nontrivial=bool(k))
        if k:
            ck.event("rigid.rejections", k)



def scenes(ck):
    """the problems of real steps, watched from outside"""
    rng = ck.rng("scenes")
    real = SOLVER.solve
    current = {}

    def watched(engine, problems, *a, **k):
        problems = list(problems)
        logs = []
        for p in problems:
            log = []
            logs.append(log)

            def sweep(p=p, log=log, inner=p.sweep):
                before, best, r = p.x.copy(), p.sol.copy(), p.r.copy()
                out = inner()
                log.append((before, best, p.x.copy(), r))
                return out

            p.sweep = sweep
        out = real(engine, problems, *a, **k)
        data = k.get("performance_data", a[0] if a else {})
        profiling = k.get("profiling_on", a[1] if len(a) > 1 else False)
        prefix = k.get("prefix", a[2] if len(a) > 2 else "")
        n = replay(ck, problems, logs, {x: getattr(engine.params, x) for x in current}, data, prefix, profiling, True)
        ck.event("watched.solves")
        ck.event("watched.sweeps", sum(map(len, logs)))
        if n:
            ck.event("watched.rejections", n)
        for p in problems:
            del p.sweep
        return out

    SOLVER.solve = watched
    try:
        for it in range(ck.n(10, 120)):
            if ck.time_left() < 0:
                break
            P = parameters(rng)
            current = P
            W = World(resolution=8, use_bounce=bool(rng.random() < 0.5), use_pre_stabilization=bool(rng.random() < 0.5), use_post_stabilization=bool(rng.random() < 0.5), **P)
            API.create_gravity_force(W.e, "g", 9.81, np.array([0.0, 0, 1]))
            W.shape("ball", *meshes.sphere(0.5, 1))
            W.shape("slab", *meshes.grid_box(2, 2, 0.5, 3))
            W.body("slab", "slab", (0, 0, -0.5), fixed=True)
            n = int(rng.integers(1, 5))
            for i in range(n):
                W.body("ball", "b%d" % i, (rng.uniform(-1, 1), rng.uniform(-1, 1), 0.49 + 0.97 * i), v=rng.normal(size=3), w=rng.normal(size=3), forces=["g"])
            if n > 1 and rng.random() < 0.6:
                API.create_hinge(W.e, "h")
                API.set_hinge(W.e, "h", "b0", "b1", 0.5 * (API.get_position(W.e, "b0") + API.get_position(W.e, "b1")), np.array([1.0, 0, 0]), "world")
            ck.case(dict(kind="scene", params=P, bodies=n, hinges=len(W.e.hinges)))
            with ck.guard("scene.exception", "a step raises"):
                W.step(4, True)
    finally:
        SOLVER.solve = real


ck.require(**{"continues": 500, "residual": 500, "exit": 60, "best": 60, "rejections": 30, "exit0": 5, "exit1": 5, "rigid.step": 2000, "rigid.exit": 500, "rigid.rejections": 300, "rigid.exit1": 20, "rigid.exit2": 20, "rigid.exit0": 20})
ck.run(standalone, scripted, scenes)
