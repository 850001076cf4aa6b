import math
import re
from fractions import Fraction
import numpy as np
from vh import Check

import rainbow.math.polynomial as POLY

ck = Check("C30", "two-variable polynomials of order 0..6 with random, integer, tiny, zero and negative coefficients (every sign pattern of the leading terms), points with negative/zero/integer/large coordinates, "
                  "interpolation data on well separated points; non-trivial: at least one non-constant term with a non-zero coefficient.")


def powers(order):
    return [(p - j, j) for p in range(order + 1) for j in range(p + 1)]


def coeffs(rng, n):
    k = rng.integers(0, 5)
    if k == 0:
        c = rng.normal(size=n)
    elif k == 1:
        c = rng.integers(-3, 4, size=n).astype(float)
    elif k == 2:
        c = rng.choice([-1.0, 0.0, 1.0], size=n)
    elif k == 3:
        c = rng.normal(size=n) * 10.0 ** rng.uniform(-9, 9, size=n)
    else:
        c = rng.normal(size=n) * (rng.uniform(size=n) < 0.4)
    return c


def exact(pw, c, x):
    """exact rational value and the sum of absolute terms"""
    s, m = Fraction(0), Fraction(0)
    for (i, j), a in zip(pw, c):
        t = Fraction(float(a)) * Fraction(float(x[0])) ** int(i) * Fraction(float(x[1])) ** int(j)
        s += t
        m += abs(t)
    return float(s), float(m)


TERM = re.compile(r"(\d+(?:\.\d+)?(?:e[+-]?\d+)?)?\s*(x(?:\^(\d+))?)?\s*(y(?:\^(\d+))?)?")


def parse_poly(t):
    """text -> dict (i,j) -> coefficient"""
    out = {}
    t = t.strip()
    if t in ("", "0"):
        return out
    sign = 1.0
    if t[0] in "+-":
        sign = -1.0 if t[0] == "-" else 1.0
        t = t[1:].strip()
    while True:
        m = TERM.match(t)
        if not m or m.end() == 0:
            return None
        i = int(m.group(3) or 1) if m.group(2) else 0
        j = int(m.group(5) or 1) if m.group(4) else 0
        out[(i, j)] = out.get((i, j), 0.0) + sign * float(m.group(1) or 1)
        t = t[m.end():].strip()
        if not t:
            return out
        if t[0] not in "+-":
            return None
        sign = -1.0 if t[0] == "-" else 1.0
        t = t[1:].strip()


def as_dict(P):
    d = {}
    for (i, j), a in zip(P.powers, P.coefficients):
        if a != 0:
            d[(int(i), int(j))] = d.get((int(i), int(j)), 0.0) + float(a)
    return d


def algebra(ck):
    rng = ck.rng("alg")
    for k in range(ck.n(2000, 30000)):
        order = int(rng.integers(0, 7))
        with ck.guard("poly.raises"):
            P = POLY.Poly(2, order)
            pw = powers(order)
            ck.expect(len(pw) == P.terms == math.comb(order + 2, 2) == POLY.Helpers.number_of_monomial_terms(2, order), "poly.number_of_terms", "", order=order)
            ck.expect(sorted(map(tuple, P.powers.tolist())) == sorted(pw), "poly.monomials", "not every monomial exactly once", order=order)
            pw = [tuple(map(int, r)) for r in P.powers]
            c = coeffs(rng, len(pw))
            P.coefficients = c.copy()
            ck.case(dict(order=order, c=c), nontrivial=bool(np.any(c[1:] != 0)))
            x = rng.normal(size=2) * 10.0 ** rng.uniform(-2, 1)
            if k % 4 == 0:
                x = rng.integers(-3, 4, size=2).astype(float)
            if k % 11 == 0:
                x[rng.integers(0, 2)] = 0.0
            w, m = exact(pw, c, x)
            ck.close(POLY.evaluate(P, x), w, "poly.evaluate", tol=1e-12, scale=m + 1e-300, order=order, c=c, x=x)
            ck.close(P(x), w, "poly.call", tol=1e-12, scale=m + 1e-300)
            dP = POLY.derivative(P)
            ck.expect(len(dP) == 2, "poly.derivative_count")
            for d in range(2):
                dpw = [(i - (d == 0), j - (d == 1)) for i, j in pw]
                dc = [a * (i, j)[d] for (i, j), a in zip(pw, c)]
                live = [(p, a) for p, a in zip(dpw, dc) if a != 0]
                w, m = exact([p for p, _ in live], [a for _, a in live], x)
                ck.close(dP[d](x), w, "poly.derivative", tol=1e-12, scale=m + 1e-300, order=order, c=c, x=x, d=d)
                want = {p: a for p, a in live}
                ck.expect(as_dict(dP[d]) == want, "poly.derivative_terms", "", got=as_dict(dP[d]), want=want)
                dd = POLY.derivative(dP[d])
                for e in range(2):
                    pw2 = [(i - (e == 0), j - (e == 1)) for i, j in want]
                    c2 = [a * (i, j)[e] for (i, j), a in want.items()]
                    lv = [(p, a) for p, a in zip(pw2, c2) if a != 0]
                    w, m = exact([p for p, _ in lv], [a for _, a in lv], x)
                    ck.close(dd[e](x), w, "poly.second_derivative", tol=1e-12, scale=m + 1e-300, c=c, x=x)
            ck.expect(np.array_equal(P.coefficients, c) and [tuple(map(int, r)) for r in P.powers] == pw, "poly.unchanged", "an operation changed the polynomial")
            for Z in [P] + dP:
                t = POLY.to_str(Z)
                ck.expect(t == str(Z), "poly.str_same")
                got = parse_poly(t)
                ck.expect(got == as_dict(Z), "poly.printed_form", "the printed form denotes another polynomial", text=t, parsed=got, want=as_dict(Z))
    for bad in (lambda: POLY.Poly(2, -1), lambda: POLY.Poly(0, 2), lambda: POLY.Poly(4, 2), lambda: POLY.evaluate(POLY.Poly(2, 2), np.zeros(3)),
                lambda: POLY.Helpers.number_of_monomial_terms(2, -1), lambda: POLY.Helpers.number_of_monomial_terms(0, 1), lambda: POLY.Helpers.number_of_monomial_terms(4, 1),
                lambda: POLY.interpolate(0, np.zeros((3, 2)), np.zeros(3)), lambda: POLY.interpolate(2, np.zeros((5, 2)), np.zeros(5)), lambda: POLY.interpolate(2, np.zeros((6, 4)), np.zeros(6)),
                lambda: POLY.interpolate(1, np.array([[0, 0], [1, 0], [0, 1.0]]), np.zeros(2))):
        ck.expect_error(bad, "poly.invalid_rejected", "illegal argument accepted")
    for d in (1, 2, 3):
        for o in range(0, 8):
            n = sum(1 for a in range(o + 1) for b in range(o + 1 if d > 1 else 1) for c in range(o + 1 if d > 2 else 1) if a + b + c <= o)
            ck.expect(POLY.Helpers.number_of_monomial_terms(d, o) == n, "poly.number_of_terms", "", d=d, order=o)


def interpolation(ck):
    rng = ck.rng("interp")
    for k in range(ck.n(400, 5000)):
        order = int(rng.choice([1, 2, 3, 4, 5, 6, 7], p=[.2, .2, .15, .15, .1, .1, .1]))
        K = math.comb(order + 2, 2)
        # principal lattice points, distorted and moved: uniquely solvable
        L = np.array([[i / order, j / order] for i in range(order + 1) for j in range(order + 1 - i)])
        x = (L + rng.uniform(-0.08, 0.08, size=L.shape) / order) * (rng.uniform(0.5, 2) + (order > 4)) + rng.uniform(-1, 1, size=2) * (1 if order < 5 else 0.3)
        x = x[rng.permutation(K)]
        extra = int(rng.integers(0, 3))
        x = np.vstack([x, rng.uniform(-1, 1, size=(extra, 2))])
        ncol = int(rng.integers(0, 7))
        pw = powers(order)
        C = rng.normal(size=(K, max(1, ncol)))
        Vd = np.array([[x[r, 0] ** i * x[r, 1] ** j for (i, j) in pw] for r in range(len(x))])
        v = Vd @ C
        v = v[:, 0] if ncol == 0 else v
        x0, v0 = x.copy(), v.copy()
        ck.case(dict(order=order, x=x, ncol=ncol))
        cond = np.linalg.cond(Vd[:K])
        if cond > 1e8:
            continue
        tol = 1e-13 * cond + 1e-11
        ck.event("order%d" % order)
        with ck.guard("poly.raises"):
            V = POLY.Helpers.make_vandermonde_matrix(order, x)
            Ps = POLY.interpolate(order, x, v)
            ck.expect(len(Ps) == max(1, ncol), "interpolate.count")
            pwP = [tuple(map(int, r)) for r in Ps[0].powers]
            ck.close(V, np.array([[x[r, 0] ** i * x[r, 1] ** j for (i, j) in pwP] for r in range(K)]), "interpolate.vandermonde", tol=1e-12)
            for q, P in enumerate(Ps):
                vals = [P(x[r]) for r in range(K)]
                ck.close(vals, v[:K] if ncol == 0 else v[:K, q], "interpolate.passes_through_data", tol=tol, order=order, x=x)
                y = rng.uniform(-1, 1, size=2)
                ck.close(P(y), sum(c * y[0] ** i * y[1] ** j for (i, j), c in zip(pw, C[:, q])), "interpolate.reproduces_polynomial", tol=tol * 10, scale=10, order=order)
            ck.expect(np.array_equal(x, x0) and np.array_equal(v, v0), "interpolate.argument_changed")


ck.require(**{"poly.evaluate": 500, "poly.printed_form": 500, "interpolate.passes_through_data": 100, "order6": 8})
ck.run(algebra, interpolation)
