"""Synthetic contact problems for the stand-alone solvers, and the contact law they have to satisfy."""
from types import SimpleNamespace

import numpy as np
import scipy.sparse as sparse

import rainbow.simulators.prox_rigid_bodies.types as TYPES


def frame(n):
    a = np.eye(3)[int(np.argmin(np.abs(n)))]
    s = np.cross(n, a)
    s /= np.linalg.norm(s)
    return s, np.cross(n, s)


class Lab:
    """N bodies, K contacts between random pairs (body 0 may be immovable)"""

    def __init__(self, rng, N, K, mu=None, fixed0=True, local=True, speed=1.0):
        self.N, self.K = N, K
        self.bodies = [SimpleNamespace(idx=i) for i in range(N)]
        m = 10 ** rng.uniform(-0.7, 0.7, N)
        W = []
        for i in range(N):
            w = 0.0 if (i == 0 and fixed0) else 1.0
            A = rng.normal(size=(3, 3))
            I = (A @ A.T + 3 * np.eye(3)) * m[i] * 0.2
            W += [w * np.eye(3) / m[i], w * np.linalg.inv(I)]
        self.W = sparse.block_diag(W).tobsr(blocksize=(3, 3))
        rows = []
        self.cps, self.pairs = [], []
        for k in range(K):
            if local:
                i = int(rng.integers(N - 1)) if N > 2 else 0
                j = min(N - 1, i + 1 + int(rng.integers(2)))
            else:
                i, j = (int(x) for x in rng.choice(N, 2, replace=False))
            if rng.random() < 0.5:
                i, j = j, i
            n = rng.normal(size=3)
            n /= np.linalg.norm(n)
            s, t = frame(n)
            ra, rb = rng.normal(size=3) * 0.6, rng.normal(size=3) * 0.6
            R = np.zeros((4, 6 * N))
            for r, d in enumerate((n, s, t)):
                R[r, 6 * i:6 * i + 3], R[r, 6 * i + 3:6 * i + 6] = -d, -np.cross(ra, d)
                R[r, 6 * j:6 * j + 3], R[r, 6 * j + 3:6 * j + 6] = d, np.cross(rb, d)
            R[3, 6 * i + 3:6 * i + 6], R[3, 6 * j + 3:6 * j + 6] = -n, n
            rows.append(R)
            self.cps.append(SimpleNamespace(bodyA=self.bodies[i], bodyB=self.bodies[j]))
            self.pairs.append((i, j))
        self.J = sparse.csr_matrix(np.vstack(rows))
        self.mu = np.full(K, mu) if mu is not None else rng.choice([0.0, 0.2, 0.6, 1.0], K)
        u = rng.normal(size=6 * N) * speed
        if fixed0:
            u[:6] = 0
        self.u = u
        self.b = self.J.dot(u)
        self.WJT = self.W.dot(self.J.T)
        self.A = (self.J @ self.WJT).toarray()

    def rescale(self, mass, speed):
        self.W, self.WJT, self.A = self.W / mass, self.WJT / mass, self.A / mass
        self.u, self.b = self.u * speed, self.b * speed

    def permuted(self, p):
        import copy
        L = copy.copy(self)
        idx = np.concatenate([np.arange(4 * k, 4 * k + 4) for k in p])
        L.J = self.J[idx]
        L.WJT = self.W.dot(L.J.T)
        L.A = (L.J @ L.WJT).toarray()
        L.b, L.mu = self.b[idx], self.mu[p]
        L.cps = [self.cps[k] for k in p]
        L.pairs = [self.pairs[k] for k in p]
        return L

    def engine(self, **params):
        P = TYPES.Parameters()
        for k, v in params.items():
            assert hasattr(P, k), k
            setattr(P, k, v)
        return SimpleNamespace(contact_points=self.cps, params=P, simulator_type="rigid_body")

    def velocity(self, x):
        return self.A @ x + self.b

    def project(self, z, k, xn):
        R = self.mu[k] * max(xn, 0)
        l = np.linalg.norm(z)
        return z if l <= R else z * (R / l) if R > 0 else np.zeros(3)

    def law(self, x):
        """how far an impulse is from the fixed point of the proximal map (normal >= 0, friction in the sphere, maximal dissipation)"""
        d = np.diag(self.A).copy()
        d[d == 0] = 1
        z = x - (self.A @ x + self.b) / d
        worst = 0.0
        for k in range(self.K):
            xn = max(0.0, z[4 * k])
            xf = self.project(z[4 * k + 1:4 * k + 4], k, x[4 * k])
            worst = max(worst, abs(xn - x[4 * k]), float(np.max(np.abs(xf - x[4 * k + 1:4 * k + 4]))))
        return worst

    def sweep(self, x, r, order):
        """one Gauss-Seidel sweep over the contacts in the given order"""
        x = x.copy()
        for k in order:
            B = slice(4 * k, 4 * k + 4)
            z = x[B] - r[B] * (self.A[B] @ x + self.b[B])
            xn = max(0.0, z[0])
            x[B] = np.r_[xn, self.project(z[1:], k, xn) if xn > 0 else np.zeros(3)]
        return x

    def jacobi(self, x, r, hybrid):
        z = x - r * (self.A @ x + self.b)
        y = x.copy()
        for k in range(self.K):
            xn = max(0.0, z[4 * k])
            R = xn if hybrid else x[4 * k]
            y[4 * k] = xn
            y[4 * k + 1:4 * k + 4] = self.project(z[4 * k + 1:4 * k + 4], k, R) if R > 0 else 0
        return y
