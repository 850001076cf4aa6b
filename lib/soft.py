"""Builders and reference physics for the soft body checks."""
import numpy as np
from scipy.spatial import Delaunay

import vh

import rainbow.geometry.volume_mesh as VM
import rainbow.simulators.prox_soft_bodies.api as API

MODELS = ["SVK", "COR", "SNH"]


def engine(**params):
    with vh.small_hash_tables():
        e = API.create_engine()
    e.params.resolution = 12
    for k, v in params.items():
        assert hasattr(e.params, k), k
        setattr(e.params, k, v)
    return e


def volumes(x, T):
    E = x[T[:, 1:]] - x[T[:, :1]]
    return np.einsum("ki,ki->k", E[:, 0], np.cross(E[:, 1], E[:, 2])) / 6


def clean(P, T, small=1e-3):
    """positively oriented tetrahedra without slivers, unused nodes dropped"""
    T = np.array(T, np.int64)
    v = volumes(P, T)
    T[v < 0] = T[v < 0][:, [0, 2, 1, 3]]
    size = np.ptp(P, axis=0).max() ** 3 / max(1, len(T))
    T = T[np.abs(v) > small * size]
    used = np.unique(T)
    m = -np.ones(len(P), int)
    m[used] = np.arange(len(used))
    return np.ascontiguousarray(P[used]), np.ascontiguousarray(m[T])


def ball(rng, n=30, inner=8, r=0.5):
    """convex blob of irregular tetrahedra"""
    P = rng.normal(size=(n, 3))
    P /= np.linalg.norm(P, axis=1)[:, None]
    # spread the points so that the facets are of similar size
    for _ in range(20):
        d = P[:, None] - P[None]
        q = np.einsum("ijk,ijk->ij", d, d) + np.eye(n)
        P = P + 0.5 / n * np.sum(d / q[..., None] ** 1.5, axis=1)
        P /= np.linalg.norm(P, axis=1)[:, None]
    Q = rng.normal(size=(inner, 3))
    Q *= (0.55 * rng.random((inner, 1)) ** (1 / 3)) / np.linalg.norm(Q, axis=1)[:, None]
    X = np.vstack([P, Q]) * r
    return clean(X, Delaunay(X).simplices, 1e-4)


def beam(nx=3, ny=2, nz=2, wx=1.0, wy=0.6, wz=0.6):
    V, T = VM.create_beam(nx, ny, nz, wx, wy, wz)
    return np.array(V, float), np.array(T, np.int64)


def mesh(rng, kind=None):
    kind = kind or rng.choice(["ball", "beam", "tet", "two"])
    if kind == "ball":
        return ball(rng, int(rng.integers(12, 26)), int(rng.integers(1, 6)))
    if kind == "beam":
        return beam(int(rng.integers(2, 5)), int(rng.integers(2, 4)), int(rng.integers(2, 4)), *rng.uniform(0.4, 1.5, 3))
    if kind == "tet":
        V = rng.normal(size=(4, 3)) * 0.1 + np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]])
        return clean(V, [[0, 1, 2, 3]])
    V = rng.normal(size=(5, 3)) * 0.05 + np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0], [0, 0, -1.0]])
    return clean(V, [[0, 1, 2, 3], [0, 2, 1, 4]])


def lame(E, nu):
    return E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))


def polar(F):
    U, s, Vt = np.linalg.svd(F)
    return U @ Vt, (Vt.T * s) @ Vt


def energy(model, F, lam, mu):
    if model == "SVK":
        E = 0.5 * (F.T @ F - np.eye(3))
        return 0.5 * lam * np.trace(E) ** 2 + mu * np.sum(E * E)
    if model == "COR":
        R, S = polar(F)
        return mu * np.sum((F - R) ** 2) + 0.5 * lam * np.trace(S - np.eye(3)) ** 2
    m, l = 4 / 3 * mu, lam + 5 / 6 * mu
    a = 1 + 0.75 * m / l
    I = np.sum(F * F)
    return 0.5 * m * (I - 3) + 0.5 * l * (np.linalg.det(F) - a) ** 2 - 0.5 * m * np.log(I + 1)


def stress(model, F, lam, mu):
    if model == "SVK":
        E = 0.5 * (F.T @ F - np.eye(3))
        return F @ (lam * np.trace(E) * np.eye(3) + 2 * mu * E)
    if model == "COR":
        R, S = polar(F)
        return 2 * mu * (F - R) + lam * np.trace(S - np.eye(3)) * R
    m, l = 4 / 3 * mu, lam + 5 / 6 * mu
    a = 1 + 0.75 * m / l
    I, J = np.sum(F * F), np.linalg.det(F)
    return m * (1 - 1 / (I + 1)) * F + l * (J - a) * J * np.linalg.inv(F).T


class Body:
    """what the harness knows about a soft body it built"""

    def __init__(self, e, name, V, T, model="SVK", E=1e4, nu=0.3, rho=1000.0, c=0.0, g=(0.0, 0.0, 0.0), material=None):
        self.e, self.name = e, name
        self.model, self.E, self.nu, self.rho, self.c, self.g = model, float(E), float(nu), float(rho), float(c), np.array(g, float)
        material = material or name + "-material"
        if material not in e.materials:
            API.create_material(e, material)
            API.set_elasticity(e, material, E, nu)
            API.set_mass_density(e, material, rho)
            API.set_viscosity(e, material, c)
            API.set_constitutive_model(e, material, getattr(API, model))
        self.material = material
        API.create_soft_body(e, name, np.array(V, float), np.array(T))
        API.set_material(e, name, material)
        API.set_gravity(e, name, np.array(g, float))
        self.fixed = False
        self.pins = {}
        self.loads = []          # (triangle, load)
        self.read()

    def read(self):
        b = self.e.bodies[self.name]
        self.x0, self.T = np.array(b.x0, float), np.array(b.T, int)
        self.vol = volumes(self.x0, self.T)
        D0 = np.swapaxes(self.x0[self.T[:, 1:]] - self.x0[self.T[:, :1]], 1, 2)
        self.invD0 = np.linalg.inv(D0)

    @property
    def b(self):
        return self.e.bodies[self.name]

    @property
    def mass(self):
        m = np.zeros(len(self.x0))
        np.add.at(m, self.T.ravel(), np.repeat(self.rho * self.vol / 4, 4))
        return m

    def state(self):
        return np.array(self.b.x, float), np.array(self.b.u, float)

    def gradients(self, x):
        D = np.swapaxes(x[self.T[:, 1:]] - x[self.T[:, :1]], 1, 2)
        return D @ self.invD0

    def elastic(self, x, st=stress):
        lam, mu = lame(self.E, self.nu)
        f = np.zeros_like(x)
        for t, F, iD, v in zip(self.T, self.gradients(x), self.invD0, self.vol):
            H = -v * st(self.model, F, lam, mu) @ iD.T
            f[t[1:]] += H.T
            f[t[0]] -= H.sum(axis=1)
        return f

    def stored(self, x, en=energy):
        lam, mu = lame(self.E, self.nu)
        return float(sum(v * en(self.model, F, lam, mu) for F, v in zip(self.gradients(x), self.vol)))

    def traction(self, x):
        f = np.zeros_like(x)
        for (i, j, k), load in self.loads:
            A = 0.5 * np.linalg.norm(np.cross(x[j] - x[i], x[k] - x[i]))
            for n in (i, j, k):
                f[n] += A * load / 3
        return f

    def damping(self, u):
        cv = np.zeros(len(u))
        np.add.at(cv, self.T.ravel(), np.repeat(self.c * self.vol / 4, 4))
        return -cv[:, None] * u

    def held(self):
        return list(range(len(self.x0))) if self.fixed else list(self.pins)

    def step(self, x, u, dt):
        """one semi-implicit Euler step without contacts"""
        x, u = x.copy(), u.copy()
        pins = list(self.pins)
        if pins:
            x[pins] = [self.pins[i] for i in pins]
        u[self.held()] = 0
        m = self.mass[:, None]
        F = self.elastic(x) + self.traction(x) + self.damping(u) + m * self.g
        u = u + dt * F / m
        u[self.held()] = 0
        return x + dt * u, u
