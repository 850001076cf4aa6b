"""Builders and reference physics for the rigid body checks."""
import numpy as np

import meshes
import ref

import rainbow.simulators.prox_rigid_bodies.api as API


class World:
    """Thin convenience layer over the public API that remembers what it built."""

    def __init__(self, resolution=12, envelope=0.05, slack=1, **params):
        self.e = API.create_engine()
        self.e.params.resolution = resolution
        self.e.params.envelope = envelope
        for k, v in params.items():
            assert hasattr(self.e.params, k), k
            setattr(self.e.params, k, v)
        self.slack = slack              # steps are shorter than the engine's time step by this power of two
        self.e.params.time_step *= slack
        self.n = 0

    @property
    def dt(self):
        return self.e.params.time_step / self.slack

    def shape(self, name, V, T):
        API.create_shape(self.e, name, API.create_mesh(np.array(V, float), np.array(T, np.int64)))

    def body(self, shape, name=None, r=(0, 0, 0), q=(1, 0, 0, 0), v=(0, 0, 0), w=(0, 0, 0), rho=1.0, fixed=False, forces=(), material=None, model=False):
        e = self.e
        name = name or "b%d" % self.n
        self.n += 1
        API.create_rigid_body(e, name)
        API.connect_shape(e, name, shape)
        API.set_orientation(e, name, np.array(q, float), use_model_frame=model)
        API.set_position(e, name, np.array(r, float), use_model_frame=model)
        API.set_velocity(e, name, np.array(v, float))
        API.set_spin(e, name, np.array(w, float))
        API.set_mass_properties(e, name, rho)
        API.set_body_type(e, name, "fixed" if fixed else "free")
        for f in forces:
            API.connect_force(e, name, f)
        if material is not None:
            API.set_body_material(e, name, material)
        return name

    def step(self, k=1, profiling=False):
        for _ in range(k):
            API.simulate(self.e, self.dt, profiling)

    def state(self, name):
        e = self.e
        return (API.get_position(e, name), API.get_orientation(e, name), API.get_velocity(e, name), API.get_spin(e, name))

    def states(self):
        return {n: self.state(n) for n in self.e.bodies}

    def flat(self):
        return np.concatenate([np.concatenate(self.state(n)) for n in self.e.bodies])


def inertia_world(b, q):
    R = ref.qmat(q)
    return R @ np.diag(np.asarray(b.inertia, float)) @ R.T


def momentum(e, names=None):
    """Total linear and angular momentum (about the world origin) of the named free bodies."""
    P, L = np.zeros(3), np.zeros(3)
    for n, b in e.bodies.items():
        if (names is not None and n not in names) or b.is_fixed:
            continue
        r, q, v, w = (API.get_position(e, n), API.get_orientation(e, n), API.get_velocity(e, n), API.get_spin(e, n))
        P += b.mass * v
        L += np.cross(r, b.mass * v) + inertia_world(b, q) @ w
    return P, L


def kinetic(e, names=None):
    K = 0.0
    for n, b in e.bodies.items():
        if (names is not None and n not in names) or b.is_fixed:
            continue
        q, v, w = API.get_orientation(e, n), API.get_velocity(e, n), API.get_spin(e, n)
        K += 0.5 * b.mass * v @ v + 0.5 * w @ (inertia_world(b, q) @ w)
    return K


def free_step(mass, I0, state, forces, dt):
    """One semi-implicit Euler step of a lone body. forces: list of ('g', g, up) / ('d', alpha, beta)."""
    r, q, v, w = (np.array(x, float) for x in state)
    R = ref.qmat(q)
    I = R @ np.diag(I0) @ R.T
    Iinv = R @ np.diag(1.0 / np.asarray(I0)) @ R.T
    F, tau = np.zeros(3), -np.cross(w, I @ w)
    for f in forces:
        if f[0] == "g":
            F = F - mass * f[1] * np.asarray(f[2], float)
        else:
            F = F - f[1] * v
            tau = tau - f[2] * w
    v2 = v + dt * F / mass
    w2 = w + dt * (Iinv @ tau)
    r2 = r + dt * v2
    q2 = q + 0.5 * dt * ref.qmul(np.array([0, *w2]), q)
    return r2, q2 / np.linalg.norm(q2), v2, w2
