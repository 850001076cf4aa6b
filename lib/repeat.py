"""Deterministic scenes for the repeatability check, runnable in this or in another process.

A scene is built from a name and a seed only; it is then simulated step by step and everything a user can see of it
is recorded after every step.  `python repeat.py SEED N` prints one line per scene with the hash of the record."""
import hashlib
import logging
import sys

import numpy as np

import meshes
import ref
import soft
import vh
from rigid import World

import rainbow.simulators.prox_rigid_bodies.api as RB
import rainbow.simulators.prox_soft_bodies.api as SB
from rainbow.simulators.prox_rigid_bodies.scenes.create_box_stack import create_box_stack
from rainbow.simulators.prox_rigid_bodies.scenes.create_cube_hinge_chain import create_cube_hinge_chain

RIGID = ["stack", "heap", "hinges", "bounce", "overlap", "free", "spinners", "factory"]
SOFT = ["drop-hash", "drop-bvh", "pinned", "pull", "squeeze-post", "jacobi", "hybrid", "parallel", "fold"]
SCENES = RIGID + SOFT


def rng_of(name, seed):
    return np.random.default_rng([seed] + [ord(c) for c in name])


class Scene:
    """one way of looking at rigid and soft worlds"""

    def __init__(self, name, seed):
        self.name, self.soft = name, name in SOFT
        rng = rng_of(name, seed)
        (self._soft if self.soft else self._rigid)(name, rng)

    # ------------------------------------------------------------------ rigid
    def _rigid(self, name, rng):
        if name == "factory":  # names drawn at random
            e = RB.create_engine()
            e.params.resolution, e.params.envelope = 5, 0.05
            self.W, self.e, self.T = None, e, 0.01
            create_box_stack(e, 1.0, 0.5, 1.0, 2, 1.0, "default")
            create_cube_hinge_chain(e, 0.4, 3, 1.0, "default")
            RB.create_gravity_force(e, "earth", 9.8, np.array([0, 1.0, 0]))
            for b in list(e.bodies):
                RB.connect_force(e, b, "earth")
            return
        W = World(resolution=6, envelope=0.05, time_step=0.01)
        self.W, self.e, self.T = W, W.e, 0.01
        e = W.e
        P = e.params
        RB.create_gravity_force(e, "gravity", 9.8, np.array([0.1, 1.0, 0.05]))
        RB.create_damping_force(e, "damping", 0.01, 0.02)
        RB.create_surfaces_interaction(e, "default", "ice", 0.3, np.array([0.05, 0.02, 0.0]))
        RB.create_surfaces_interaction(e, "ice", "ice", 0.8, np.array([0.01, 0.01, 0.01]))
        kinds = ["box", "octa", "tetra", "cyl", "lshape"]
        for k in kinds:
            W.shape(k, *meshes.make(k, rng))
        W.shape("floor", *meshes.grid_box(4, 0.25, 4, 2))
        F = ["gravity", "damping"]
        mat = lambda: str(rng.choice(["default", "ice"]))  # noqa: E731
        if name in ("stack", "bounce", "overlap"):
            P.use_bounce = name == "bounce"
            P.use_pre_stabilization = name == "bounce"
            P.use_post_stabilization = name == "overlap"
            W.body("floor", r=[0, -0.25, 0], fixed=True)
            y = 0.5 if name != "overlap" else 0.3
            for i in range(3 if name == "stack" else 2):
                W.body(str(rng.choice(["box", "octa"])), r=[0.05 * rng.normal(), y, 0.05 * rng.normal()], q=ref.rand_quat(rng) if name == "bounce" else (1, 0, 0, 0), v=[0, -1.0, 0] if name == "bounce" else (0, 0, 0),
                       w=rng.normal(size=3) * 0.3, forces=F, material=mat())
                y += 0.9 if name != "overlap" else 0.55
        elif name == "heap":
            W.body("floor", r=[0, -0.25, 0], fixed=True, material="ice")
            for i in range(3):
                W.body(str(rng.choice(kinds)), r=rng.uniform([-0.5, 0.3, -0.5], [0.5, 0.9, 0.5]), q=ref.rand_quat(rng), v=rng.normal(size=3), w=rng.normal(size=3), rho=10 ** rng.uniform(-1, 1), forces=F, material=mat())
        elif name in ("hinges", "spinners"):
            P.use_pre_stabilization = True
            for i in range(5):
                W.body("box", r=[1.15 * i, 2.0, 0], forces=F, fixed=i == 0, w=rng.normal(size=3) if name == "spinners" else (0, 0, 0))
            for i in range(4):
                RB.create_hinge(e, "hinge%d" % i)
                RB.set_hinge(e, "hinge%d" % i, "b%d" % i, "b%d" % (i + 1), np.array([1.15 * i + 0.57, 2.0, 0]), ref.rand_unit(rng) if name == "spinners" else np.array([0, 0, 1.0]))
        else:
            for i in range(4):
                W.body(str(rng.choice(kinds)), r=[4.0 * i, 0, 0], q=ref.rand_quat(rng), v=rng.normal(size=3), w=rng.normal(size=3) * 5, forces=F)

    # ------------------------------------------------------------------ soft
    def _soft(self, name, rng):
        scheme = dict(jacobi="parallel_jacobi", hybrid="parallel_jacboi_hybrid", parallel="parallel_gauss_seidel").get(name, "gauss_seidel")
        e = soft.engine(resolution=8, use_spatial_hashing=name != "drop-bvh", proximal_solver=scheme, use_post_stabilization=name == "squeeze-post", envelope=0.02, time_step=0.002)
        self.e, self.T = e, 0.002
        mat = dict(model=str(rng.choice(soft.MODELS)), E=2e4, nu=0.3, rho=800.0, c=float(rng.choice([0, 50.0])))
        V, T = soft.beam(3, 2, 3, 1.0, 0.3, 1.0)
        V = V - V.mean(axis=0)
        if name == "fold":
            V, T = soft.beam(13, 2, 2, 2.0, 0.1, 0.3)
            V = V - V.mean(axis=0)
            b = soft.Body(e, "strip", V, T, g=rng.normal(size=3), material="m", **mat)
            SB.create_surfaces_interaction(e, "m", "m", 0.4)
            V = np.array(b.x0)
            t = 6.25 * V[:, 0] / 2.0
            x = np.stack([(0.35 - V[:, 1]) * np.sin(t), 0.35 - (0.35 - V[:, 1]) * np.cos(t), V[:, 2]], axis=1)
            SB.set_spatial_coordinates(e, "strip", x)
            return
        floor = soft.Body(e, "floor", V, T, material="m", **mat)
        SB.create_surfaces_interaction(e, "m", "m", 0.4)
        if name == "pinned":
            SB.create_dirichlet_conditions(e, "floor", lambda p: float(p[0]) + 0.2)
            SB.set_gravity(e, "floor", np.array([0, -9.8, 1.0]))
        elif name == "pull":
            SB.create_dirichlet_conditions(e, "floor", lambda p: float(p[0]) + 0.4)
            SB.create_traction_conditions(e, "floor", lambda p: 0.4 - float(p[0]), np.array([500.0, 20, 0]))
        else:
            SB.set_type(e, "floor", "fixed")
            for i in range(2):
                B, C = soft.mesh(rng, "ball")
                low = B[:, 1].min()
                soft.Body(e, "ball%d" % i, B + np.array([0.1 * i - 0.05, (0.14 if name != "squeeze-post" else 0.139) - low + i * 0.95, 0.02]), C, g=[0.5, -9.8, 0], material="m", **mat)
                SB.set_velocity(e, "ball%d" % i, np.array([0.2, -1.0, 0.1]))
        del floor

    # ------------------------------------------------------------------ stepping and looking
    @property
    def api(self):
        return SB if self.soft else RB

    def step(self, profiling):
        self.api.simulate(self.e, self.T, profiling)

    def look(self):
        """everything that can be seen of the world, as arrays"""
        e = self.e
        out = []
        index = {id(b): i for i, b in enumerate(e.bodies.values())}
        for b in e.bodies.values():
            out += [np.array(b.x), np.array(b.u)] if self.soft else [np.array(b.r), np.array(b.q), np.array(b.v), np.array(b.w)]
        for c in e.contact_points:
            out += [np.array([index[id(c.bodyA)], index[id(c.bodyB)]]), np.array(c.p), np.array(c.n), np.array([c.g])]
        return out

    def digest(self):
        h = hashlib.sha256()
        for a in self.look():
            h.update(np.ascontiguousarray(a).tobytes() + str(a.shape).encode())
        return h.hexdigest()


def trajectory(name, seed, steps, profiling=lambda k: False, between=None):
    S = Scene(name, seed)
    out = [S.digest()]
    contacts = 0
    for k in range(steps):
        if between is not None:
            between(S, k)
        S.step(profiling(k))
        out.append(S.digest())
        contacts += len(S.e.contact_points)
    return S, out, contacts


if __name__ == "__main__":
    logging.disable(logging.CRITICAL)
    seed, steps, profiling = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] == "on"
    names = sys.argv[4].split(",")
    junk = [object() for _ in range(int(sys.argv[5]))]  # moves everything that is created later
    np.random.seed(int(sys.argv[5]) % 1000)
    for n in names:
        with vh.quiet():
            _, out, contacts = trajectory(n, seed, steps, lambda k: profiling)
        print("TRAJECTORY", n, contacts, " ".join(out))
    del junk
