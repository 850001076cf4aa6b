#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/make_properties.py)."""
import json, os
P = []
M = "rainbow/math/"
G = "rainbow/geometry/"
R = "rainbow/simulators/prox_rigid_bodies/"
S = "rainbow/simulators/prox_soft_bodies/"
PC = "rainbow/simulators/proximal_contact/"
IK = "rainbow/simulators/inverse_kinematics/"
U = "rainbow/util/"


def prop(pid, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (pid, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
             hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


prop("C01", "All rotation representations describe the same rotation",
     "For every rotation, its unit quaternion, rotation matrix, axis-angle, Euler-angle and exponential-map forms "
     "rotate every vector identically, convert into each other without loss (also next to the identity and at half turns), "
     "and compose and invert as rotations do. Interpolating between two rotations follows the shortest arc at constant speed "
     "through both end points.",
     ["inputs"], "every unit quaternion, proper rotation matrix, axis/angle, Euler triple, rotation vector and vector, "
     "including identity, half-turns, antipodal quaternion pairs and angles within 1e-9 of the special values",
     "tests convert a handful of random or axis-aligned rotations; the branch points (trace <= 0 with each dominant axis, "
     "negative scalar part, near-identity and half-turn switches, antipodal interpolation) form a measure-zero set random samples never reach",
     [M + "quaternion.py", M + "matrix3.py", M + "expmap.py", M + "euler.py", M + "functions.py", M + "angle.py"],
     [("quaternion <-> matrix <-> axis-angle conversions", M + "quaternion.py, " + M + "matrix3.py"),
      ("spherical interpolation with switch near parallel quaternions", M + "quaternion.py:slerp"),
      ("exponential/logarithm map with small-angle switch", M + "expmap.py:exp, log")],
     ["return values of the public conversion/rotation functions"])

prop("C02", "Analytic derivatives of the rotation-vector map equal the true derivatives",
     "For every rotation vector (zero, tiny, ordinary, near and beyond a half turn) the library's analytic derivative of the quaternion and of the rotation matrix "
     "with respect to each component equals the true derivative of the map it documents, and the rate of change it reports for a body spinning "
     "with a given angular velocity is the true time derivative of the rotation vector. Re-parameterising a rotation vector keeps the rotation and shortens the vector to at most a half turn.",
     ["inputs"], "every rotation vector with |v| < 2 pi for the derivatives, of any length for the re-parameterisation; every angular velocity and component index",
     "tests compare a few values; the series/closed-form switch and the region beyond a half turn are not exercised",
     [M + "expmap.py"],
     [("dQdv_i / dRdv_i / dvdt closed forms and small-angle series", M + "expmap.py"),
      ("reparametrisation guard", M + "expmap.py:exp, reparameterization")],
     ["return values compared with high-order differences of an independent exponential"])

prop("C03", "Coordinate frames form a group acting rigidly on points, vectors and rotations",
     "Composing two frames acts on every point, direction and orientation exactly as applying one after the other, the inverse of a frame undoes it on both sides, "
     "and the identity changes nothing. Every frame action preserves distances, angles and handedness, and directions ignore the frame's origin.",
     ["inputs"], "every pair of frames built from any translation magnitude (1e-6..1e6) and any unit quaternion, and every point, direction, orientation",
     "tests use a few random frames with tolerance on one operation at a time",
     [M + "coordsys.py", M + "quaternion.py"],
     [("composition, inverse and transforms", M + "coordsys.py")],
     ["public frame operations on tracer points"])

prop("C04", "Orthonormal frames, polar factors and vector orderings are what they claim",
     "From any non-zero vector the library builds two further unit vectors forming a right-handed orthonormal frame; orthonormalising any invertible matrix keeps the first direction and the spanned planes; "
     "the polar factorisation of any invertible matrix is a rotation/orthogonal matrix times a symmetric matrix reproducing the input, in single and batched form alike. "
     "Cross-product matrices, diagonal builders, extremal-index helpers and vector comparisons agree with their mathematical definition, and none of these operations modifies its arguments.",
     ["inputs"], "every non-zero vector (including axis-aligned, nearly parallel to an axis, tiny and huge), every invertible 3x3 matrix (near-identity, ill conditioned up to 1e6, reflected)",
     "tests use a few random vectors; degenerate directions and arguments reused after the call are not checked",
     [M + "vector3.py", M + "matrix3.py", M + "functions.py"],
     [("frame construction picking the least aligned axis", M + "vector3.py:make_orthonormal_vectors"),
      ("polar decomposition through SVD", M + "matrix3.py:polar_decomposition, polar_decomposition_array"),
      ("Gram-Schmidt", M + "matrix3.py:ortonormalize")],
     ["return values and arguments before/after"])

prop("C05", "Text forms of vectors and rotations parse to exactly what is written, or fail",
     "Every well-formed text of a vector, a quaternion or a rotation (list of numbers, uniform random ranges, rotation about an axis with an angle, keywords, with any legal spacing and number notation) is parsed to exactly the numbers it denotes, "
     "and writing a value as text and reading it back gives the same value. Malformed text is rejected with an error, never silently turned into a wrong value.",
     ["inputs"], "every text generated from the documented grammar (signs, decimals with leading zeros, exponents, missing integer part, white space) and every single-character corruption of one",
     "tests parse about a dozen literal strings", 
     [U + "parse_string.py", M + "vector3.py", M + "quaternion.py"],
     [("number grammar and parser", U + "parse_string.py"), ("from_string functions", M + "vector3.py, " + M + "quaternion.py")],
     ["from_string functions against an independent parser"])

prop("C06", "Grid fields interpolate exactly and their gradients match the field",
     "At any point inside a grid, with any origin and any per-axis spacing, the interpolated value equals the trilinear blend of the stored samples (hence is exact on fields linear in each axis, equals the sample at a node, stays between the eight surrounding samples), "
     "and the interpolated gradient is the derivative of that interpolated field. Points, nodes and cells map onto each other consistently (node position to node index and back, cell containing a point), and the inside test with a given margin accepts exactly the points at least that far inside the box.",
     ["inputs", "configurations"], "every grid box, resolution, sample field and query point including points on nodes, faces and the upper boundary",
     "existing gradient tests only use linear fields on which a wrong interpolation weight cannot be seen",
     [G + "grid3.py"],
     [("trilinear value and gradient", G + "grid3.py:get_value, get_gradient"), ("node/cell/point mapping", G + "grid3.py"), ("inside test", G + "grid3.py:is_inside")],
     ["public grid functions against an independent trilinear evaluator"])

prop("C07", "A shape's signed distance field and curvature describe that shape",
     "For every closed triangle surface the sampled signed distance is negative inside, positive outside and its magnitude is the Euclidean distance to the surface, whatever grid resolution and padding is used, so the interpolated field's zero level tracks the surface and its gradient points outward with about unit length. "
     "The mean curvature computed from such a field converges to the sum of the principal curvatures of spheres and cylinders of any radius that the grid resolves, is about zero on flat parts, and never exceeds what the grid spacing can represent.",
     ["inputs", "configurations"], "every closed surface the shape generators produce (sphere, box, ellipsoid, cone, cylinder, capsule, ...) under any rigid placement and scale, every resolution in range",
     "tests sample one small shape and compare with stored numbers",
     [G + "grid3.py", G + "mean_curvature.py", R + "collision_detection.py"],
     [("signed distance sampling", G + "grid3.py:create_signed_distance"), ("curvature from second differences", G + "mean_curvature.py")],
     ["grid values and curvature against analytic distance/curvature"])

prop("C08", "Bounding-volume trees never miss an overlap, over every refit history",
     "Whatever tree arity, directions and mesh or tetrahedron set it is built from, every node of a bounding-volume hierarchy encloses all primitives below it, each primitive occurs in exactly one leaf, and a traversal of two trees reports every pair of primitives whose bounding volumes overlap (after any sequence of moves followed by a refit). "
     "A reported primitive pair always has overlapping bounding volumes, is reported exactly once, and does not depend on which tree is named first.",
     ["inputs", "histories"], "every mesh, arity, direction set, pair of trees, envelope and sequence of deformations/refits",
     "tests traverse one or two small static trees",
     [G + "kdop.py", G + "kdop_bvh.py", G + "aabb.py"],
     [("enclosing volume construction", G + "kdop.py"), ("top-down build, refit and tandem traversal", G + "kdop_bvh.py")],
     ["tree nodes and traversal results against brute force"],
     state=[("tree nodes", "node volumes and children", G + "kdop_bvh.py")])

prop("C09", "Spatial hashing reports every overlapping neighbour and nothing stale",
     "Over every sequence of frames and insertions, inserting an item into the spatial hash returns every earlier item of the same frame whose occupied cells meet its own, each at most once per shared cell, never itself and never an item from an earlier frame. Axis-aligned boxes overlap exactly when their intervals overlap on every axis.",
     ["inputs", "histories"], "every insertion/frame sequence with any cell size, box sizes and positions, negative coordinates included",
     "tests insert a few boxes in one frame",
     [G + "spatial_hashing.py", G + "aabb.py"],
     [("lazy clearing by time stamp", G + "spatial_hashing.py"), ("box overlap", G + "aabb.py")],
     ["insert() results against a dictionary model"],
     state=[("hash cells", "time-stamped object lists", G + "spatial_hashing.py")])

prop("C10", "Generated surface meshes are closed, outward oriented and have the true size",
     "For every legal size and resolution, each surface generator (box, sphere, ellipsoid, capsule, cylinder, cone, conical shapes, torus, sweeps, convex hulls) yields a closed two-manifold mesh with consistently outward triangles, whose volume and extent equal the shape's exact values or converge to them from the inscribed side. "
     "Translating, rotating, scaling and joining meshes act exactly on every vertex and change volume and orientation accordingly, without touching the original arrays' meaning.",
     ["inputs", "configurations"], "every generator, every dimension and slice/segment count in the legal range, every rigid/scale transform",
     "tests only check array shapes for a single parameter choice per generator",
     [G + "surface_mesh.py"],
     [("mesh generators and transforms", G + "surface_mesh.py")],
     ["vertex/triangle arrays: edge pairing, divergence-theorem volume, bounds"])

prop("C11", "Mass, centre, inertia and body frame follow the solid and its density",
     "For every closed surface the computed mass, centre of mass and inertia equal the exact integrals over the enclosed solid, scale with density, size and translation as physics dictates, and rotate with the shape. "
     "The principal body frame is a right-handed rotation that diagonalises the inertia and, together with the body-space vertices it returns, reproduces the original shape.",
     ["inputs"], "every closed mesh (any scale from 1e-2 to 1e2, any placement), every density and every primitive dimension",
     "tests check a cube and a few primitives at unit size",
     [R + "mass.py", R + "api.py"],
     [("surface integrals", R + "mass.py"), ("diagonalisation of inertia", R + "mass.py"), ("shape creation", R + "api.py:create_shape")],
     ["mass.py results against independent tetrahedral integration"])

prop("C12", "Tetrahedral meshes tile their solid and survive subdivision",
     "For every legal size and resolution the generated tetrahedral meshes (beam and others) are positively oriented, fill the solid exactly once (volumes add up, interior faces are shared by exactly two elements) and their extracted boundary surface is closed, outward and encloses the same volume. "
     "Subdivision of elements preserves volume, orientation and boundary (every element into eight), and transforms act exactly.",
     ["inputs", "configurations"], "every beam dimension/segment count, every mesh derived from one by transforms and subdivisions",
     "tests check counts of one or two meshes",
     [G + "volume_mesh.py", G + "tetrahedron.py"],
     [("volume mesh generators, surface extraction", G + "volume_mesh.py")],
     ["vertex/tetrahedron arrays: face pairing, signed volume sums"])

prop("C13", "Barycentric coordinates and tetrahedron geometry are exact",
     "Barycentric coordinates of any point with respect to a triangle or tetrahedron reproduce the point (its projection for triangles), sum to one, classify inside and outside correctly, and interpolate linear fields exactly. Tetrahedron helpers report true volumes, circumscribed and inscribed spheres, and generated sample points lie where they are said to lie (surface, interior, all inside the element).",
     ["inputs"], "every non-degenerate simplex (aspect ratio up to 1e3) and point, all sample resolutions",
     "tests cover unit simplices",
     [G + "barycentric.py", G + "tetrahedron.py"],
     [("barycentric solve", G + "barycentric.py"), ("sample point generation", G + "tetrahedron.py")],
     ["return values against determinant formulas"])

prop("C14", "A rigid world holds exactly what its building history put into it",
     "After any sequence of building calls, each body, shape, material, hinge and gravity force is stored under its name with exactly the given values, placements given in world or body terms put the body's geometry where asked, and a call naming something unknown, or creating something that exists already, raises an error and leaves the world unchanged. "
     "Material properties of a pair do not depend on the order in which the pair is named, fall back to the defaults when unset, and no call affects any object other than those it names.",
     ["histories", "inputs"], "every interleaving of valid and invalid building calls on engines of any size",
     "tests call each setter once on a fresh engine",
     [R + "api.py", R + "types.py"],
     [("registry checks", R + "api.py"), ("surface interaction lookup", R + "types.py")],
     ["engine contents and world-space vertices against a reference model"],
     state=[("engine dictionaries", "bodies, shapes, forces, materials, hinges", R + "types.py:Engine")])

prop("C15", "Free rigid motion follows Newton-Euler exactly as the time stepper defines it",
     "Without contacts or joints, every step changes each free body's velocity by the applied forces and gyroscopic torque divided by its mass and world-space inertia, and then moves its position and unit orientation with the new velocity, for every stepper. "
     "Gravity and damping act only on the bodies they are attached to, the orientation stays a unit rotation over arbitrarily long runs, and the reported kinetic and potential energies are those of the reported state.",
     ["histories", "inputs"], "every body shape, state, set of forces, step size, number of bodies and stepper over long runs",
     "tests never step a simulation",
     [R + "steppers.py", R + "api.py", R + "types.py", R + "state_storage.py", R + "constraints/problem.py"],
     [("semi-implicit position and velocity update", R + "steppers.py, " + R + "api.py"), ("force evaluation", R + "types.py"), ("energy bookkeeping", R + "api.py")],
     ["body states after every step against an independent integrator"])

prop("C16", "Fixed bodies stay, strangers do not interact, time is covered exactly",
     "A fixed body keeps its exact position and orientation through any simulation, whatever hits it or is attached to it (one given a velocity acts as a conveyor without moving), and bodies that are not connected through contacts or joints move exactly as they would alone. "
     "Simulating for a duration performs steps of the configured size that add up to exactly that duration, one record per step, and splitting the duration at a step boundary does not change the outcome.",
     ["histories", "configurations"], "every scene mix of free, fixed and hinged bodies, every duration and step size",
     "tests never simulate", 
     [R + "api.py", R + "steppers.py", R + "state_storage.py"],
     [("fixed bodies have zero inverse mass", R + "state_storage.py"), ("stepping loop", R + "api.py:simulate")],
     ["states after each step; engine.stats"])

prop("C17", "Rigid contact detection finds every penetration with correct geometry",
     "Whenever the surfaces of two bodies cross with a vertex of one deeper inside the other than the cells of its distance field are wide, or a vertex lies well within the contact envelope (whatever the bodies' sizes, places and order of insertion), a contact between exactly these two bodies is reported whose normal is a unit vector pointing from the first to the second body along the distance field and whose gap is the signed distance there; bodies further apart than the envelope yield no contacts. No two reported contacts of a pair coincide, and the deepest one found is among them.",
     ["inputs", "histories", "configurations"], "every pair/number of bodies, shapes, placements, envelope sizes and motion histories",
     "tests do not run collision detection on engine scenes",
     [R + "collision_detection.py", G + "kdop_bvh.py", G + "grid3.py"],
     [("broad, narrow phase and reduction", R + "collision_detection.py")],
     ["engine contact points after the collision detection entry point or a step"],
     state=[("contact_points", "list of contact records", R + "types.py:Engine")])

prop("C18", "Contact impulses push only, obey the friction cone and conserve momentum",
     "In every solved step the impulse at each contact has a non-negative normal part, a tangential part within friction coefficient times the normal part (torsion likewise), and the impulses of the two bodies are equal and opposite at a common point, so total linear and angular momentum of free bodies is unchanged by contacts. "
     "With zero friction there is no tangential impulse, and with restitution e an isolated impact separates at e times the approach speed.",
     ["inputs", "histories", "configurations"], "every contact configuration, friction coefficient, restitution, solver scheme and iteration budget",
     "tests never solve a contact scene of rigid bodies",
     [R + "constraints/contacts.py", R + "constraints/problem.py", R + "gauss_seidel_solver.py", R + "prox_operators.py", R + "steppers.py"],
     [("contact jacobian and impulses", R + "constraints/contacts.py"), ("friction projection", R + "prox_operators.py")],
     ["body velocities before and after a step; solver result fields"])

prop("C19", "Contacts only dissipate energy and penetration is worked off",
     "In any scene of rigid bodies without joints, elasticity, pre-stabilisation or moving supports, a step with contacts never leaves more kinetic energy than the same step would without them, whatever the friction and the iteration budget. "
     "A body lying on a slab stays at rest without sinking, creeping or gaining energy, a sliding one decelerates at friction times gravity, and on a slope it sticks or slips as Coulomb's law says, under every direction of gravity. "
     "Two overlapping bodies at rest are pushed apart by the enabled stabilisation until the overlap is gone (contact normals permitting); post-stabilisation sets nothing in motion, and without stabilisation nothing moves.",
     ["inputs", "histories", "configurations"], "every arrangement of bodies, slope, friction value, direction of gravity, time step and iteration budget over whole runs",
     "no test simulates contact scenes", 
     [R + "constraints/contacts.py", R + "constraints/post_stabilization.py", R + "steppers.py", R + "api.py"],
     [("velocity-level contact solve", R + "constraints/contacts.py"), ("pre/post stabilisation", R + "constraints/problem.py, post_stabilization.py")],
     ["energies, positions and velocities over time"])

prop("C20", "Hinges keep bodies together with one free axis",
     "In trees of jointed bodies, a hinge keeps the two attachment points together and the two axes aligned (up to what the solver's iterations leave; errors stay bounded, and joints pulled apart close under stabilisation), transmits equal and opposite impulses and moments, adds no energy, and transmits no moment about its axis, so a body on a fixed hinge swings like a physical pendulum and spins freely about the axis. "
     "Creating a hinge in world, body or model terms records the same joint.",
     ["inputs", "histories", "configurations"], "every pair of bodies (one possibly fixed), axis, anchor, initial velocity, chain length and stepper",
     "tests only construct hinges", 
     [R + "constraints/hinges.py", R + "constraints/problem.py", R + "api.py", R + "types.py"],
     [("hinge jacobian, error and solve", R + "constraints/hinges.py"), ("hinge creation", R + "api.py")],
     ["anchor and axis mismatch, momentum and energy per step"])

prop("C21", "Iterative contact solvers only ever accept progress and report honestly",
     "The iterative proximal solvers keep the best accepted iterate, reduce the step-size parameter only when an iteration diverges, stop no later than the iteration limit, and the recorded residuals, exit status and accept/reject flags are those of the iterates actually visited. "
     "A solve reported as converged ended with an accepted iterate whose last change was below the requested tolerance, and the solvers return new arrays instead of changing their inputs.",
     ["inputs", "configurations"], "every contact problem with at least one contact (well-posed or degenerate), tolerance, step-size parameters and iteration limit",
     "tests check result shape on a single toy system",
     [R + "gauss_seidel_solver.py", PC + "solver_interface.py", PC + "gauss_seidel_solver.py", PC + "jacobi_solver.py", S + "solver.py"],
     [("accept/rollback of step size", PC + "solver_interface.py, " + R + "gauss_seidel_solver.py")],
     ["solver results, recorded statistics, operator calls"])

prop("C22", "Proximal projections return the nearest admissible point",
     "Each projection operator (origin, sphere, ellipsoid, non-negative half-line) maps every vector to the closest point of its set: points inside are unchanged, results lie in the set, no other point of the set is closer, and the projection is idempotent and non-expansive. "
     "This holds for any radii including zero, tiny and very different ones, and for the normal/friction split used by contacts.",
     ["inputs"], "every vector and friction radii from 0 to 1e6, with axis-aligned and boundary cases",
     "tests project one or two vectors",
     [PC + "proximal_operators.py", R + "prox_operators.py", S + "solver.py"],
     [("ellipsoid projection by root finding", PC + "proximal_operators.py"), ("sphere projection", R + "prox_operators.py")],
     ["operator return values against optimality conditions"])

prop("C23", "All contact solver schemes agree, whatever the blocking or thread count",
     "One sweep of each scheme of the stand-alone solver is its documented proximal map: serial Gauss-Seidel contact by contact, parallel Gauss-Seidel group by group with the effect of all groups before, and the two Jacobi schemes from the old iterate. Without step-size growth (nu_increase = 1) a converged solve of every scheme satisfies the contact law and finds the same contact velocities, whatever the order of the contacts. "
     "Blocks processed at the same time never share a body (or, for soft bodies, a node), every block belongs to exactly one group, and a run gives the same result for any number of worker threads and any repetition.",
     ["inputs", "schedules", "configurations"], "every contact graph, thread count and interleaving",
     "tests solve one tiny system with each scheme; the colouring is random and races show only under some schedules",
     [PC + "gauss_seidel_solver.py", PC + "jacobi_solver.py", PC + "blocking.py", PC + "prox_solvers.py"],
     [("graph colouring of contact blocks", PC + "blocking.py"), ("thread pool sweeps", PC + "gauss_seidel_solver.py")],
     ["solver results; groups returned by the colouring"])

prop("C24", "Elastic stresses derive from the stored energy and ignore rigid motion",
     "For every material model and deformation, the stress equals the derivative of the energy density, stress vanishes at rest and the energy is least there (zero for the models defined so), energy is unchanged by rotations applied after the deformation and stress turns with them, and small strains reproduce linear elasticity with the given Young modulus and Poisson ratio. "
     "Elastic forces of a whole mesh are the negative gradient of its total elastic energy, and sum to zero force and torque.",
     ["inputs"], "every deformation gradient with positive determinant, every material parameter pair, every mesh and displacement",
     "tests evaluate stress for a few matrices on single models",
     [S + "mechanics.py", S + "solver.py"],
     [("constitutive models", S + "mechanics.py"), ("nodal force assembly", S + "solver.py")],
     ["stress/energy values and assembled forces against numerical differentiation"])

prop("C25", "Soft-body motion obeys pins, momentum balance and load totals",
     "Pinned nodes stay exactly where their condition puts them while free nodes move; a free body under gravity falls as a rigid body with acceleration g and keeps its linear and angular momentum otherwise; lumped masses sum to density times volume and surface loads sum to load times area. "
     "Simulating for a duration performs steps that add up to exactly that duration and a body at rest without loads stays at rest.",
     ["inputs", "histories", "configurations"], "every mesh, material, boundary condition, load, stepper setting and number of steps",
     "tests do not step soft bodies", 
     [S + "solver.py", S + "api.py", S + "types.py"],
     [("mass and force assembly, Dirichlet handling", S + "solver.py")],
     ["node positions/velocities per step; assembled vectors"])

prop("C26", "Soft-body contact finds penetrations and separates bodies",
     "Whenever the boundaries of two soft bodies cross with a node of one inside the other deeper than a cell of its distance field, contacts between exactly these bodies are reported with unit normals and depths consistent with the undeformed distance field carried along by the deformation, and separated bodies yield none. "
     "Contact forces push only, obey the friction bound, are equal and opposite, never move pinned nodes, and free bodies stop approaching as far as the solver's iterations go.",
     ["inputs", "histories", "configurations"], "every pair of soft bodies, deformation and approach velocity",
     "tests do not run soft contact", 
     [S + "collision_detection.py", S + "solver.py"],
     [("soft narrow phase with material-space distance", S + "collision_detection.py"), ("contact jacobian and friction", S + "solver.py")],
     ["engine contact points; momentum and velocities per step"])

prop("C27", "A soft world holds exactly what its building history put into it",
     "After any sequence of building calls, each soft body, constitutive choice, boundary condition, load and gravity is stored under its name with the values given, mesh data are copied exactly, and unknown or duplicate names and out-of-range physical parameters raise an error leaving the world unchanged. "
     "Boundary conditions and loads select exactly the nodes and faces their predicate accepts, and no call affects other bodies.",
     ["histories", "inputs"], "every interleaving of valid and invalid building calls",
     "tests call few setters once", 
     [S + "api.py", S + "types.py"],
     [("registry checks and selection predicates", S + "api.py")],
     ["engine contents against a reference model"])

prop("C28", "Inverse-kinematics objective, jacobian, gradient and hessian are exact",
     "For every skeleton, pose, tools, goals and set of chains, the objective is half the summed squared distance between goals and end effectors, and the analytic jacobian, gradient and (symmetric) hessian equal the true first and second derivatives in the joint angles; the finite-difference versions are the central differences of that objective and agree with them up to their order. "
     "Computing any of them leaves the joint angles, the posed bones, goals and inputs as they were.",
     ["inputs", "histories"], "every chain and tree topology, Euler convention, joint angles including singular poses, tool, and set of end effectors and goals",
     "tests use one small straight chain in its zero pose, where wrong and right second derivatives coincide",
     [IK + "api.py", IK + "types.py"],
     [("jacobian, gradient and hessian assembly", IK + "api.py:compute_jacobian, compute_gradient, compute_hessian"), ("finite differences", IK + "api.py:compute_finite_difference_*")],
     ["derivative arrays against products of rotation matrices and their derivatives; skeleton before/after"])

prop("C29", "Skeleton poses place every bone rigidly where its joint angles say",
     "For every skeleton and joint angles, each bone's world frame is its parent's frame composed with its own vector and Euler rotation (in the bone's own convention), so bone lengths never change, and changing a joint moves exactly the bones below it. "
     "Reading the pose returns the angles that were set, single angles, the flat joint vector and the bones agree, chains run from the root to every leaf, illegal conventions, parents or second roots are refused without effect, and skeletons do not influence each other.",
     ["inputs", "histories"], "every chain/tree, convention, angle vector and sequence of building, setting and updating",
     "tests use two small skeletons with multiples of 90 degrees in one convention",
     [IK + "api.py", IK + "types.py", M + "angle.py", M + "quaternion.py"],
     [("forward kinematics", IK + "api.py:update_skeleton"), ("angle vector layout", IK + "api.py:get_joint_angles, set_joint_angles, set_angle, get_angle"), ("chains", IK + "api.py:make_chains")],
     ["world frames against matrix products; skeleton fields"])

prop("C30", "Multivariate polynomials evaluate, differentiate, interpolate and print exactly",
     "For every order and coefficient vector of a two-variable polynomial, it has every monomial up to its order exactly once, evaluates to their sum, its partial derivatives (repeatedly) are the derivatives of the same polynomial, and the printed form denotes it. "
     "Interpolation through data that determine a polynomial reproduces its values (and the polynomial itself), and none of these operations changes its arguments.",
     ["inputs"], "every coefficient vector (zeros, negatives, tiny) and order 0..6, evaluation points of any sign and magnitude, interpolation data of matching number",
     "tests check a few low-order cases",
     [M + "polynomial.py"],
     [("monomial basis, evaluation and derivatives", M + "polynomial.py"), ("interpolation", M + "polynomial.py")],
     ["return values against exact rational arithmetic; the printed form against an independent parser"])

prop("C31", "Recorded scene files reload to exactly the recorded frames",
     "Whatever meshes, poses and frame sequence are recorded, saving the scene and opening it again yields every mesh with its vertices and triangles and, at each recorded time, the recorded placement or deformed vertices (vertices to single precision, which is what the format stores); between frames it holds or interpolates between neighbours, and the frame rate and duration are those recorded. "
     "Duplicate names, unknown names and malformed arguments raise an error and leave what was recorded untouched.",
     ["inputs", "histories"], "every sequence of mesh additions and pose/vertex samples at increasing times",
     "tests write one small scene",
     [U + "USD.py"],
     [("USD stage authoring", U + "USD.py")],
     ["stages reopened from disk with the independent USD reader"])

prop("C32", "Scene factories create well-formed, repeatable, non-overlapping worlds",
     "Every scene factory, for every legal size parameter, creates uniquely named bodies with positive mass, valid inertia, unit orientations and closed shapes of the material asked for, returns the names it created, and gives the documented arrangement: its dimensions, counts, symmetries, supports, and hinges on the axes they join. Initially no two bodies overlap beyond the contact envelope. "
     "Building a scene twice with the same inputs gives the same world, two scenes can coexist in one engine without disturbing each other, illegal sizes are refused, and creating a scene by name attaches gravity and damping to every free body.",
     ["configurations", "inputs"], "every factory, legal size parameter and combination of factories in an engine",
     "tests do not touch the scene factories",
     [R + "scenes/"],
     [("scene factories", R + "scenes/create_*.py"), ("unique name generation", R + "api.py:generate_unique_name")],
     ["engine contents after each factory"])

prop("C33", "Exporting and importing a scene preserves bodies, materials and placement",
     "Writing any complete rigid world (bodies with shapes, hinges that are set) to its scene file produces well-formed output holding every body, shape, hinge, force, pair of materials and state by name, with the values in the engine to full precision. "
     "Reading a robot description, a tree of links with masses and collision meshes (STL, OBJ or PLY, scaled or mirrored) under revolute joints, creates one body per link with the described geometry at the pose its joint chain prescribes, root link frame at the world origin, and one hinge per joint at its origin and along its axis.",
     ["inputs", "configurations"], "every engine contents; every kinematic tree of links and joints with any origins",
     "tests import a single stored file", 
     [R + "scenes/write_xml.py", R + "scenes/read_urdf.py"],
     [("XML writer", R + "scenes/write_xml.py"), ("URDF reader", R + "scenes/read_urdf.py")],
     ["parsed output and engine against an independent forward kinematics"])

prop("C34", "Profiling observes without interfering and simulations are repeatable",
     "Running the same scene twice, with profiling on or off, in the same or another process, gives bit-identical trajectories, and every step with profiling on appends exactly one record with a step size, whose contents describe that step; without profiling there is none. "
     "Timers report non-negative durations per measured section, and counters add up over steps.",
     ["histories", "configurations"], "every scene, debug setting and number of steps",
     "tests never simulate", 
     [U + "timer.py", R + "api.py", R + "steppers.py", S + "api.py"],
     [("per-step log", R + "api.py:simulate"), ("timers", U + "timer.py")],
     ["trajectory hashes; engine.stats"])

prop("C35", "The priority queue always yields elements in priority order",
     "Over every history of insertions, priority changes and removals, the queue returns each element exactly once, always one with the smallest priority among those present, keeps all others retrievable, and reports its size and membership correctly; removal from an empty queue yields nothing. "
     "Equal priorities and equal values are handled like any other.",
     ["histories"], "every sequence of queue operations", 
     "tests push and pop one short list", 
     [U + "heap.py"],
     [("binary heap with value map", U + "heap.py")],
     ["popped values against a sorted reference model"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
