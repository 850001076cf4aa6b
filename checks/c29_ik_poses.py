import numpy as np
from vh import Check
import iklab
import ref
from iklab import IK

ck = Check("C29", "histories of building (roots, bones under any parent, illegal conventions and parents), setting angles (one by one, as lists or arrays, zero to many turns) and updating, over all twelve Euler conventions, 1-60 bones, lengths 0..1e3; "
                  "every world frame against matrix products, bones outside the changed branches, chains, end effectors, angle conversions; two skeletons at once; non-trivial: several bones.")


def check_pose(ck, S, sp, angles, what):
    R, o = iklab.frames(sp, angles)
    size = sum(np.linalg.norm(b["t"]) for b in sp) or 1.0
    for i, b in enumerate(S.bones):
        ck.close(b.t_wcs, o[i], "pose.origin", "a bone is not where its ancestors' angles put it", tol=1e-13 * (len(sp) + 5), scale=size, bone=i, when=what)
        ck.close(ref.qmat(b.q_wcs), R[i], "pose.orientation", "a bone is not turned as its ancestors' angles say", tol=1e-13 * (len(sp) + 5), bone=i, when=what)
        ck.close(np.linalg.norm(b.q_wcs), 1.0, "pose.unit", "a bone's orientation is not a unit quaternion", tol=1e-12)
        parent = np.zeros(3) if b.parent < 0 else S.bones[b.parent].t_wcs
        ck.close(np.linalg.norm(b.t_wcs - parent), np.linalg.norm(sp[i]["t"]), "pose.length", "a bone's length changes with the pose", tol=1e-12 * (len(sp) + 5), scale=size)
        ck.expect(np.array_equal(b.t, sp[i]["t"]), "pose.vector", "posing changes a bone's own vector", bone=i)
    ck.event("frames", len(sp))


def check_structure(ck, S, sp):
    ck.expect(len(S.bones) == len(sp), "structure.count", "the skeleton has another number of bones than were added")
    for i, (b, s) in enumerate(zip(S.bones, sp)):
        ck.expect(b.idx == i and b.parent == s["parent"] and b.euler_code == s["code"] and list(b.children) == [k for k, c in enumerate(sp) if c["parent"] == i], "structure.bone", "a bone is not recorded as it was added", bone=i, got=(b.idx, b.parent, b.euler_code, list(b.children)))
        ck.expect(b.is_root() == (i == 0) and b.has_parent() == (i != 0) and b.is_end_effector() == (not b.children), "structure.kind", "a bone is taken for root or end effector wrongly", bone=i)
    C = IK.make_chains(S)
    leaves = [i for i in range(len(sp)) if all(c["parent"] != i for c in sp)]
    ck.expect([list(c.bones) for c in C] == [iklab.path(sp, i) for i in leaves], "structure.chains", "the chains do not run from the root to every leaf", got=[list(c.bones) for c in C])
    ck.expect(all(c.skeleton is S for c in C) and len({id(c.goal) for c in C}) == len(C) and len({id(c.bones) for c in C}) == len({id(c.tool) for c in C}) == len(C), "structure.separate", "chains share their data")
    return C


def check_angles(ck, S, angles, what):
    got = IK.get_joint_angles(S)
    ck.expect(got.shape == angles.shape and np.array_equal(got, angles), "angles.read", "the joint angles read are not the ones set", when=what, got=got, want=angles)
    ck.expect(all(IK.get_angle(k, S) == angles[k] for k in range(len(angles))), "angles.single", "single joint angles do not agree with the joint vector", when=what)
    ck.expect(all((b.alpha, b.beta, b.gamma) == tuple(angles[3 * i:3 * i + 3]) for i, b in enumerate(S.bones)), "angles.bones", "the bones do not hold the joint vector", when=what)


def histories(ck):
    rng = ck.rng("histories")
    rng2 = ck.rng("histories.codes")
    for it in range(ck.n(150, 5000)):
        if ck.time_left() < 20:
            break
        with ck.guard("history.exception", "building or posing a skeleton raises"):
            sp = iklab.spec(rng)
            if it % 20 == 0:
                base = iklab.spec(rng)
                sp = [dict(base[0])] + [dict(base[0], parent=i, t=rng.normal(size=3)) for i in range(59)]
            S = iklab.build(sp[:1])
            other = iklab.build(iklab.spec(rng, most=4))
            IK.update_skeleton(other)
            sp2 = iklab.snapshot(other)
            ck.case(dict(it=it, bones=[(b["parent"], b["code"]) for b in sp]), nontrivial=len(sp) > 1)
            for i, b in enumerate(sp):
                if i == 0:
                    continue
                a, t = b["angles"], b["t"]
                bone = IK.add_bone(S, b["parent"], *a, *t, b["code"])
                ck.expect(bone is S.bones[i], "create.reference", "adding a bone does not return it")
                if rng.random() < 0.1:       # a bone may be added to a posed skeleton
                    IK.update_skeleton(S)
                    check_pose(ck, S, sp[:i + 1], np.concatenate([s["angles"] for s in sp[:i + 1]]), "growing")
            n = len(sp)
            # refused without effect
            IK.update_skeleton(S)
            keep = iklab.snapshot(S)
            for what, call in (("second root", lambda: IK.create_root(S, 0, 0, 0, 1, 0, 0)), ("negative parent", lambda: IK.add_bone(S, -1, 0, 0, 0, 1, 0, 0)),
                               ("missing parent", lambda: IK.add_bone(S, n, 0, 0, 0, 1, 0, 0)), ("illegal code", lambda: IK.add_bone(S, 0, 0, 0, 0, 1, 0, 0, str(rng.choice(["XXY", "ZZZ", "XYY", "zyz", "XY", "", "ABC"])))),
                               ("illegal root", lambda: IK.create_root(IK.create_skeleton(), 0, 0, 0, 1, 0, 0, "YYX"))):
                try:
                    call()
                    raised = False
                except RuntimeError:
                    raised = True
                ck.expect(raised, "refuse", "an illegal request is accepted", request=what)
            ck.expect(iklab.same(keep, iklab.snapshot(S)), "refuse.effect", "a refused request changes the skeleton")
            C = check_structure(ck, S, sp)
            angles = np.concatenate([s["angles"] for s in sp])
            check_angles(ck, S, angles, "built")
            check_pose(ck, S, sp, angles, "built")
            # change some joints and see that only their branches move
            for step in range(int(rng.integers(1, 5))):
                before = iklab.snapshot(S)
                moved = sorted({int(x) for x in rng.integers(n, size=rng.integers(1, 3))})
                new = angles.copy()
                how = str(rng.choice(["one", "array", "list"]))
                for i in moved:
                    new[3 * i:3 * i + 3] = rng.normal(size=3) * rng.choice([0.1, 3, 30])
                if how == "one":
                    for k in rng.permutation(np.nonzero(new != angles)[0]):
                        IK.set_angle(int(k), new[k], S)
                else:
                    given = new.copy() if how == "array" else list(new)
                    IK.set_joint_angles(S, given)
                    for k in range(3 * n):   # the caller's array stays the caller's
                        given[k] = 77.0
                ck.event("set_" + how)
                check_angles(ck, S, new, how)
                ck.expect(before[1] and all(np.array_equal(x, y) for x, y in zip(before[1], iklab.snapshot(S)[1])), "angles.lazy", "setting angles moves bones before the skeleton is updated")
                IK.update_skeleton(S)
                once = iklab.snapshot(S)
                check_pose(ck, S, sp, new, how)
                for i in range(n):
                    if not any(m in iklab.path(sp, i) for m in moved):
                        ck.expect(np.array_equal(before[1][i], once[1][i]), "branch", "a bone moves though none of its ancestors did", bone=i, moved=moved)
                        ck.event("unmoved")
                    elif sp[i]["parent"] >= 0 and not any(m in iklab.path(sp, sp[i]["parent"]) for m in moved):
                        ck.expect(np.array_equal(before[1][i][3:6], once[1][i][3:6]), "branch.origin", "a joint's own angles move its origin", bone=i)
                IK.update_skeleton(S)
                ck.expect(iklab.same(once, iklab.snapshot(S)), "update.twice", "updating twice gives another pose")
                angles = new
                if rng2.random() < 0.2:           # another convention, the same angles
                    i = int(rng2.integers(n))
                    sp[i]["code"] = S.bones[i].euler_code = str(rng2.choice(iklab.CODES))
                    IK.update_skeleton(S)
                    check_pose(ck, S, sp, angles, "another convention")
                if rng2.random() < 0.2:           # the skeleton put elsewhere, or a bone made longer, the same angles
                    i = int(rng2.choice([0, rng2.integers(n)]))
                    t = rng2.normal(size=3) * (1 + np.linalg.norm(sp[i]["t"]))
                    sp[i]["t"], S.bones[i].t = t.copy(), t
                    IK.update_skeleton(S)
                    check_pose(ck, S, sp, angles, "another bone vector")
                    ck.event("vectors_changed")
                got = IK.get_joint_angles(S)
                got[:] = 55.0
                check_angles(ck, S, angles, "after reading")
            # end effectors
            tools = []
            for c in C:
                size = sum(np.linalg.norm(b["t"]) for b in sp) or 1.0
                tool = rng.normal(size=3) * size * rng.choice([0, 1])
                if rng2.random() < 0.5:
                    c.tool = tool
                else:
                    c.tool[:] = tool
                tools.append(tool)
                want = iklab.effector(sp, angles, c.bones[-1], c.tool)
                ck.close(IK.get_end_effector(c, S), want, "effector", "an end effector is not where its bone and tool are", tol=1e-13 * (n + 5), scale=2 * size)
            ck.expect(all(np.array_equal(c.tool, t) for c, t in zip(C, tools)), "structure.tools", "the chains share their tools")
            # a bone refers to the given values only
            ck.expect(iklab.same(sp2, iklab.snapshot(other)), "separate", "working on one skeleton changes another")
            ck.event("histories")
        if ck.violations:
            return


def angles(ck):
    import rainbow.math.angle as A
    rng = ck.rng("angles")
    x = np.concatenate([rng.normal(size=500) * 10 ** rng.uniform(-8, 8, size=500), np.array([0.0, 180, 90, 360, -45])])
    ck.case(dict(angles=len(x)), nontrivial=True)
    for v in x:
        d, r = IK.radians_to_degrees(v), IK.degrees_to_radians(v)
        ck.close(d, np.degrees(v), "convert.degrees", "converting to degrees is wrong", tol=1e-14, scale=abs(np.degrees(v)) + 1e-300)
        ck.close(r, np.radians(v), "convert.radians", "converting to radians is wrong", tol=1e-14, scale=abs(np.radians(v)) + 1e-300)
        ck.close(A.degrees_to_radians(d), v, "convert.back", "converting there and back changes an angle", tol=1e-14, scale=abs(v) + 1e-300)


ck.require(histories=60, frames=500, unmoved=50, set_one=20, set_array=20, set_list=20)
ck.run(histories, angles)
