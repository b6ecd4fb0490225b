"""C20 Forward kinematics equals the product of link and joint transforms."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.kinematics import Kinematics

from .. import robots
from ..core import sub
from ..gen import vec
from ..util import check, close


@st.composite
def cases(draw):
    r = draw(robots.tree())
    n = len(r["joints"])
    chains = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.integers(1, n))
        joints = draw(st.permutations(range(n)))[:k]
        if draw(st.booleans()):
            joints = sorted(joints)
        base, ee = 0, n
        if draw(st.booleans()):
            base, ee = draw(st.integers(0, n)), draw(st.integers(0, n))
        chains.append(dict(joints=joints, base=base, ee=ee))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, len(chains) - 1))
        rows = draw(st.integers(1, 3))
        Q = [draw(vec(len(chains[i]["joints"]), -4, 4, 2))
             for _ in range(rows)]
        if draw(st.integers(0, 2)) == 0:  # slow movement
            step = 10.0 ** -draw(st.integers(2, 6))
            Q = [[a + step * b for a, b in zip(Q[0], q)] for q in Q]
        calls.append([i, Q])
    return dict(robot=r, chains=chains, calls=calls)


@sub("C20", cases(), "pose depends on at least one joint", quick=3000,
     shards=8)
def forward(c):
    robot = c["robot"]
    kin = Kinematics(robots.urdf(robot))
    chains = [kin.create_chain(["j%d" % j for j in ch["joints"]],
                               "l%d" % ch["base"], "l%d" % ch["ee"])
              for ch in c["chains"]]
    values, earlier = {}, []
    poses = []
    for i, Q in c["calls"]:
        ch = c["chains"][i]
        Q = np.array(Q)
        expected = []
        for q in Q:
            values.update({j: v for j, v in zip(ch["joints"], q)})
            expected.append(robots.forward(robot, values, ch["base"],
                                           ch["ee"]))
        if len(Q) == 1:
            H = np.array([chains[i].forward(Q[0])])
        else:
            H = chains[i].forward_trajectory(Q)
        close(H, np.array(expected), "end-effector pose", 1e-9)
        earlier.append((H, H.copy()))
        poses += expected
        # again: depends on nothing but the joint values
        close(chains[i].forward(Q[-1]), expected[-1], "second evaluation",
              1e-9)
    for H, copy in earlier:
        close(H, copy, "poses returned earlier", 0)
    types = {j["type"] for j in robot["joints"]}
    moved = any(np.abs(p - robots.forward(
        robot, {}, c["chains"][k[0]]["base"], c["chains"][k[0]]["ee"])).max()
        > 1e-6 for k, p in zip(c["calls"], poses))
    return sorted(types) + ["%d chains" % len(chains)] if moved else False


@sub("C20", st.tuples(robots.tree(), st.lists(vec(7, -6, 6, 2), min_size=1,
                                              max_size=3)).map(
    lambda a: dict(robot=a[0], Q=a[1])), "robot has a joint with limits",
    quick=1000, shards=4)
def limits(c):
    """Joint values outside of the limits equal those at the limits."""
    robot = c["robot"]
    n = len(robot["joints"])
    movable = [i for i in range(n) if robot["joints"][i]["type"] != "fixed"]
    if not movable:
        return False
    chain = Kinematics(robots.urdf(robot)).create_chain(
        ["j%d" % i for i in movable], "l0", "l%d" % n)
    L = np.array([robot["joints"][i].get("limits", [-np.pi, np.pi])
                  for i in movable])
    close(chain.joint_limits, L, "joint limits", 1e-12)
    free = np.array(["limits" not in robot["joints"][i] for i in movable])
    for q in np.array(c["Q"])[:, :len(movable)]:
        inside = np.where(free, q, np.clip(q, L[:, 0], L[:, 1]))
        close(chain.forward(q), chain.forward(inside), "clipped joints", 1e-12)
        turn = np.where(free, q + 2 * np.pi, q)
        close(chain.forward(turn), chain.forward(q), "full turn", 1e-9)
        # error of a pose
        H = chain.forward(inside)
        goal = chain.forward(np.array(c["Q"][0])[:len(movable)])
        for ow, pw in ((1.0, 1.0), (0.3, 2.0), (0.0, 1.0), (1.0, 0.0)):
            e = chain.ee_pose_error(inside, goal, ow, pw)
            close(e, robots.pose_error(goal, H, ow, pw), "pose error", 1e-6)
    return ["limits" if not free.all() else "no limits"]
