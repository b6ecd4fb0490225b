"""C30 The simulation mock-up executes a primitive faithfully."""
import contextlib
import math
import os

import numpy as np
from hypothesis import strategies as st

from movement_primitives.kinematics import Kinematics
from movement_primitives.testing import simulation
from movement_primitives.testing.simulation import SimulationMockup

from .. import coupling, gen
from ..core import Skip, sub
from ..gen import raw_quat, vec
from ..runtime import REPO
from ..util import check, close, rotmat


@st.composite
def cases(draw):
    # primitives whose steps take a coupling term
    p = draw(gen.prim(kinds=("dual", "dual", "dmp", "fv", "sd", "sf", "cart",
                             "sdo"), min_steps=15, max_steps=30, p_gain=True,
                      max_dims=3))
    c = dict(p=p, term=None, goto=draw(st.booleans()),
             # the simulation's clock may differ from the one of the primitive
             ratio=draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, 2.0])),
             part=draw(st.sampled_from([1.0, 1.0, 0.5, 1.5, 0.0])),
             twice=draw(st.booleans()))
    if p["kind"] not in ("cart", "sdo"):
        c["term"] = draw(coupling.for_kind(p["kind"], gen.pos_dims(p)))
    return c


def run(c, simulated):
    p = c["p"]
    with coupling.quiet():
        o, term = gen.build(p), coupling.make(c["term"])
    y, yd = gen.start_state(p)
    dt = p["dt"] * c["ratio"]
    execution_time = c["part"] * p["tau"]
    n = [int(math.floor(execution_time / dt + e)) for e in (-1e-6, 1e-6)]
    n = [max(k, 0) for k in n]
    results = []
    for _ in range(2 if c["twice"] else 1):  # the second run continues
        if simulated:
            sim = SimulationMockup(dt)
            if c["goto"]:
                sim.goto_ee_state(y)
            a, b = y.copy(), yd.copy()
            with coupling.quiet():
                r = sim.step_through_cartesian(o, a, b, execution_time,
                                               coupling_term=term)
            check(len(r) == 4, "%d results", len(r))
            close(a, y, "initial state after execution", 0)
            close(b, yd, "initial velocity after execution", 0)
            dp, ps, dv, vs = (np.asarray(x) for x in r)
            close(ps, dp, "actual and desired positions", 0)
            close(vs, dv, "actual and desired velocities", 0)
            check(len(dp) - 1 in n, "%d steps instead of %s", len(dp) - 1, n)
            y, yd = dp[-1].copy(), dv[-1].copy()
        else:
            dp, dv = [y], [yd]
            for _ in range(c["counts"][len(results)]):
                with coupling.quiet():
                    y, yd = o.step(y.copy(), yd.copy(), coupling_term=term)
                dp.append(y)
                dv.append(yd)
            dp, dv = np.array(dp), np.array(dv)
        results.append((dp, dv))
    return results


@sub("C30", cases(), "at least one step", quick=800, shards=8)
def mockup(c):
    actual = run(c, True)
    c["counts"] = [len(dp) - 1 for dp, _ in actual]
    expected = run(c, False)
    for i, (a, b) in enumerate(zip(actual, expected)):
        if not (np.all(np.isfinite(b[0])) and np.all(np.isfinite(b[1]))):
            raise Skip("diverges")
        close(a[0], b[0], "positions (run %d)" % i, 1e-12)
        close(a[1], b[1], "velocities (run %d)" % i, 1e-12)
    return [c["p"]["kind"], c["term"]["type"] if c["term"] else
            "no coupling"] if c["counts"][0] else False


# --- physics engine ---------------------------------------------------------

@sub("C30", st.fixed_dictionaries(dict(p=vec(3), q=raw_quat())),
     "rotation is not the identity", quick=500, shards=2)
def conversion(c):
    to_engine = getattr(simulation, "_pybullet_pose", None)
    from_engine = getattr(simulation, "_pytransform_pose", None)
    if to_engine is None or from_engine is None:
        raise Skip("conversion is not accessible")
    import pybullet
    pose = np.hstack((c["p"], gen.quat(c["q"])))
    copy = pose.copy()
    pos, rot = to_engine(pose)
    close(pose, copy, "pose passed to the conversion", 0)
    close(pos, pose[:3], "position", 0)
    R = np.array(pybullet.getMatrixFromQuaternion(rot)).reshape(3, 3)
    close(R, rotmat(pose[3:]), "rotation in the physics engine", 1e-6)
    close(from_engine(pos, rot), pose, "converted back", 0)
    close(from_engine(tuple(pos), tuple(rot)), pose, "converted back", 0)
    return c["q"][1:] != [0, 0, 0]


JOINTS = ["ur5_shoulder_pan_joint", "ur5_shoulder_lift_joint",
          "ur5_elbow_joint", "ur5_wrist_1_joint", "ur5_wrist_2_joint",
          "ur5_wrist_3_joint"]
URDF = os.path.join(REPO, "examples", "data", "urdf", "ur5.urdf")
_cache = {}


@contextlib.contextmanager
def engine():
    """One simulation per process; the engine writes to stdout."""
    if "ur5" not in _cache:
        null = os.open(os.devnull, os.O_WRONLY)
        saved = [os.dup(1), os.dup(2)]
        os.dup2(null, 1)
        os.dup2(null, 2)
        cwd = os.getcwd()
        try:
            os.chdir(REPO)
            _cache["ur5"] = simulation.UR5Simulation(
                dt=0.01, gui=False, real_time=False)
        finally:
            os.chdir(cwd)
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
            for fd in saved + [null]:
                os.close(fd)
        with open(URDF) as f:
            _cache["chain"] = Kinematics(f.read()).create_chain(
                JOINTS, "ur5_base_link", "ur5_flange")
    yield _cache["ur5"], _cache["chain"]


@sub("C30", st.fixed_dictionaries(dict(q=vec(6, -3, 3, 2))), "always",
     quick=160, shards=4)
def end_effector(c):
    """State of the simulated robot arm is the one of its joints."""
    import pybullet
    q = np.array(c["q"])
    with engine() as (ur5, chain):
        q = np.clip(q, chain.joint_limits[:, 0], chain.joint_limits[:, 1])
        for i, v in zip(ur5.joint_indices, q):
            pybullet.resetJointState(ur5.robot, i, v)
        close(ur5.get_joint_state()[0], q, "joint angles", 1e-6)
        pose = ur5.get_ee_state()
        H = chain.forward(q)
        close(pose[:3], H[:3, 3], "position of the end effector", 1e-5)
        close(rotmat(pose[3:]), H[:3, :3], "orientation", 1e-5)
        again, velocity = ur5.get_ee_state(return_velocity=True)
        close(again, pose, "pose with velocity", 1e-9)
        close(velocity.shape, [6], "size of the velocity", 0)
    return True
