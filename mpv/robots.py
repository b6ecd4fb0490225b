"""Random robots as URDF and their forward kinematics."""
import numpy as np
from hypothesis import strategies as st

from .gen import dec, vec


@st.composite
def joint(draw, types=("revolute", "revolute", "prismatic", "continuous",
                       "fixed")):
    j = dict(type=draw(st.sampled_from(types)), xyz=draw(vec(3, -1, 1, 2)),
             rpy=draw(st.one_of(st.just([0.0, 0.0, 0.0]), vec(3, -3, 3, 2))),
             axis=draw(st.one_of(
                 st.sampled_from([[0, 0, 1], [0, 1, 0], [1, 0, 0],
                                  [0, 0, -1]]),
                 st.lists(st.integers(-3, 3), min_size=3, max_size=3).filter(
                     any))))
    if j["type"] in ("revolute", "prismatic"):
        j["limits"] = [draw(dec(-3, -0.1, 2)), draw(dec(0.1, 3, 2))]
    return j


@st.composite
def tree(draw, max_joints=7):
    """Links are numbered, joint i connects a previous link with link i + 1."""
    n = draw(st.integers(1, max_joints))
    joints = []
    for i in range(n):
        j = draw(joint())
        # mostly chains, some branches
        j["parent"] = i if draw(st.integers(0, 2)) else draw(
            st.integers(0, i))
        joints.append(j)
    return dict(joints=joints, order=draw(st.permutations(range(n))))


@st.composite
def serial(draw, n):
    joints = []
    for i in range(n):
        j = draw(joint(types=("revolute", "revolute", "revolute",
                              "continuous", "prismatic")))
        j["parent"] = i
        j["xyz"] = [round(0.5 * v, 3) for v in j["xyz"]]
        joints.append(j)
    return dict(joints=joints, order=list(range(n)))


def urdf(robot):
    n = len(robot["joints"])
    parts = ['<?xml version="1.0"?>', '<robot name="random">']
    parts += ['<link name="l%d"/>' % i for i in range(n + 1)]
    for i in robot["order"]:
        j = robot["joints"][i]
        parts.append('<joint name="j%d" type="%s">' % (i, j["type"]))
        parts.append('<origin xyz="%s" rpy="%s"/>' % tuple(
            " ".join(repr(float(v)) for v in j[k]) for k in ("xyz", "rpy")))
        parts.append('<parent link="l%d"/><child link="l%d"/>'
                     % (j["parent"], i + 1))
        parts.append('<axis xyz="%s"/>' % " ".join(
            repr(float(v)) for v in j["axis"]))
        if "limits" in j:
            parts.append('<limit lower="%r" upper="%r" effort="1" '
                         'velocity="1"/>' % tuple(j["limits"]))
        parts.append("</joint>")
    parts.append("</robot>")
    return "\n".join(parts)


def rotation(axis, angle):
    """Rodrigues' formula."""
    x, y, z = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * K.dot(K)


def motion(j, value):
    """Pose of the child link in the parent link."""
    r, p, y = j["rpy"]
    T = np.eye(4)
    T[:3, :3] = rotation([0, 0, 1], y).dot(rotation([0, 1, 0], p)).dot(
        rotation([1, 0, 0], r))
    T[:3, 3] = j["xyz"]
    if "limits" in j:
        value = min(max(value, j["limits"][0]), j["limits"][1])
    M = np.eye(4)
    axis = np.asarray(j["axis"], float) / np.linalg.norm(j["axis"])
    if j["type"] in ("revolute", "continuous"):
        M[:3, :3] = rotation(axis, value)
    elif j["type"] == "prismatic":
        M[:3, 3] = value * axis
    return T.dot(M)


def link_pose(robot, values, link):
    """Pose of a link in link 0; values: joint index -> value."""
    T = np.eye(4)
    while link > 0:
        j = robot["joints"][link - 1]
        T = motion(j, values.get(link - 1, 0.0)).dot(T)
        link = j["parent"]
    return T


def inverse(T):
    I = np.eye(4)
    I[:3, :3] = T[:3, :3].T
    I[:3, 3] = -T[:3, :3].T.dot(T[:3, 3])
    return I


def forward(robot, values, base, ee):
    return inverse(link_pose(robot, values, base)).dot(
        link_pose(robot, values, ee))


def pose_error(desired, actual, ow=1.0, pw=1.0):
    R = desired[:3, :3].T.dot(actual[:3, :3])
    skew = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    angle = np.arctan2(np.linalg.norm(skew), np.trace(R) - 1)
    return ow * angle + pw * np.linalg.norm(desired[:3, 3] - actual[:3, 3])
