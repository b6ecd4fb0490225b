"""Coupling terms used by several checks: strategies and constructors."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from movement_primitives.dmp import (
    CouplingTermDualCartesianDistance, CouplingTermDualCartesianPose,
    CouplingTermDualCartesianTrajectory, CouplingTermObstacleAvoidance2D,
    CouplingTermObstacleAvoidance3D, CouplingTermPos1DToPos1D,
    CouplingTermPos3DToPos3D)

from .gen import as_state, dec, mat, raw_quat, state, vec
from .util import rotmat


class Linear:
    """Acceleration and velocity that depend linearly on the velocity."""

    def __init__(self, cd0, cdd0, dv):
        self.cd0, self.cdd0, self.dv = (
            np.array(cd0, float), np.array(cdd0, float), dv)

    def coupling(self, y, yd):
        yd = np.array(yd, dtype=float)
        n = len(yd)
        return self.cd0[:n] + 0.0 * yd, self.cdd0[:n] + self.dv * yd


class Counting:
    """Depends on the number of evaluations, like trajectory couplings do."""

    def __init__(self, amplitude):
        self.amplitude = np.array(amplitude, float)
        self.n_calls = 0

    def coupling(self, y, yd):
        self.n_calls += 1
        n = len(yd)
        return (0.02 * self.amplitude[:n] * math.cos(self.n_calls),
                self.amplitude[:n] * math.sin(0.1 * self.n_calls))


@st.composite
def linear(draw, n, velocity=True):
    return dict(type="linear",
                cd0=draw(vec(n, -0.05, 0.05)) if velocity else [0.0] * n,
                cdd0=draw(vec(n, -20, 20, 1)), dv=draw(dec(-5, 1, 1)))


@st.composite
def springs(draw, n=None):
    """Gains and leader/follower weights common to the spring couplings."""
    return dict(lf=draw(st.sampled_from(
        [[1.0, 0.0], [0.0, 1.0], [0.5, 0.5], [1.0, 1.0], [0.25, 0.75]])),
        k=draw(dec(0.1, 2, 1)), c1=draw(dec(0.0, 0.3, 2)),
        c2=draw(dec(0, 30, 1)))


@st.composite
def dual_pose(draw):
    c = dict(draw(springs()), type="pose", pos=draw(vec(3, -1, 1)),
             q=draw(raw_quat()))
    c["couple_position"] = draw(st.booleans())
    c["couple_orientation"] = draw(st.booleans())
    return c


@st.composite
def dual_distance(draw):
    return dict(draw(springs()), type="distance", d=draw(dec(0, 2, 2)))


@st.composite
def dual_trajectory(draw):
    n = draw(st.integers(2, 4))
    return dict(draw(springs()), type="trajectory", dt=draw(dec(0.01, 0.1, 2)),
                T=[round(0.5 * i, 2) for i in range(n)],
                Y=[draw(state("dual", 14)) for _ in range(n)],
                offset=draw(vec(3, -0.2, 0.2)) + [0.0] * 4)


@st.composite
def obstacle(draw, n):
    return dict(type="obstacle", n=n, pos=draw(vec(n, -2, 2)),
                gamma=draw(dec(0, 500, 0)), beta=draw(dec(1, 8, 1)))


@st.composite
def for_kind(draw, kind, n, counting=True):
    """Coupling term that fits to a primitive, None in a third of the cases."""
    options = [st.none()]
    if kind == "dual":
        options += [linear(12), dual_pose(), dual_distance(),
                    dual_trajectory()]
        m = 12
    else:
        m = n
        options += [linear(n)]
        if n == 2:
            options += [obstacle(2), obstacle(2), st.tuples(springs(), dec(-1, 1, 2)).map(
                lambda a: dict(a[0], type="pos1d", d=a[1]))]
        if n == 3:
            options += [obstacle(3)] * 2
        if n == 6:
            options += [st.tuples(springs(), vec(3, -1, 1)).map(
                lambda a: dict(a[0], type="pos3d", d=a[1]))]
    if counting:
        options += [vec(m, -10, 10, 1).map(
            lambda a: dict(type="counting", amplitude=a))]
    return draw(st.one_of(*options))


def make(c, fast=False):
    """Construct a coupling term (a new one, they may be stateful)."""
    if c is None:
        return None
    kind = c["type"]
    if kind == "linear":
        return Linear(c["cd0"], c["cdd0"], c["dv"])
    if kind == "counting":
        return Counting(c["amplitude"])
    if kind == "obstacle":
        if c["n"] == 2:
            return CouplingTermObstacleAvoidance2D(
                np.array(c["pos"]), gamma=c["gamma"], beta=c["beta"],
                fast=fast)
        return CouplingTermObstacleAvoidance3D(
            np.array(c["pos"]), gamma=c["gamma"], beta=c["beta"])
    gains = dict(lf=tuple(c["lf"]), k=c["k"], c1=c["c1"], c2=c["c2"])
    if kind == "pos1d":
        return CouplingTermPos1DToPos1D(c["d"], **gains)
    if kind == "pos3d":
        return CouplingTermPos3DToPos3D(np.array(c["d"]), **gains)
    if kind == "distance":
        return CouplingTermDualCartesianDistance(c["d"], **gains)
    if kind == "pose":
        T = np.eye(4)
        q = np.array(c["q"], float)
        T[:3, :3] = rotmat(q / np.linalg.norm(q))
        T[:3, 3] = c["pos"]
        return CouplingTermDualCartesianPose(
            T, couple_position=c["couple_position"],
            couple_orientation=c["couple_orientation"], **gains)
    term = CouplingTermDualCartesianTrajectory(
        np.array(c["offset"]), dt=c["dt"], verbose=0, **gains)
    Y = np.array([as_state("dual", y) for y in c["Y"]])
    # interpolation of antipodal quaternions is not defined
    for t in range(1, len(Y)):
        for i in (3, 10):
            if Y[t, i:i + 4].dot(Y[t - 1, i:i + 4]) < 0:
                Y[t, i:i + 4] *= -1
    term.imitate(np.array(c["T"]), Y)
    return term


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
