"""C13 Spring coupling terms enforce distances, leader/follower."""
import numpy as np
from hypothesis import strategies as st

from .. import coupling
from ..core import Skip, sub
from ..gen import (as_state, build, construct, dec, demo, demo_arrays, prim,
                   quat, raw_quat, state, vec)
from ..util import (check, close, close_poses, qconj, qdist, qexp, qlog, qmul,
                    rotmat)


@st.composite
def gains(draw, couple=False):
    c = dict(lf=draw(st.one_of(
        st.sampled_from([[1.0, 0.0], [0.0, 1.0], [0.5, 0.5], [1.0, 1.0]]),
        vec(2, 0, 1, 2))), k=draw(dec(0, 3, 1)), c1=draw(dec(0, 100, 1)),
        c2=draw(dec(0, 50, 1)))
    return c


def distances(draw, d, near):
    return d


@st.composite
def point_cases(draw):
    kind = draw(st.sampled_from(["pos1d", "pos3d"]))
    n = 1 if kind == "pos1d" else 3
    c = dict(draw(gains()), type=kind,
             d=draw(dec(-2, 2, 2)) if n == 1 else draw(vec(3, -2, 2, 2)),
             y=draw(vec(2 * n)), yd=draw(vec(2 * n)),
             at=draw(st.integers(0, 3)) == 0)
    if c["at"]:  # exactly at the desired distance: y1 = y0 + d
        d = [c["d"]] if n == 1 else c["d"]
        c["y"][n:] = [round(a + b, 6) for a, b in zip(c["y"][:n], d)]
    return c


@sub("C13", point_cases(), "there is a deviation or it is exactly zero by "
     "construction", quick=4000, shards=4)
def points(c):
    """Coupled coordinates and points."""
    n = 1 if c["type"] == "pos1d" else 3
    term = coupling.make(c)
    y = np.array(c["y"])
    cd, cdd = term.coupling(y, np.array(c["yd"]))
    d = np.atleast_1d(np.array(c["d"], dtype=float))
    # deviation of the second point from the desired place
    e = y[n:] - y[:n] - d
    force = c["k"] * e  # pulls the first one towards the second
    gain = c["c2"] * (c["c1"] if n == 1 else 1.0)
    close(cd, c["c1"] * np.hstack((c["lf"][0] * force, -c["lf"][1] * force)),
          "velocity coupling", 1e-9)
    close(cdd, gain * np.hstack((c["lf"][0] * force, -c["lf"][1] * force)),
          "acceleration coupling", 1e-9)
    if c["at"]:
        close(cdd, np.zeros(2 * n), "at the desired distance",
              1e-12 * (1 + gain * c["k"]))
    return [c["type"], "at distance" if c["at"] else "deviation"]


@st.composite
def dual_cases(draw):
    kind = draw(st.sampled_from(["distance", "pose", "pose", "trajectory"]))
    c = dict(draw(gains()), type=kind, y=draw(state("dual", 14)),
             yd=draw(vec(12, -1, 1)), frame=draw(raw_quat()),
             shift=draw(vec(3)), at=draw(st.integers(0, 2)) == 0)
    if draw(st.integers(0, 3)) == 0:
        c["yd"] = [0.0] * 12
    c["couple_position"] = draw(st.sampled_from([True, True, False]))
    c["couple_orientation"] = draw(st.sampled_from([True, True, False]))
    if kind == "distance":
        c["d"] = draw(dec(-2, 2, 2))
        return c
    c["pos"], c["q"] = draw(vec(3, -1, 1)), draw(raw_quat())
    return c


def relative_pose(y):
    """Position and orientation of the right in the left frame."""
    R = rotmat(y[3:7])
    return R.T.dot(y[7:10] - y[:3]), qmul(qconj(y[3:7]), y[10:])


def place_right(y, p, q):
    y = y.copy()
    y[7:10] = y[:3] + rotmat(y[3:7]).dot(p)
    y[10:] = qmul(y[3:7], q)
    return y


def expected(c, y, yd):
    lf = c["lf"]
    if c["type"] == "distance":
        diff = y[:3] - y[7:10]
        dist = np.linalg.norm(diff)
        F = c["k"] * (abs(c["d"]) - dist) * diff / dist
        z = np.zeros(3)
        side = [np.hstack((lf[0] * F, z)), np.hstack((-lf[1] * F, z))]
        return (c["c1"] * np.hstack(side), c["c2"] * np.hstack(side))
    p, q = relative_pose(y)
    R = rotmat(y[3:7])
    F = np.zeros(6)
    mask = np.zeros(6)
    if c["couple_position"]:
        F[:3] = c["k"] * R.dot(np.array(c["pos"]) - p)
        mask[:3] = 1
    if c["couple_orientation"]:
        F[3:] = c["k"] * R.dot(qlog(qmul(quat(c["q"]), qconj(q))))
        mask[3:] = 1
    damping = 2 * np.sqrt(c["k"] * c["c2"])
    cd = c["c1"] * np.hstack((-lf[0] * F, lf[1] * F))
    cdd = np.hstack((lf[0] * (-c["c2"] * F - damping * mask * yd[:6]),
                     lf[1] * (c["c2"] * F - damping * mask * yd[6:])))
    return cd, cdd


def make(c):
    if c["type"] != "trajectory":
        return coupling.make(c)
    # a demonstration with constant relative pose, seen from anywhere
    y = as_state("dual", c["y"])
    Y = [place_right(y, np.array(c["pos"]), quat(c["q"])) for _ in range(3)]
    Y[1][:3] += 0.3
    Y[1][7:10] += 0.3
    term = coupling.CouplingTermDualCartesianTrajectory(
        np.zeros(7), lf=tuple(c["lf"]), dt=0.1, k=c["k"], c1=c["c1"],
        c2=c["c2"], verbose=0, couple_position=c["couple_position"],
        couple_orientation=c["couple_orientation"])
    term.imitate(np.array([0.0, 0.5, 1.0]), np.array(Y))
    return term


def prepare(c):
    y = as_state("dual", c["y"])
    if c["at"]:
        if c["type"] == "distance":
            diff = y[7:10] - y[:3]
            if np.linalg.norm(diff) < 1e-3:
                raise Skip("no direction")
            y[7:10] = y[:3] + abs(c["d"]) * diff / np.linalg.norm(diff)
        else:
            y = place_right(y, np.array(c["pos"]), quat(c["q"]))
    if c["type"] == "distance" and np.linalg.norm(y[7:10] - y[:3]) < 1e-6:
        raise Skip("no direction")
    if c["type"] != "distance":
        q = relative_pose(y)[1]
        if qdist(q, quat(c["q"])) > np.pi - 1e-3:
            raise Skip("180 degrees")
    return y


@sub("C13", dual_cases(), "coupling not zero or at the desired pose",
     quick=4000, shards=8)
def poses(c):
    """Two poses: value of the coupling from its definition."""
    y, yd = prepare(c), np.array(c["yd"])
    cd, cdd = make(c).coupling(y, yd)
    ecd, ecdd = expected(c, y, yd)
    close(cd, ecd, "velocity coupling", 1e-6)
    close(cdd, ecdd, "acceleration coupling", 1e-6)
    if c["at"]:
        close(cd, np.zeros(12), "at the desired pose", 1e-6 * (1 + c["c1"]))
        if not yd.any():
            close(cdd, np.zeros(12), "at the desired pose at rest",
                  1e-6 * (1 + c["c2"]))
    return [c["type"], "at" if c["at"] else "away",
            "position" if c.get("couple_position") else "no position",
            "orientation" if c.get("couple_orientation") else
            "no orientation"]


@sub("C13", dual_cases(), "coupling not zero", quick=2000, shards=8)
def base_frame(c):
    """Moving the base frame moves the coupling with it."""
    y, yd = prepare(c), np.array(c["yd"])
    f, R = quat(c["frame"]), rotmat(quat(c["frame"]))
    z, zd = y.copy(), yd.copy()
    for a in (0, 7):
        z[a:a + 3] = R.dot(y[a:a + 3]) + c["shift"]
        z[a + 3:a + 7] = qmul(f, y[a + 3:a + 7])
    turn = np.kron(np.eye(4), R)
    zd = turn.dot(yd)
    a, b = make(c).coupling(y, yd), make(c).coupling(z, zd)
    for u, v, what in zip(a, b, ("velocity", "acceleration")):
        close(v, turn.dot(u), what + " coupling in another base frame", 1e-6)
    return [c["type"]] if np.abs(a[1]).max() > 1e-9 else False


@st.composite
def runs(draw):
    kind = draw(st.sampled_from(["pos1d", "pos3d", "distance", "pose",
                                 "trajectory"]))
    prims = {"pos1d": prim(kinds=("dmp",), dims=(2,)),
             "pos3d": prim(kinds=("dmp",), dims=(6,))}.get(
                 kind, prim(kinds=("dual",)))
    p = draw(prims)
    c = draw({"distance": coupling.dual_distance(),
              "pose": coupling.dual_pose(),
              "trajectory": coupling.dual_trajectory()}.get(
                  kind, coupling.springs()))
    if kind == "pos1d":
        c.update(type=kind, d=draw(dec(-1, 1, 2)))
    if kind == "pos3d":
        c.update(type=kind, d=draw(vec(3, -1, 1)))
    c["lf"] = draw(st.sampled_from([[1.0, 0.0], [0.0, 1.0]]))
    p["int_dt"] = 1.7 * p["dt"]
    return dict(p=p, c=c, impl=draw(st.sampled_from(["python", "cython"])))


@sub("C13", runs(), "the follower deviates from its uncoupled motion",
     quick=800, shards=8)
def leader(c):
    """The leader moves as without coupling, the follower does not."""
    p = c["p"]
    kw = {}
    if p["kind"] == "dual":
        kw["step_function"] = c["impl"]
    else:
        kw["step_function"] = {"python": "rk4", "cython": "euler-cython"}[
            c["impl"]]
    with np.errstate(all="ignore"):
        A = build(p).open_loop(**kw)[1]
        B = build(p).open_loop(coupling_term=coupling.make(c["c"]), **kw)[1]
    if not np.all(np.isfinite(B)) or np.abs(B).max() > 1e5:
        raise Skip("diverges")
    half = A.shape[1] // 2
    sides = [slice(0, half), slice(half, None)]
    lead = sides[c["c"]["lf"].index(0.0)]
    follow = sides[c["c"]["lf"].index(1.0)]
    close(B[:, lead], A[:, lead], "leader", 1e-12)
    moved = np.abs(A[:, follow] - B[:, follow]).max()
    return [c["c"]["type"]] if moved > 1e-6 else False


@st.composite
def demonstrations(draw):
    # relative orientations might turn by more than 180 degrees
    d = draw(demo("dual", amplitude=draw(st.sampled_from([1.0, 3.0])),
                  steps=(10, 30)))
    return dict(draw(gains()), d=d, fine=draw(st.integers(1, 3)),
                frame=draw(raw_quat()), shift=draw(vec(3)),
                offset=draw(st.one_of(st.just([0.0] * 3),
                                      vec(3, -0.3, 0.3))))


@sub("C13", demonstrations(), "acceleration gain and stiffness positive",
     quick=800, shards=8)
def demonstrated(c):
    """Following the demonstrated relative pose, seen from any frame, is not
    influenced, at and between the demonstrated times."""
    T, Y = demo_arrays(c["d"])
    dt = (T[1] - T[0]) / c["fine"]
    f, R = quat(c["frame"]), rotmat(quat(c["frame"]))
    term = coupling.CouplingTermDualCartesianTrajectory(
        np.array(c["offset"] + [0.0] * 4), lf=tuple(c["lf"]), dt=dt,
        k=c["k"], c1=c["c1"], c2=c["c2"], verbose=0)
    for _ in range(2):  # imitation starts again
        term.imitate(T, Y)
        for i in range(c["fine"] * (len(T) - 1)):
            a, r = divmod(i, c["fine"])
            s = r / c["fine"]
            p0, q0 = relative_pose(Y[a])
            p1, q1 = relative_pose(Y[a + 1])
            p = (1 - s) * p0 + s * p1 + c["offset"]
            if q0.dot(q1) < 0:
                q1 = -q1
            q = (1 - s) * q0 + s * q1
            q /= np.linalg.norm(q)
            y = Y[a].copy()
            y[:3] = R.dot(y[:3]) + c["shift"]
            y[3:7] = qmul(f, y[3:7])
            y = place_right(y, p, q)
            cd, cdd = term.coupling(y, np.zeros(12))
            # any reasonable interpolation between the demonstrated times
            tol = 1e-6 if r == 0 else 2e-2
            close(cd, np.zeros(12), "velocity coupling at time %.3g"
                  % (i * dt), tol * (1 + c["c1"]))
            close(cdd, np.zeros(12), "acceleration coupling at time %.3g"
                  % (i * dt), tol * (1 + c["c2"]))
    return ["between times" if c["fine"] > 1 else "at times"
            ] if c["k"] * c["c2"] > 0 else False
