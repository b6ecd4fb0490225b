"""C21 Inverse kinematics returns admissible joints whose error is as reported."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.kinematics import Kinematics

from .. import robots
from ..core import sub
from ..gen import dec, vec
from ..util import check, close, rotmat, qexp

SOLVERS = ["SLSQP", "SLSQP", "L-BFGS-B", "COBYLA"]
TOL = 1e-6  # rounding of the rotation angle is in the order of 1e-8
ACCURACY = 1e-3  # solvers stop at changes of 1e-6 of a non-smooth error


@st.composite
def base(draw, solvers=SOLVERS, n_min=2):
    n = draw(st.integers(n_min, 6))
    return dict(robot=draw(robots.serial(n)), solver=draw(st.sampled_from(
        solvers)), u0=draw(vec(n, 0, 1, 2)), u1=draw(vec(n, 0, 1, 2)),
        ow=draw(st.sampled_from([1.0, 1.0, 0.5, 0.1, 0.0])),
        pw=draw(st.sampled_from([1.0, 1.0, 0.5, 0.25])))


def chain_of(c):
    n = len(c["robot"]["joints"])
    ch = Kinematics(robots.urdf(c["robot"])).create_chain(
        ["j%d" % i for i in range(n)], "l0", "l%d" % n)
    limits = np.array([j.get("limits", [-np.pi, np.pi])
                       for j in c["robot"]["joints"]])
    return ch, limits


def reached(c, q):
    return robots.forward(c["robot"], dict(enumerate(q)), 0, len(q))


def error_at(c, q, H):
    return robots.pose_error(H, reached(c, q), c["ow"], c["pw"])


def between(u, bounds):
    return bounds[:, 0] + np.array(u) * (bounds[:, 1] - bounds[:, 0])


def desired(c, limits, q0):
    kind = c["kind"]
    if kind == "reachable":
        return reached(c, between(c["u1"], limits))
    H = reached(c, q0)
    if kind == "far":
        H = reached(c, between(c["u1"], limits))
        H[:3, 3] = H[:3, 3] * 3 + 1
    elif kind == "turned":  # by 180 degrees
        axis = np.array(c["axis"], float)
        H[:3, :3] = H[:3, :3].dot(rotmat(qexp(np.pi * axis / np.linalg.norm(
            axis))))
    return H


def inside(q, bounds, what, tol=1e-9):
    check(q.shape == (len(bounds),), "%s: shape %s", what, q.shape)
    check(np.all(q >= bounds[:, 0] - tol) and np.all(
        q <= bounds[:, 1] + tol), "%s outside of its bounds", what)


@st.composite
def attempts(draw):
    c = draw(base())
    n = len(c["robot"]["joints"])
    c["kind"] = draw(st.sampled_from(["reachable", "reachable", "far",
                                      "turned", "same"]))
    c["axis"] = draw(st.sampled_from([[0, 0, 1], [1, 0, 0], [1, 2, -1]]))
    c["outside"] = draw(st.booleans())  # initial guess outside of the bounds
    c["bounds"] = draw(st.one_of(st.none(), st.lists(st.tuples(
        dec(0, 0.6, 2), dec(0.1, 0.4, 2)).map(list), min_size=n, max_size=n)))
    return c


@sub("C21", attempts(), "pose differs from the one of the initial guess",
     quick=1200, shards=16)
def single(c):
    """Bounds, reported error, improvement."""
    ch, limits = chain_of(c)
    bounds = limits
    if c["bounds"] is not None:
        lo = between([b[0] for b in c["bounds"]], limits)
        bounds = np.column_stack((lo, lo + np.array(
            [b[1] for b in c["bounds"]]) * (limits[:, 1] - limits[:, 0])))
    admissible = between(c["u0"], bounds)
    q0 = admissible + (0.3 * (2 * np.array(c["u0"]) - 1) if c["outside"]
                       else 0.0)
    H = desired(c, limits, admissible)
    kw = dict(solver=c["solver"], orientation_weight=c["ow"],
              position_weight=c["pw"])
    if c["bounds"] is not None:
        kw["bounds"] = bounds
    q, error = ch.inverse(H, q0, return_error=True, **kw)
    # COBYLA accepts violations of bounds up to 2e-4
    inside(q, bounds, "joint values", 2e-4 if c["solver"] == "COBYLA" else 1e-9)
    close(error, error_at(c, q, H), "reported error", TOL)
    q_ = ch.inverse(H, q0, **kw)
    close(q_, q, "without error, again", 1e-12)
    before = error_at(c, admissible, H)
    if not c["outside"]:
        check(error <= before + ACCURACY,
              "error %.9g, initial guess was better (%.9g)", error, before)
    return [c["solver"], c["kind"]] if before > 1e-3 else False


@st.composite
def close_cases(draw):
    c = draw(base(solvers=["SLSQP"]))
    c["delta"] = draw(vec(len(c["u0"]), -1, 1, 2))
    c["size"] = draw(st.sampled_from([0.2, 0.1, 0.05]))
    c["seed"] = draw(st.integers(0, 100))
    return c


@sub("C21", close_cases(), "initial error above 0.01", quick=600, shards=16)
def near(c):
    """Started close to a solution a good one is found."""
    ch, limits = chain_of(c)
    goal = between(0.1 + 0.8 * np.array(c["u1"]), limits)
    H = reached(c, goal)
    # the error is not smooth: single attempts get stuck now and then
    d = c["size"] * np.array(c["delta"])
    ratios = []
    for delta in (d, -d, np.roll(d, 1), 0.5 * d, d * (-1) ** np.arange(len(d)),
                  np.roll(d, -1) * 0.7):
        q0 = np.clip(goal + delta, limits[:, 0], limits[:, 1])
        before = error_at(c, q0, H)
        q, error = ch.inverse(H, q0, return_error=True, solver=c["solver"],
                              orientation_weight=c["ow"],
                              position_weight=c["pw"])
        close(error, error_at(c, q, H), "reported error", TOL)
        ratios.append((error - 0.01) / max(before, 1e-9))
    check(min(ratios) <= 0.5, "no solution found close to a solution")
    q0 = np.clip(goal + d, limits[:, 0], limits[:, 1])
    before = error_at(c, q0, H)
    # with restarts, too
    q = ch.local_inverse_with_random_restarts(
        H, q0, 0.25, random_state=np.random.RandomState(c["seed"]),
        solver=c["solver"], orientation_weight=c["ow"],
        position_weight=c["pw"])
    inside(q, np.column_stack((np.maximum(q0 - 0.25, limits[:, 0]),
                               np.minimum(q0 + 0.25, limits[:, 1]))),
           "joint values")
    error = error_at(c, q, H)
    check(error <= 0.5 * before + 0.02, "error %.3g with restarts, was "
          "%.3g close to a solution", error, before)
    return before > 1e-2


@st.composite
def restart_cases(draw):
    c = draw(base(solvers=["SLSQP", "L-BFGS-B"]))
    c["kind"] = draw(st.sampled_from(["reachable", "reachable", "far"]))
    c["seed"] = draw(st.integers(0, 100))
    c["n"] = draw(st.integers(2, 4))
    c["tolerance"] = draw(st.sampled_from([1e-3, 1e-8, 0.5]))
    c["interval"] = draw(st.sampled_from([0.1, 0.5, 2.0, 10.0]))
    c["local"] = draw(st.booleans())
    c["outside"] = draw(st.booleans())
    return c


@sub("C21", restart_cases(), "more than one attempt", quick=400, shards=16)
def restarts(c):
    """Best attempt, tolerance, reproducible, search interval."""
    ch, limits = chain_of(c)
    q0 = between(c["u0"], limits)
    H = desired(c, limits, q0)
    kw = dict(tolerance=c["tolerance"], solver=c["solver"],
              orientation_weight=c["ow"], position_weight=c["pw"])
    if c["local"]:
        if c["outside"]:
            q0 = q0 + 0.3 * (2 * np.array(c["u0"]) - 1)
        bounds = np.column_stack((
            np.clip(q0 - c["interval"], limits[:, 0], limits[:, 1]),
            np.clip(q0 + c["interval"], limits[:, 0], limits[:, 1])))

        def solve(n, seed):
            return ch.local_inverse_with_random_restarts(
                H, q0, c["interval"], n, random_state=np.random.RandomState(
                    seed), **kw)
    else:
        bounds = limits

        def solve(n, seed):
            return ch.inverse_with_random_restarts(
                H, n, random_state=np.random.RandomState(seed), **kw)
    Q = [solve(n, c["seed"]) for n in range(1, c["n"] + 1)]
    errors = [error_at(c, q, H) for q in Q]
    for q in Q:
        inside(q, bounds, "joint values")
    for a, b in zip(errors[:-1], errors[1:]):
        check(b <= a + TOL, "more restarts are worse: %.6g after %.6g", b, a)
    close(solve(c["n"], c["seed"]), Q[-1], "same random state", 1e-12)
    if c["local"]:
        # the first attempt is the one from the current configuration
        q = ch.inverse(H, q0, bounds=bounds, solver=c["solver"],
                       orientation_weight=c["ow"], position_weight=c["pw"])
        check(errors[0] <= error_at(c, q, H) + TOL, "first attempt")
    if min(errors) <= c["tolerance"]:
        # search ends with the first sufficient attempt
        k = int(np.argmax(np.array(errors) <= c["tolerance"] - TOL))
        if errors[k] <= c["tolerance"] - TOL:
            for q in Q[k:]:
                close(q, Q[k], "after a sufficient attempt", 1e-12)
    return [c["solver"], "local" if c["local"] else "global"] \
        if errors[0] > c["tolerance"] else False


@st.composite
def trajectories(draw):
    c = draw(base(solvers=["SLSQP"], n_min=3))
    c["step"] = draw(vec(len(c["u0"]), -0.05, 0.05, 3))
    c["steps"] = draw(st.integers(2, 10))
    c["seed"] = draw(st.integers(0, 100))
    c["random_restarts"] = draw(st.booleans())
    c["interval"] = draw(st.sampled_from([0.1, 0.2, 0.3, 0.1 * np.pi]))
    c["initial"] = draw(st.booleans())
    return c


@sub("C21", trajectories(), "end effector moves", quick=300, shards=16)
def tracking(c):
    ch, limits = chain_of(c)
    steps = c["steps"]
    start = between(0.15 + 0.7 * np.array(c["u1"]), limits)
    Q = np.clip(start + np.outer(np.arange(steps), c["step"]), limits[:, 0],
                limits[:, 1])
    H = np.array([reached(c, q) for q in Q])
    kw = dict(interval=c["interval"], random_restarts=c["random_restarts"],
              solver=c["solver"], orientation_weight=c["ow"],
              position_weight=c["pw"])
    if c["initial"]:
        kw["initial_joint_angles"] = start
    P = ch.inverse_trajectory(H, random_state=np.random.RandomState(c["seed"]),
                              **kw)
    check(P.shape == Q.shape, "shape %s", P.shape)
    for p in P:
        inside(p, limits, "joint values")
    check(np.abs(np.diff(P, axis=0)).max() <= c["interval"] + 1e-9,
          "joints move further than the search interval")
    close(ch.inverse_trajectory(
        H, random_state=np.random.RandomState(c["seed"]), **kw), P,
        "same random state", 1e-12)
    # never worse than not moving
    for t in range(1, steps):
        stay = error_at(c, P[t - 1], H[t])
        check(error_at(c, P[t], H[t]) <= stay + ACCURACY,
              "step %d: staying would be better", t)
    moved = error_at(c, start, H[-1]) > 1e-2
    if c["initial"]:
        errors = [error_at(c, p, h) for p, h in zip(P, H)]
        check(max(errors) <= 0.3 * error_at(c, start, H[-1]) + 0.02,
              "trajectory not tracked, error %.3g", max(errors))
    return ["initial" if c["initial"] else "no initial guess"] \
        if moved else False


@st.composite
def unreachable(draw):
    c = draw(base(solvers=["SLSQP"], n_min=3))
    c["ow"], c["pw"] = draw(st.sampled_from([(1.0, 0.05), (0.05, 1.0),
                                             (1.0, 0.0), (1.0, 1.0)]))
    c["offset"] = draw(vec(3, -1, 1, 1))
    c["turn"] = draw(vec(3, -1, 1, 1))
    c["steps"] = draw(st.integers(2, 4))
    c["seed"] = draw(st.integers(0, 100))
    c["random_restarts"] = draw(st.booleans())
    c["interval"] = draw(st.sampled_from([0.1, 0.3]))
    return c


@sub("C21", unreachable(), "the error can be reduced by more than 0.02",
     quick=200, shards=16)
def compromises(c):
    """Best compromise between position and orientation in each step."""
    ch, limits = chain_of(c)
    start = between(0.15 + 0.7 * np.array(c["u1"]), limits)
    H = np.array([reached(c, start)] * c["steps"])
    for t in range(c["steps"]):
        f = (t + 1) / c["steps"]
        H[t, :3, 3] += f * np.array(c["offset"])
        H[t, :3, :3] = H[t, :3, :3].dot(rotmat(qexp(f * np.array(c["turn"]))))
    weights = dict(solver=c["solver"], orientation_weight=c["ow"],
                   position_weight=c["pw"])
    P = ch.inverse_trajectory(
        H, start, random_restarts=c["random_restarts"],
        interval=c["interval"], random_state=np.random.RandomState(c["seed"]),
        **weights)
    gain = 0.0
    for t in range(1, c["steps"]):
        q = ch.local_inverse_with_random_restarts(
            H[t], P[t - 1], c["interval"], n_restarts=5,
            random_state=np.random.RandomState(c["seed"] + 1), **weights)
        best, error = error_at(c, q, H[t]), error_at(c, P[t], H[t])
        stay = error_at(c, P[t - 1], H[t])
        gain = max(gain, stay - best)
        slack = 0.1 if c["random_restarts"] else 0.3
        check(error <= best + 0.01 + slack * max(stay - best, 0.0),
              "step %d of the trajectory has weighted error %g, a joint "
              "configuration within the interval has %g" % (t, error, best))
    return ["restarts" if c["random_restarts"] else "single"] \
        if gain > 0.02 else False
