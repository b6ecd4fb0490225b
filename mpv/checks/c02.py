"""C02 Executed trajectories solve the documented DMP equation."""
import numpy as np
from hypothesis import strategies as st

import movement_primitives.dmp_fast as fast
from movement_primitives.dmp import (
    CouplingTermObstacleAvoidance2D, CouplingTermObstacleAvoidance3D)
from movement_primitives.dmp._cartesian_dmp import dmp_step_quaternion_python
from movement_primitives.dmp._dmp import dmp_step_euler, dmp_step_rk4

from .. import ref
from ..core import Skip, sub
from ..gen import build, dec, prim, start_state, vec
from ..util import check, close, scale_of


@st.composite
def cases(draw, kinds):
    p = draw(prim(kinds=kinds, dims=(1, 2, 2, 3, 3, 4)))
    p["tau"] = draw(dec(0.2, 5.0, 2))
    p["dt"] = p["tau"] / draw(st.integers(30, 40))
    c = dict(p=p, ints=draw(st.sampled_from([1.0, 1.0, 0.5, 0.4, 1.7])))
    if p["kind"] == "dmp":
        c["step"] = draw(st.sampled_from(
            ["rk4", "rk4-cython", "euler", "euler-cython"]))
        if p["n"] in (2, 3) and draw(st.booleans()):
            c["obstacle"] = draw(vec(p["n"], -2, 2))
            c["gamma"] = draw(dec(0, 300, 0))
            c["beta"] = draw(dec(2, 8, 1))
    elif p["kind"] == "cart":
        c["step"] = draw(st.sampled_from(
            ["rk4", "rk4-cython", "euler", "euler-cython"]))
        c["qstep"] = draw(st.sampled_from(["python", "cython"]))
    else:
        c["step"] = draw(st.sampled_from(["python", "cython"]))
    return c


def avoidance(c):
    """Acceleration of obstacle avoidance from its documented formula."""
    o = np.array(c["obstacle"])

    def f(y, v):
        d, s = o - y, np.linalg.norm(v)
        if s < 1e-12 or np.linalg.norm(d) < 1e-12:
            return np.zeros_like(y)
        cos = d.dot(v) / s / np.linalg.norm(d)
        theta = np.arccos(np.clip(cos, -1, 1))
        away = -(d - d.dot(v) / s ** 2 * v)
        norm = np.linalg.norm(away)
        if norm < 1e-12:
            return np.zeros_like(y)
        return (c["gamma"] * s * theta * np.exp(-c["beta"] * theta)
                * away / norm)
    return f


def solves(c):
    p = c["p"]
    n_base = int(round(p["tau"] / p["dt"]))
    kw = {"step_function": c["step"]}
    if "qstep" in c:
        kw["quaternion_step_function"] = c["qstep"]
    if "obstacle" in c:
        kw["coupling_term"] = (
            CouplingTermObstacleAvoidance2D if p["n"] == 2
            else CouplingTermObstacleAvoidance3D)(
                np.array(c["obstacle"]), gamma=c["gamma"], beta=c["beta"])
    times = p["tau"] / n_base * np.arange(n_base)
    coupling = avoidance(c) if "obstacle" in c else None
    Yr, Vr, largest = ref.dmp_solution(
        p, times, coupling, p["tau"] / 50 if coupling else None)
    if largest > np.pi - 0.15:
        raise Skip("orientation close to 180 degrees from the goal")
    if coupling is not None:
        d = np.array(c["obstacle"]) - Yr
        speed, dist = np.linalg.norm(Vr, axis=1), np.linalg.norm(d, axis=1)
        moving = speed > 1e-9
        cos = np.sum(d * Vr, axis=1)[moving] / (speed * dist)[moving]
        if dist.min() < 0.2 or np.max(np.abs(cos), initial=0) > 0.999:
            raise Skip("too close to the singularities of the coupling")
    kind = p["kind"]
    scale = scale_of(Yr)

    def run(level):
        dt = p["tau"] / n_base / 2 ** level
        o = build(dict(p, dt=dt, int_dt=c["ints"] * dt))
        _, Y = o.open_loop(run_t=p["tau"] - 0.5 * dt, **kw)
        Y = Y[::2 ** level][:n_base]
        check(len(Y) == n_base, "number of samples")
        return ref.align(Y, Yr, kind)

    def compare(runs):
        """Difference from solution, None if steps are too large to tell."""
        limit, estimate = ref.romberg(runs)
        error = float(np.max(np.abs(limit - Yr)))
        if not estimate <= 0.03 * scale:
            return None, estimate
        # coarse bound without extrapolation: first order error
        fine = float(np.max(np.abs(runs[-1] - Yr)))
        first = float(np.max(np.abs(runs[-1] - runs[-2])))
        # obstacle avoidance is not smooth where velocity or distance vanish
        tol = (1e-5 * scale if coupling is None
               else 1e-3 * scale + 0.5 * first)
        if error > 2 * estimate + tol:
            return (
                "limit of trajectories for small steps differs from the "
                "solution of the DMP equation by %.3g (numerical error about "
                "%.3g)" % (error, estimate)), estimate
        if fine > 3 * first + 2 * estimate + tol:
            return ("trajectory differs from solution by %.3g" % fine,
                    estimate)
        return "", estimate

    runs = [run(level) for level in range(4)]
    if not np.all(np.isfinite(runs[-1])) or np.max(np.abs(runs[-1])) > 1e4:
        check(np.max(np.abs(Yr)) > 1e3, "diverges")
        raise Skip("large")
    message, estimate = compare(runs)
    # with large steps an obstacle may be passed at its other side, or an
    # orientation may be turned across 180 degrees
    refined = 0
    while refined < (3 if coupling is None else 5) and (
            message or (message is None and coupling is not None)):
        refined += 1
        runs = runs[1:] + [run(3 + refined)]
        message, estimate = compare(runs)
    if message is None:
        raise Skip("not resolved")
    check(not message, "%s", message)
    moved = np.ptp(Yr, axis=0).max() > 1e-3
    tags = [kind + "/" + c["step"], "smooth" if p["smooth"] else "plain",
            "obstacle" if "obstacle" in c else "no coupling",
            "tight" if estimate < 1e-4 * scale else "loose"]
    if refined:
        tags.append("refined")
    return tags if moved else False


RULE = ("the solution moves by more than 1e-3, stays 0.15 rad away from the "
        "180 degree singularity, and extrapolation resolves it to 3 %")


@sub("C02", cases(("dmp",)), RULE, quick=800, shards=8)
def position(c):
    return solves(c)


@sub("C02", cases(("cart",)), RULE, quick=320, shards=8)
def pose(c):
    return solves(c)


@sub("C02", cases(("dual",)), RULE, quick=240, shards=8)
def dual_pose(c):
    return solves(c)


class Constant:
    """Coupling that does not depend on the state."""

    def __init__(self, cd, cdd):
        self.values = cd, cdd

    def coupling(self, y, yd=None):
        return self.values[0].copy(), self.values[1].copy()


STEPS = {"rk4": dmp_step_rk4, "rk4-cython": fast.dmp_step_rk4,
         "euler": dmp_step_euler, "euler-cython": fast.dmp_step}
QUATERNION_STEPS = {"python": dmp_step_quaternion_python,
                    "cython": fast.dmp_step_quaternion}


@sub("C02", st.tuples(cases(("cart",)), vec(12, -3, 3, 2),
                      st.integers(1, 5)).map(
    lambda a: dict(a[0], constant=a[1], steps=a[2])),
    "the coupling changes the motion", quick=600, shards=4)
def constant_coupling(c):
    """Precomputed values are the same as a term that returns them."""
    v = np.array(c["constant"]).reshape(4, 3)

    def run(key):
        kw = {}
        for name, f, i in (
                ("step_function", STEPS[c["step"]], 0),
                ("quaternion_step_function", QUATERNION_STEPS[c["qstep"]],
                 2)):
            def step(*args, f=f, i=i, **kwargs):
                kwargs.pop("coupling_term", None)
                if key == "coupling_term":
                    kwargs[key] = Constant(v[i], v[i + 1])
                elif key:
                    kwargs[key] = (v[i].copy(), v[i + 1].copy())
                return f(*args, **kwargs)
            kw[name] = step
        o = build(c["p"])
        y, yd = start_state(c["p"])
        r = []
        for _ in range(c["steps"]):
            y, yd = o.step(y, yd, **kw)
            r.append(np.hstack((y, yd)))
        return np.array(r)

    term, values = run("coupling_term"), run("coupling_term_precomputed")
    close(values, term, "motion with precomputed coupling", 1e-9)
    return ([c["step"], c["qstep"]]
            if np.abs(term - run(None)).max() > 1e-6 else False)
