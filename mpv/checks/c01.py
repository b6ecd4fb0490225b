"""C01 Compiled and pure-Python implementations give the same motion."""
import functools
import math

import numpy as np
from hypothesis import strategies as st

import movement_primitives.dmp_fast as fast
from movement_primitives.dmp import (
    obstacle_avoidance_acceleration_2d, phase)
from movement_primitives.dmp._cartesian_dmp import dmp_step_quaternion_python
from movement_primitives.dmp._dmp import dmp_step_euler, dmp_step_rk4
from movement_primitives.dmp._dual_cartesian_dmp import (
    dmp_step_dual_cartesian_python)

from .. import coupling
from ..core import Skip, sub
from ..gen import (QUATS, build, dec, pos_dims, prim, raw_quat, quat,
                   start_state, vec, vel_dims)
from ..util import (check, close, close_poses, qexp, qlog, qmul, rotmat, scale_of)


@st.composite
def execution(draw):
    kind = draw(st.sampled_from(["dmp", "dmp", "cart", "dual", "dual"]))
    p = draw(prim(kinds=(kind,), dims=(1, 2, 2, 3, 3, 4, 6), p_gain=True, max_steps=40))
    c = dict(p=p, method=draw(st.sampled_from(["rk4", "euler"])),
             coupling=draw(coupling.for_kind(kind, pos_dims(p)))
             if kind != "cart" else None,
             fast_obstacle=draw(st.booleans()))
    if (c["coupling"] or {}).get("type") == "counting":
        # the number of evaluations per step is only documented for Euler
        c["method"] = "euler"
    return c


def perturbed(p, eps):
    """Same primitive, start shifted slightly."""
    y = [v + eps * (1 + i % 3) for i, v in enumerate(p["start"])]
    return dict(p, start=y)


def well_conditioned(run, results):
    """Skip cases in which rounding errors are amplified.

    Among them are orientations that are 180 degrees apart: both directions
    are a shortest rotation.
    """
    for eps in (1e-9, -1e-9):
        for a, b in zip(run(eps), results):
            if a.shape != b.shape or not (
                    np.max(np.abs(a - b)) <= 3e-7 * scale_of(b)):
                raise Skip("ill-conditioned")


def run_open_loop(p, c, compiled, run_t):
    o = build(p)
    term = coupling.make(c["coupling"], compiled and c["fast_obstacle"])
    if p["kind"] == "dual":
        kw = dict(step_function="cython" if compiled else "python")
    else:
        kw = dict(step_function=c["method"] + ("-cython" if compiled else ""))
    if p["kind"] == "cart":
        kw["quaternion_step_function"] = "cython" if compiled else "python"
    return o.open_loop(run_t=run_t, coupling_term=term, **kw)


def tolerance(p):
    # rotation angles are computed with acos: accurate to about 1e-8
    return 1e-6 if p["kind"] in QUATS else 1e-9


@sub("C01", st.tuples(execution(), dec(0.2, 1.3, 2)).map(
        lambda a: dict(a[0], run=a[1])),
     "the trajectory moves and does not amplify a start perturbation of 1e-9 "
     "above 3e-7", quick=2400, shards=8)
def open_loop(c):
    p = c["p"]
    run_t = c["run"] * p["tau"]
    T, Y = run_open_loop(p, c, False, run_t)
    if not np.all(np.isfinite(Y)) or np.max(np.abs(Y)) > 1e6:
        raise Skip("diverging")
    if c["coupling"] is not None or p["kind"] in QUATS:
        well_conditioned(lambda eps: run_open_loop(
            perturbed(p, eps), c, False, run_t)[1:], [Y])
    Tc, Yc = run_open_loop(p, c, True, run_t)
    close(Tc, T, "times of compiled execution", 1e-12)
    close_poses(Yc, Y, p["kind"], "compiled trajectory", tolerance(p))
    tags = [p["kind"] + "/" + c["method"],
            "coupling/" + (c["coupling"] or {"type": "none"})["type"]]
    return tags if np.ptp(Y, axis=0).max() > 1e-9 else False


@sub("C01", st.tuples(execution(), st.integers(0, 2), st.integers(3, 8)
                      ).flatmap(lambda a: st.tuples(
                          st.just(a), st.lists(vec(14, -1, 1, 2), min_size=a[2],
                                               max_size=a[2]),
                          st.none() | vec(12, -1, 1, 2))).map(
         lambda a: dict(a[0][0], noise=[0.0, 0.05, 0.5][a[0][1]],
                        push=a[1], constant=a[2])),
     "at least three steps with states that deviate from the executed ones "
     "(unless the noise is zero)", quick=2400, shards=8)
def stepwise(c):
    """Steps with imperfect tracking: the measured state is perturbed."""
    p = c["p"]
    kind = p["kind"]
    n, m = pos_dims(p), vel_dims(p)

    def run(compiled, q=p):
        o = build(q)
        term = coupling.make(c["coupling"], compiled and c["fast_obstacle"])
        if kind == "dmp":
            kw = dict(step_function=c["method"]
                      + ("-cython" if compiled else ""))
        elif kind == "cart":
            kw = dict(
                step_function={
                    ("rk4", True): fast.dmp_step_rk4,
                    ("rk4", False): dmp_step_rk4,
                    ("euler", True): fast.dmp_step,
                    ("euler", False): dmp_step_euler}[c["method"], compiled],
                quaternion_step_function=fast.dmp_step_quaternion
                if compiled else dmp_step_quaternion_python)
            if c["constant"] is not None:
                # additional velocity and acceleration known in advance
                v = np.array(c["constant"]).reshape(4, 3)
                for key, pre in (("step_function", (v[0], v[1])),
                                 ("quaternion_step_function", (v[2], v[3]))):
                    kw[key] = functools.partial(
                        kw[key], coupling_term_precomputed=pre)
        else:
            kw = dict(step_function=fast.dmp_step_dual_cartesian
                      if compiled else dmp_step_dual_cartesian_python)
        y, yd = start_state(q)
        Y, V = [], []
        for push in c["push"]:
            # orientations are pushed by a rotation, which does not depend on
            # the sign of the quaternion
            push = c["noise"] * np.array(push[:n])
            measured = y + push
            for i in QUATS.get(kind, ()):
                measured[i:i + 4] = qmul(qexp(push[i:i + 3]), y[i:i + 4])
            y, yd = o.step(measured, yd, coupling_term=term, **kw)
            Y.append(y)
            V.append(yd)
        return np.array(Y), np.array(V)

    Y, V = run(False)
    if not np.all(np.isfinite(Y)) or np.max(np.abs(Y)) > 1e6:
        raise Skip("diverging")
    if c["coupling"] is not None or kind in QUATS:
        well_conditioned(
            lambda eps: run(False, perturbed(p, eps)), [Y, V])
    Yc, Vc = run(True)
    close_poses(Yc, Y, kind, "position of compiled step", tolerance(p))
    close(Vc, V, "velocity of compiled step", 10 * tolerance(p))
    return [kind + "/" + c["method"], "noise/%g" % c["noise"],
            "p_gain" if p.get("p_gain") else "no p_gain",
            "coupling/" + (c["coupling"] or {"type": "none"})["type"]]


@sub("C01", st.fixed_dictionaries(dict(
    start=dec(-5, 5), duration=dec(0.01, 10, 2), alpha=dec(0.1, 20, 2),
    t=st.lists(dec(-2, 30, 3), min_size=1, max_size=4))),
    "every case: phase at up to four times as scalars and as array",
    quick=1000, shards=2)
def phase_variable(c):
    args = (c["alpha"], c["start"] + c["duration"], c["start"])
    exponents = [-args[0] * (t - args[2]) / c["duration"] for t in c["t"]]
    if max(map(abs, exponents)) > 600:
        raise Skip("overflow")
    expected = [math.exp(e) for e in exponents]
    for name, f in (("compiled", fast.phase), ("Python", phase)):
        for t, e in zip(c["t"], expected):
            close(f(t, *args), e, name + " phase", 1e-9, scale=abs(e))
        for e, a in zip(expected, f(np.array(c["t"]), *args)):
            close(a, e, name + " phase of array", 1e-9, scale=abs(e))


@sub("C01", st.fixed_dictionaries(dict(
    y=vec(2, -3, 3), yd=vec(2, -3, 3), o=vec(2, -3, 3),
    gamma=dec(0, 2000, 0), beta=dec(0.1, 10, 1),
    scale=st.sampled_from([1.0, 1e-3, 1e3]))),
    "velocity and obstacle direction are not parallel",
    quick=1500, shards=2)
def obstacle_avoidance(c):
    s = c["scale"]
    y, yd, o = (s * np.array(c[k]) for k in ("y", "yd", "o"))
    cross = (o - y)[0] * yd[1] - (o - y)[1] * yd[0]
    a = obstacle_avoidance_acceleration_2d(y, yd, o, c["gamma"], c["beta"])
    b = fast.obstacle_avoidance_acceleration_2d(
        y, yd, o, c["gamma"], c["beta"])
    if abs(cross) <= 1e-9 * np.linalg.norm(o - y) * np.linalg.norm(yd):
        # side not determined: only magnitude is comparable
        close(np.linalg.norm(b), np.linalg.norm(a), "magnitude", 1e-4,
              scale=max(1.0, c["gamma"] * np.linalg.norm(yd)))
        return False
    close(b, a, "compiled obstacle avoidance", 1e-7,
          scale=max(1.0, c["gamma"] * np.linalg.norm(yd)))


@sub("C01", st.fixed_dictionaries(dict(
    a=raw_quat(), b=raw_quat(), v=vec(3, -7, 7),
    vs=st.sampled_from([1.0, 1e-3, 1e-6]))),
    "every case: quaternion product, logarithm, rotation matrix",
    quick=1500, shards=2)
def rotation_helpers(c):
    a, b = quat(c["a"]), quat(c["b"])
    close(fast.concatenate_quaternions(a, b), qmul(a, b),
          "compiled quaternion product", 1e-12)
    r = fast.compact_axis_angle_from_quaternion(a)
    e = qlog(a)
    if np.linalg.norm(e) > np.pi - 1e-5:  # both directions are right
        check(min(np.linalg.norm(r - e), np.linalg.norm(r + e)) < 1e-6,
              "compiled axis-angle of rotation by 180 degrees")
    else:
        close(r, e, "compiled axis-angle", 1e-6)
    v = c["vs"] * np.array(c["v"])
    angle = np.linalg.norm(v)
    q = np.hstack((np.cos(angle / 2),
                   np.sin(angle / 2) * v / angle if angle else v))
    close(fast.matrix_from_compact_axis_angle(v), rotmat(q),
          "compiled rotation matrix", 1e-12)
