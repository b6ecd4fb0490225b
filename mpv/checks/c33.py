"""C33 Velocity and acceleration of coupling terms act on every primitive."""
import numpy as np
from hypothesis import strategies as st

import movement_primitives.dmp_fast as fast
from movement_primitives.dmp._cartesian_dmp import dmp_step_quaternion_python
from movement_primitives.dmp._dmp import dmp_step_euler, dmp_step_rk4
from movement_primitives.dmp._dual_cartesian_dmp import (
    dmp_step_dual_cartesian_python)

from ..core import sub
from ..gen import QUATS, build, pos_dims, prim, start_state, vec, \
    vel_dims
from ..util import check, close, qexp, qmul

KINDS = ("dmp", "dmp", "cart", "dual", "fv", "sf", "sd", "sdo")
STEPS = {"dmp": ["rk4", "euler", "rk4-cython", "euler-cython"],
         "cart": ["rk4", "euler", "rk4-cython", "euler-cython"],
         "dual": ["python", "cython"]}


class Constant:
    """Always the same values, records the states it is asked for."""

    def __init__(self, cd, cdd):
        self.cd, self.cdd, self.states = cd, cdd, []

    def coupling(self, y, yd=None):
        self.states.append((np.array(y), np.array(yd)))
        return self.cd.copy(), self.cdd.copy()


@st.composite
def cases(draw):
    p = draw(prim(kinds=KINDS, same_int=draw(st.sampled_from([0, 3]))))
    m = 3 if p["kind"] == "cart" else vel_dims(p)
    c = dict(p=p, cd=draw(vec(m, -2, 2, 2)), cdd=draw(vec(m, -50, 50, 1)),
             before=draw(st.integers(0, 3)))
    if p["kind"] in STEPS:
        c["step"] = draw(st.sampled_from(STEPS[p["kind"]]))
    if p["kind"] == "cart":
        c["qstep"] = draw(st.sampled_from(["python", "cython"]))
    if draw(st.integers(0, 3)) == 0:
        c["cdd"] = [0.0] * m
    return c


FUNCTIONS = {
    "cart": {"rk4": dmp_step_rk4, "rk4-cython": fast.dmp_step_rk4,
             "euler": dmp_step_euler, "euler-cython": fast.dmp_step},
    "dual": {"python": dmp_step_dual_cartesian_python,
             "cython": fast.dmp_step_dual_cartesian}}
QUATERNION_FUNCTIONS = {"python": dmp_step_quaternion_python,
                        "cython": fast.dmp_step_quaternion}


def options(c, names=False):
    """Arguments of step (functions) or open_loop (their names)."""
    kw = {}
    if "step" in c:
        kw["step_function"] = c["step"] if names else FUNCTIONS.get(
            c["p"]["kind"], {}).get(c["step"], c["step"])
    if "qstep" in c:
        kw["quaternion_step_function"] = c["qstep"] if names else \
            QUATERNION_FUNCTIONS[c["qstep"]]
    return kw


def one_step(c, term):
    """Step with coupling after some steps without coupling."""
    p = c["p"]
    o = build(p)
    y, yd = start_state(p)
    for _ in range(c["before"]):
        y, yd = o.step(y, yd, **options(c))
    state = y.copy(), yd.copy()
    y, yd = o.step(y, yd, coupling_term=term, **options(c))
    return state, y, yd


@sub("C33", cases(), "coupling is not zero", quick=2400, shards=8)
def impulse(c):
    """Change of the next velocity and position by a constant coupling."""
    p = c["p"]
    kind, dt = p["kind"], p["dt"]
    n, m = pos_dims(p), vel_dims(p)
    cd, cdd = np.array(c["cd"]), np.array(c["cdd"])
    scale = {"sf": 0.5 * p["tau"], "sd": 1.0, "sdo": 1.0}.get(kind, p["tau"])
    state, y0, v0 = one_step(c, None)
    rk4 = c.get("step", "").startswith("rk4")
    if rk4:
        # accelerations act within the step and are damped
        cdd = 0.0 * cdd
    term = Constant(cd, cdd)
    _, y, v = one_step(c, term)
    change = cd / scale + dt * cdd / scale ** 2
    if kind == "cart":
        change = np.hstack((change, change))
    tol = 1e-9 * (1 + np.abs(v).max())
    close(v - v0, change, "change of velocity", tol, 1.0)
    # semi-implicit integration: new positions from new velocities
    moved = dt * change
    if rk4:
        moved[:3 if kind == "cart" else m] = 0.0
    pos = [i for i in range(n) if not any(q <= i < q + 4
                                          for q in QUATS.get(kind, ()))]
    where = {"cart": [0, 1, 2], "dual": [0, 1, 2, 6, 7, 8], "sdo": []}.get(
        kind, list(range(m)))
    close((y - y0)[pos], moved[where], "change of position",
          1e-9 * (1 + np.abs(y).max()), 1.0)
    for q, k in {"cart": [(3, 3)], "sdo": [(0, 0)],
                 "dual": [(3, 3), (10, 9)]}.get(kind, []):
        before = state[0][q:q + 4]
        expected = qmul(qexp(dt * v[k:k + 3]), before)
        close(y[q:q + 4] * np.sign(expected.dot(y[q:q + 4])), expected,
              "orientation is changed by the new velocity", 1e-6, 1.0)
    # the coupling term has been asked for the state before the step
    yc, vc = term.states[0]
    if kind != "cart":
        close(yc, state[0], "position given to the coupling term", 1e-9)
        close(vc, state[1], "velocity given to the coupling term", 1e-9)
    else:
        sizes = {len(s[0]) for s in term.states}
        check(sizes == {3, 4}, "sizes of states %s", sizes)
    return [kind, c.get("step", "")] if np.any(cd) or np.any(cdd) else False


@sub("C33", cases(), "executed with at least one step of coupling",
     quick=800, shards=4)
def superposition(c):
    """Coupling of zero is no coupling, also in open loop execution."""
    p = c["p"]
    zero = Constant(np.zeros(len(c["cd"])), np.zeros(len(c["cd"])))
    kw = options(c, names=True)
    run_t = 6 * p["dt"]
    T, Y = build(p).open_loop(run_t=run_t, **kw)
    T2, Y2 = build(p).open_loop(run_t=run_t, coupling_term=zero, **kw)
    close(T2, T, "times", 1e-12)
    close(Y2, Y, "zero coupling", 1e-9)
    # open loop calls the coupling term like steps do
    _, Y = build(p).open_loop(run_t=run_t, coupling_term=Constant(
        0.05 * np.array(c["cd"]), np.array(c["cdd"])), **kw)
    o = build(p)
    y, yd = start_state(p)
    term = Constant(0.05 * np.array(c["cd"]), np.array(c["cdd"]))
    for i in range(1, 6):
        y, yd = o.step(y, yd, coupling_term=term, **options(c))
        a = y.copy()
        for q in QUATS.get(p["kind"], ()):
            a[q:q + 4] *= np.sign(a[q:q + 4].dot(Y[i, q:q + 4]))
        close(a, Y[i], "open loop with coupling", 1e-6)
    return [p["kind"], c.get("step", "")]
