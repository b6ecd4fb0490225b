"""C07 Stepwise execution equals open-loop execution."""
import numpy as np
from hypothesis import strategies as st

import movement_primitives.dmp_fast as fast
from movement_primitives.dmp._cartesian_dmp import dmp_step_quaternion_python
from movement_primitives.dmp._dmp import dmp_step_euler, dmp_step_rk4
from movement_primitives.dmp._dual_cartesian_dmp import (
    dmp_step_dual_cartesian_python)

from .. import coupling
from ..core import Skip, sub
from ..gen import (QUATS, STEPPABLE, as_state, build, config, construct, dec,
                   pos_dims, prim, set_parameters, start_state, vel_dims)
from ..util import ambiguous, check, close, close_poses

CART_STEPS = {"rk4": dmp_step_rk4, "euler": dmp_step_euler,
              "rk4-cython": fast.dmp_step_rk4, "euler-cython": fast.dmp_step}


@st.composite
def cases(draw, couplings=True):
    p = draw(prim(kinds=STEPPABLE, dims=(1, 2, 2, 3, 3, 6), p_gain=True))
    kind = p["kind"]
    c = dict(p=p, n=draw(st.integers(1, 60)), variant=None, coupling=None)
    if kind in ("dmp", "cart"):
        c["variant"] = draw(st.sampled_from([None] + sorted(CART_STEPS)))
    if kind in ("cart", "dual"):
        c["impl"] = draw(st.sampled_from(["python", "cython"]))
    if couplings and draw(st.booleans()):
        c["coupling"] = draw(
            coupling.linear({"cart": 3, "dual": 12, "sdo": 3}.get(
                kind, pos_dims(p)))
            if kind in ("cart", "sdo")
            else coupling.for_kind(kind, pos_dims(p)))
        if c["coupling"] is not None:
            # Velocity couplings act once per internal step. Their number
            # depends on rounding unless there is only one.
            p["int_dt"] = 1.7 * p["dt"]
    return c


def keywords(c):
    """Keyword arguments that select a step function for both modes."""
    kind = c["p"]["kind"]
    step, loop = {}, {}
    if kind == "dmp" and c["variant"]:
        step["step_function"] = loop["step_function"] = c["variant"]
    if kind == "cart" and c["variant"]:
        loop["step_function"] = c["variant"]
        step["step_function"] = CART_STEPS[c["variant"]]
        loop["quaternion_step_function"] = c["impl"]
        step["quaternion_step_function"] = (
            dmp_step_quaternion_python if c["impl"] == "python"
            else fast.dmp_step_quaternion)
    if kind == "dual":
        loop["step_function"] = c["impl"]
        step["step_function"] = (
            dmp_step_dual_cartesian_python if c["impl"] == "python"
            else fast.dmp_step_dual_cartesian)
    return step, loop


@sub("C07", cases(), "at least two samples that differ", quick=2400, shards=8)
def same_samples(c):
    p = c["p"]
    kind = p["kind"]
    step, loop = keywords(c)
    T, Y = build(p).open_loop(
        run_t=(c["n"] - 0.5) * p["dt"],
        coupling_term=coupling.make(c["coupling"]), **loop)
    if not np.all(np.isfinite(Y)) or np.max(np.abs(Y)) > 1e5:
        raise Skip("diverging")
    if ambiguous(Y, as_state(kind, p["goal"]), kind, 1e-4):
        raise Skip("180 degrees")
    close(T, p["dt"] * np.arange(c["n"] + 1), "time axis", 1e-9)
    o = build(p)
    term = coupling.make(c["coupling"])
    y, yd = start_state(p)
    S = [y]
    for _ in range(c["n"]):
        y, yd = o.step(y, yd, coupling_term=term, **step)
        S.append(y)
    tol = 1e-5 if kind in QUATS else 1e-8
    if c["coupling"] is not None:
        tol *= 100  # couplings may amplify rounding errors
    close_poses(np.array(S), Y, kind, "stepwise execution", tol)
    return [kind, "p_gain" if p.get("p_gain") else "no p_gain",
            "coupling/" + (c["coupling"] or {"type": "none"})["type"]
            ] if np.ptp(Y, axis=0).max() > 1e-9 else False


@sub("C07", cases(couplings=False), "several steps at once, at least two "
     "calls", quick=800, shards=4)
def several_steps(c):
    p = c["p"]
    kind = p["kind"]
    o, single = build(p), build(p)
    y, yd = start_state(p)
    ys, yds = start_state(p)
    done, k = 0, 1
    while done < c["n"]:
        y, yd = o.n_steps_open_loop(y, yd, k)
        for _ in range(k):
            ys, yds = single.step(ys, yds)
        close_poses(y, ys, kind, "position after %d steps" % (done + k), 1e-9)
        close(yd, yds, "velocity", 1e-8)
        done += k
        k = k % 5 + 1
    return [kind] if done > 1 else False


@sub("C07", st.fixed_dictionaries(dict(
    p=prim(kinds=STEPPABLE, dims=(1,)), run=st.one_of(
        dec(0.0, 3, 2), st.integers(0, 80).map(lambda i: ["steps", i]),
        st.none()), step=st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.03]))),
    "run time is longer than one step", quick=1600, shards=4)
def time_axis(c):
    """Starts at zero, equidistant, covers the run time."""
    p = c["p"]
    p["dt"], p["int_dt"] = c["step"], c["step"]
    p["w"] = [0.0] * len(p.get("w", []))
    kw = {}
    if c["run"] is None:
        run_t = 1.0 if p["kind"] in ("sd", "sdo") else p["tau"]
    else:
        run_t = c["run"] if not isinstance(c["run"], list) else round(
            c["run"][1] * c["step"], 6)
        kw["run_t"] = run_t
    o = construct(p)
    set_parameters(o, p)
    o.configure(**config(p))
    T, Y = o.open_loop(**kw)
    dt = c["step"]
    check(len(T) == len(Y), "%d times for %d states", len(T), len(Y))
    check(T[0] == 0.0, "first time is %g", T[0])
    close(np.diff(T), np.full(len(T) - 1, dt), "time steps", 1e-9)
    check(T[-1] >= run_t - 1e-9, "last time %g before run time %g", T[-1],
          run_t)
    check(T[-1] <= run_t + dt * (1 + 1e-9), "last time %g, run time %g",
          T[-1], run_t)
    close_poses(Y[0], as_state(p["kind"], p["start"]), p["kind"],
                "first sample", 1e-12)
    return [p["kind"]] if run_t > dt else False
