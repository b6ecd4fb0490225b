"""C05 Changing the duration re-times the motion without reshaping it."""
import numpy as np
from hypothesis import strategies as st

from ..core import Skip, sub
from ..gen import (as_state, build, config, construct, dec, demo, demo_arrays,
                   prim, set_parameters, start_state, vel_dims)
from ..util import ambiguous, close, close_poses

FACTORS = st.one_of(dec(0.1, 10, 2), st.sampled_from([0.01, 100.0, 0.5, 2.0]))


def scaled(p, f):
    """Same primitive in another time unit."""
    q = dict(p, tau=p["tau"] * f, dt=p["dt"] * f, int_dt=p["int_dt"] * f)
    for name, power in (("start_yd", 1), ("goal_yd", 1),
                        ("start_ydd", 2), ("goal_ydd", 2)):
        if name in p:
            q[name] = [v / f ** power for v in p[name]]
    return q


KINDS = ("dmp", "cart", "dual", "sf", "fv")


@sub("C05", st.fixed_dictionaries(dict(
    p=prim(kinds=KINDS), f=FACTORS, n=st.integers(1, 80),
    step=st.sampled_from(["rk4", "euler", "rk4-cython", "euler-cython"]))),
    "the trajectory moves", quick=1600, shards=8)
def time_unit(c):
    p, f = c["p"], c["f"]
    kw = {}
    if p["kind"] in ("dmp", "cart"):
        kw["step_function"] = c["step"]
    q = scaled(p, f)
    T, Y = build(p).open_loop(run_t=(c["n"] - 0.5) * p["dt"], **kw)
    Ts, Ys = build(q).open_loop(run_t=(c["n"] - 0.5) * q["dt"], **kw)
    if ambiguous(Y, as_state(p["kind"], p["goal"]), p["kind"]):
        raise Skip("180 degrees")
    close(Ts / f, T, "times", 1e-9)
    close_poses(Ys, Y, p["kind"], "states with scaled duration",
                1e-6 if p["kind"] in ("cart", "dual") else 1e-8)
    return [p["kind"]] if np.ptp(Y, axis=0).max() > 1e-9 else False


@st.composite
def changes(draw):
    p = draw(prim(kinds=("dmp", "cart", "dual", "fv"), p_gain=True))
    return dict(p=p, taus=draw(st.lists(dec(0.2, 5, 2), min_size=1,
                                        max_size=3)),
                when=draw(st.sampled_from(["new", "configured", "executed",
                                           "stepped"])),
                steps=draw(st.integers(1, 30)))


@sub("C05", changes(), "the final duration differs from the first one",
     quick=1200, shards=8)
def setter(c):
    """Setting the duration equals constructing with this duration."""
    p = c["p"]
    kind = p["kind"]
    o = construct(p)
    set_parameters(o, p)
    if c["when"] != "new":
        o.configure(**config(p))
    if c["when"] == "executed":
        o.open_loop()
    if c["when"] == "stepped":
        y, yd = start_state(p)
        for _ in range(3):
            y, yd = o.step(y, yd)
    for tau in c["taus"]:
        o.execution_time_ = tau
        close(o.execution_time_, tau, "execution time")
    close(o.get_weights(), np.array(p["w"], float), "weights", 1e-12)
    o.dt_ = p["dt"]
    if c["when"] == "stepped":
        o.reset()
    o.configure(**config(p))
    tau = c["taus"][-1]
    q = dict(p, tau=tau)
    expected = build(q)
    run_t = (c["steps"] - 0.5) * p["dt"]
    T, Y = o.open_loop(run_t=run_t)
    Te, Ye = expected.open_loop(run_t=run_t)
    if not np.all(np.isfinite(Ye)) or np.max(np.abs(Ye)) > 1e4:
        raise Skip("step too large")
    close(T, Te, "times", 1e-12)
    close_poses(Y, Ye, kind, "open loop with new duration", 1e-9)
    y, yd = start_state(p)
    ye, yde = start_state(p)
    for i in range(min(8, c["steps"])):
        y, yd = o.step(y, yd)
        ye, yde = expected.step(ye, yde)
        close_poses(y, ye, kind, "step with new duration", 1e-9)
        close(yd, yde, "velocity with new duration", 1e-8)
    return [kind, c["when"]] if tau != p["tau"] else False


@st.composite
def demos(draw):
    kind = draw(st.sampled_from(["dmp", "cart", "dual", "fv"]))
    n = draw(st.integers(1, 3)) if kind in ("dmp", "fv") else None
    d = draw(demo(kind, n, steps=(20, 80)))
    c = dict(d=d, tau=draw(dec(0.2, 8, 2)),
             t0=draw(st.sampled_from([0.0, 0.3, -2.5, 17.3, 100.0, 1000.0])),
             nw=draw(st.integers(2, 10)),
             smooth=draw(st.booleans()),
             afv=draw(st.booleans()),
             reg=draw(st.sampled_from([0.0, 1e-8, 1e-3, 1.0])),
             exact=draw(st.booleans()),
             warp=draw(st.sampled_from([0.0, 0.0, 0.3])))
    return c


@sub("C05", demos(), "time origin or duration differ and the demonstration "
     "moves", quick=1200, shards=8)
def demonstration(c):
    """Demonstrations with another time origin and duration."""
    d = c["d"]
    kind, m = d["kind"], vel_dims(d)
    T, Y = demo_arrays(d)
    s = (T - T[0]) / d["tau"]
    s = s + c["warp"] * s * (1 - s) * 0.5  # also not equidistant
    results = []
    for t0, tau in ((d["t0"], d["tau"]), (c["t0"], c["tau"])):
        p = dict(kind=kind, n=d["n"], nw=c["nw"], dt=tau / 40,
                 int_dt=tau / 40,
                 # the duration of the primitive need not be the one of the
                 # demonstration
                 tau=tau if c["exact"] else d["tau"])
        if kind != "fv":
            p["smooth"] = c["smooth"]
        o = construct(p)
        kw = {} if kind == "fv" else dict(allow_final_velocity=c["afv"])
        o.imitate(t0 + tau * s, Y, regularization_coefficient=c["reg"], **kw)
        results.append(np.array(o.get_weights()))
    scale = np.max(np.abs(results[0]))
    # rounding of time stamps is amplified by twofold differentiation
    tol = 1e-7 + 1e-13 * c["t0"] / c["tau"] * len(T) ** 2
    if c["reg"] == 0.0:
        tol *= 100
    close(results[1], results[0], "weights", min(tol, 1e-3),
          scale=max(1e-3, scale) * m)
    return [kind, "origin/%g" % c["t0"]] if (
        np.ptp(Y, axis=0).max() > 1e-6
        and (d["t0"], d["tau"]) != (c["t0"], c["tau"])) else False
