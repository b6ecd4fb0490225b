"""Strategies for JSON-able cases and constructors for the objects they name.

Numbers are drawn from decimal grids: they shrink well, have short
representations, and most of them are not exactly representable, which
exposes rounding problems of time axes.
"""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.dmp import (
    DMP, CartesianDMP, DMPWithFinalVelocity, DualCartesianDMP,
    StateFollowingDMP)
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory
from movement_primitives.spring_damper import (
    SpringDamper, SpringDamperOrientation)

POS_DIMS = {"cart": 7, "dual": 14, "sdo": 4}
VEL_DIMS = {"cart": 6, "dual": 12, "sdo": 3}
QUATS = {"cart": [3], "dual": [3, 10], "sdo": [0]}
WEIGHTED = ("dmp", "cart", "dual", "fv")
STEPPABLE = ("dmp", "cart", "dual", "fv", "sf", "sd", "sdo")


def dec(lo, hi, digits=3):
    f = 10 ** digits
    a, b = int(round(lo * f)), int(round(hi * f))
    return st.integers(a, b).map(lambda i: i / f)


def vec(n, lo=-2.0, hi=2.0, digits=3):
    return st.lists(dec(lo, hi, digits), min_size=n, max_size=n)


def mat(n, m, lo=-2.0, hi=2.0, digits=3):
    return st.lists(vec(m, lo, hi, digits), min_size=n, max_size=n)


@st.composite
def scaled_vec(draw, n, scales=(0.0, 1.0, 20.0, 200.0), digits=2):
    scale = draw(st.sampled_from(scales))
    if scale == 0.0:
        return [0.0] * n
    return [float(round(scale * v, 6)) for v in draw(vec(n, -1, 1, digits))]


@st.composite
def raw_quat(draw):
    """Quaternion as short integer vector, not normalized."""
    special = draw(st.integers(0, 9))
    if special == 0:
        return [1, 0, 0, 0]
    if special == 1:
        return draw(st.permutations([0, 0, 0, 1]))
    q = draw(st.lists(st.integers(-20, 20), min_size=4, max_size=4))
    return q if any(q) else [1, 0, 0, 0]


def quat(raw):
    q = np.asarray(raw, dtype=float)
    return q / np.linalg.norm(q)


@st.composite
def times(draw, lo=0.2, hi=4.0, min_steps=25, max_steps=60):
    """Duration and step size; the step may or may not divide the duration."""
    mode = draw(st.integers(0, 3))
    if mode == 0:  # step is a short decimal, duration a multiple
        n = draw(st.integers(min_steps, max_steps))
        dt = draw(st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.03, 0.07]))
        return round(n * dt, 6), dt
    tau = draw(dec(lo, hi, 2))
    if mode == 1:
        return tau, tau / draw(st.integers(min_steps, max_steps))
    if mode == 2:  # does not divide the duration
        n = draw(st.integers(min_steps, max_steps))
        return tau, tau / (n + draw(dec(0.05, 0.95, 2)))
    n = draw(st.integers(min_steps, max_steps))
    return tau, round(tau / n, 4)


@st.composite
def gains(draw, n, varied=True):
    """Per-dimension alpha and beta or None (default)."""
    mode = draw(st.integers(0, 3 if varied else 1))
    if mode == 0:
        return None, None
    if mode == 1:
        a = draw(dec(10, 40, 1))
        return [a] * n, [a / 4] * n
    a = draw(vec(n, 10, 40, 1))
    if mode == 2:
        return a, [v / 4 for v in a]
    return a, draw(vec(n, 2, 12, 1))


@st.composite
def state(draw, kind, n, lo=-2.0, hi=2.0):
    """Position part of a state, quaternions as raw integer vectors."""
    y = draw(vec(n, lo, hi))
    for i in QUATS.get(kind, ()):
        y[i:i + 4] = draw(raw_quat())
    return y


def as_state(kind, raw):
    y = np.array(raw, dtype=float)
    for i in QUATS.get(kind, ()):
        y[i:i + 4] = quat(raw[i:i + 4])
    return y


def pos_dims(p):
    return POS_DIMS.get(p["kind"], p.get("n"))


def vel_dims(p):
    return VEL_DIMS.get(p["kind"], p.get("n"))


@st.composite
def prim(draw, kinds=STEPPABLE, max_dims=4, max_weights=8, start_vel=True,
         min_steps=25, max_steps=60, p_gain=False, same_int=None,
         weight_scales=(0.0, 1.0, 20.0, 200.0), dims=None):
    """Complete description of a configured movement primitive."""
    kind = draw(st.sampled_from(kinds))
    p = dict(kind=kind)
    if kind not in POS_DIMS:
        p["n"] = draw(st.integers(1, max_dims) if dims is None
                      else st.sampled_from(dims))
    n, m = pos_dims(p), vel_dims(p)
    p["tau"], p["dt"] = draw(times(min_steps=min_steps, max_steps=max_steps))
    # internal step: finer than, equal to, or larger than the step
    mode = draw(st.integers(0, 3)) if same_int is None else same_int
    p["int_dt"] = [p["dt"], p["dt"] / 3, p["dt"] / 2.5, p["dt"] * 1.7][mode]
    if kind in ("sd", "sdo"):
        # limited so that the integration with this step size is stable
        p["k"] = min(draw(dec(0.5, 60, 1)), round((0.55 / p["dt"]) ** 2, 1))
        p["c"] = draw(st.one_of(st.none(), dec(0.5, 20, 1)))
        if p["c"] is not None:
            p["c"] = min(p["c"], round(1.2 / p["dt"], 1))
    else:
        p["alpha"], p["beta"] = draw(gains(m))
    if kind in ("dmp", "cart", "dual"):
        p["smooth"] = draw(st.booleans())
    if p_gain and kind in ("dmp", "dual", "fv"):
        p["p_gain"] = draw(st.sampled_from([0.0, 0.0, 1.0, 5.5, 40.0]))
    if kind in WEIGHTED:
        p["nw"] = draw(st.integers(2, max_weights))
        p["w"] = draw(scaled_vec(m * p["nw"], weight_scales))
    if kind == "sf":
        p["nv"] = draw(st.integers(2, max_weights))
        p["via"] = draw(mat(p["nv"], n))
    p["start"] = draw(state(kind, n))
    p["goal"] = draw(state(kind, n))
    if kind == "sf":
        p["goal"] = p["via"][-1]
    if start_vel and draw(st.booleans()):
        p["start_yd"] = draw(vec(m, -1, 1))
    if kind == "fv":
        p["goal_yd"] = draw(vec(m, -1, 1))
        p["start_ydd"] = draw(scaled_vec(m, (0.0, 1.0)))
        p["goal_ydd"] = draw(scaled_vec(m, (0.0, 1.0)))
    # what was done with the object before, see build()
    p["used"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3]))
    return p


def construct(p, **override):
    """Construct the primitive without configuring it."""
    p = dict(p, **override)
    kind = p["kind"]
    kw = dict(dt=p["dt"], int_dt=p["int_dt"])
    if kind == "sd":
        return SpringDamper(p["n"], k=p["k"], c=p["c"], **kw)
    if kind == "sdo":
        return SpringDamperOrientation(k=p["k"], c=p["c"], **kw)
    if p.get("alpha") is not None:
        kw.update(alpha_y=np.array(p["alpha"]), beta_y=np.array(p["beta"]))
    if kind == "sf":
        o = StateFollowingDMP(p["n"], p["tau"], n_viapoints=p["nv"], **kw)
        return o
    kw.update(execution_time=p["tau"], n_weights_per_dim=p["nw"])
    if "p_gain" in p:
        kw["p_gain"] = p["p_gain"]
    if kind == "fv":
        return DMPWithFinalVelocity(p["n"], **kw)
    kw["smooth_scaling"] = p["smooth"]
    if kind == "dmp":
        return DMP(p["n"], **kw)
    return {"cart": CartesianDMP, "dual": DualCartesianDMP}[kind](**kw)


def config(p):
    """Keyword arguments of configure()."""
    kw = dict(start_y=as_state(p["kind"], p["start"]),
              goal_y=as_state(p["kind"], p["goal"]))
    for name in ("start_yd", "start_ydd", "goal_yd", "goal_ydd"):
        if name in p:
            kw[name] = np.array(p[name], dtype=float)
    return kw


def set_parameters(o, p):
    if p["kind"] in WEIGHTED:
        o.set_weights(np.array(p["w"], dtype=float))
    elif p["kind"] == "sf":
        o.forcing_term.viapoints[:] = np.array(p["via"], dtype=float)


def build(p, **override):
    """Configured primitive, new or used before with other parameters.

    A primitive that is configured and reset must not be distinguishable from
    a new one, so that all properties hold for both."""
    p = dict(p, **override)
    used = p.get("used", 0)
    retime = used == 3 and p["kind"] in WEIGHTED
    o = construct(p, tau=1.5 * p["tau"]) if retime else construct(p)
    if used:
        before = dict(p, start=p["goal"], goal=p["start"],
                      start_yd=[0.25] * vel_dims(p))
        if p["kind"] in WEIGHTED:
            before["w"] = [1.0 - 0.5 * v for v in p["w"]]
        elif p["kind"] == "sf":
            before["via"] = (1.0 - 0.5 * np.array(p["via"])).tolist()
        if p["kind"] == "fv":
            before["goal_yd"] = [-0.5] * p["n"]
        set_parameters(o, before)
        o.configure(**config(before))
        if used == 2:
            y, yd = start_state(before)
            for _ in range(3):
                y, yd = o.step(y, yd)
        else:
            o.open_loop(run_t=(0.5 if used == 1 else 4.5) * p["dt"])
        if retime:
            o.execution_time_ = p["tau"]
    set_parameters(o, p)
    o.configure(**config(p))
    if used:
        o.configure(start_yd=start_state(p)[1])
        o.reset()
    return o


def start_state(p):
    y = as_state(p["kind"], p["start"])
    yd = np.array(p.get("start_yd", [0.0] * vel_dims(p)), dtype=float)
    return y, yd


def open_loop(o, p, run_t=None, **kw):
    """open_loop of any primitive, run_t defaults to its duration."""
    return o.open_loop(run_t=p["tau"] if run_t is None else run_t, **kw)


# --- demonstrations ---------------------------------------------------------

def min_jerk_profile(s):
    return s ** 3 * (10 + s * (-15 + 6 * s))


@st.composite
def demo(draw, kind, n=None, duration=None, origin=True, amplitude=1.0,
         max_k=2, steps=(80, 200), skew=False):
    """Smooth demonstration that starts and ends at rest."""
    d = dict(kind=kind, n=n)
    if skew:  # time between samples is not constant
        d["skew"] = draw(st.sampled_from([0.0, 0.3, -0.3, 0.5, -0.5]))
    m = vel_dims(d)
    d["tau"] = draw(dec(0.2, 5, 2)) if duration is None else duration
    d["t0"] = draw(st.sampled_from([0.0, 0.0, 0.7, -1.3, 12.5])
                   ) if origin else 0.0
    d["steps"] = draw(st.integers(*steps))
    d["start"] = draw(state(kind, pos_dims(d)))
    d["delta"] = [round(amplitude * v, 4) for v in draw(vec(m, -1, 1))]
    d["bumps"] = [[round(0.4 * amplitude * v, 4) for v in b] for b in draw(
        mat(draw(st.integers(0, max_k + 1)), m, -1, 1))]
    return d


def demo_curve(d, s):
    """Offset from the start in velocity coordinates at phase s in [0, 1]."""
    s = np.asarray(s, dtype=float)[:, np.newaxis]
    X = min_jerk_profile(s) * np.array(d["delta"])
    for k, b in enumerate(d["bumps"]):
        X = X + 64 * s ** 3 * (1 - s) ** 3 * np.cos(k * np.pi * s) * np.array(b)
    return X


def demo_arrays(d, steps=None, uniform=False):
    from .util import qexp, qmul
    steps = d["steps"] if steps is None else steps
    s = np.linspace(0, 1, steps + 1)
    if not uniform:
        s = s + d.get("skew", 0.0) * np.sin(2 * np.pi * s) / (2 * np.pi)
    X = demo_curve(d, s)
    start = as_state(d["kind"], d["start"])
    T = d["t0"] + d["tau"] * s
    if d["kind"] not in QUATS:
        return T, start + X
    Y = np.empty((len(T), len(start)))
    i = 0
    for a, q in enumerate(QUATS[d["kind"]]):
        k = q - i
        v = i - a  # offset in velocity coordinates
        Y[:, i:q] = start[i:q] + X[:, v:v + k]
        Y[:, q:q + 4] = qmul(qexp(X[:, v + k:v + k + 3]),
                             np.broadcast_to(start[q:q + 4], (len(T), 4)))
        i = q + 4
    return T, Y
