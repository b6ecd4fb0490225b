"""C03 Every movement primitive converges to its goal."""
import numpy as np
from hypothesis import strategies as st

from ..core import Skip, sub
from ..gen import (QUATS, as_state, build, dec, pos_dims, prim, scaled_vec,
                   start_state, state, vec, vel_dims)
from ..ref import ALPHA_Z, gains_of
from ..util import check, finite, qconj, qexp, qlog, qmul

KINDS = ("dmp", "cart", "dual", "fv", "sd", "sdo")


@st.composite
def cases(draw, kinds=KINDS, history=True):
    p = draw(prim(kinds=kinds, max_dims=3, p_gain=history))
    if p["kind"] in ("sd", "sdo"):
        p["k"] = draw(dec(0.5, 60, 1))
        ratio = draw(dec(0.5, 2.0, 1))
        p["c"] = draw(st.sampled_from([None, 2 * ratio * p["k"] ** 0.5]))
        p["tau"] = 1.0 / p["k"] ** 0.5
        p["dt"] = p["tau"] / draw(st.integers(5, 12))
        p["int_dt"] = p["dt"] / draw(st.sampled_from([1, 2]))
    else:
        p["dt"] = p["tau"] / draw(st.integers(40, 60))
        p["int_dt"] = p["dt"] / draw(st.sampled_from([1, 1, 2.5]))
        if draw(st.integers(0, 3)) == 0:  # many weights
            p["nw"] = draw(st.integers(20, 120))
            base = draw(scaled_vec(vel_dims(p), (1.0, 200.0)))
            p["w"] = [float(round(b * (-1) ** i, 6)) for b in base
                      for i in range(p["nw"])]
    if draw(st.integers(0, 5)) == 0:
        p["goal"] = list(p["start"])
    if not history:
        return dict(p=p)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("steps"), st.integers(1, 40)),
        st.tuples(st.just("push"), vec(14, -1, 1, 2)),
        st.tuples(st.just("goal"), state(p["kind"], pos_dims(p)))),
        max_size=5))
    return dict(p=p, ops=[list(o) for o in ops])


def difference(kind, g, y):
    """Goal minus state in velocity coordinates."""
    if kind not in QUATS:
        return g - y
    parts, i = [], 0
    for q in QUATS[kind]:
        parts += [g[i:q] - y[i:q],
                  qlog(qmul(g[q:q + 4], qconj(y[q:q + 4])))]
        i = q + 4
    return np.hstack(parts)


def slowest_rate(p):
    """Decay rate (in units of 1/tau) of the slowest component."""
    if p["kind"] in ("sd", "sdo"):
        k = p["k"]
        c = 2 * k ** 0.5 if p["c"] is None else p["c"]
        a, b = c * p["tau"], k * p["tau"] ** 2
        return float(-np.max(np.roots([1.0, a, b]).real))
    alpha, beta = gains_of(p)
    rate = min(-np.max(np.roots([1.0, a, a * b]).real)
               for a, b in zip(alpha, beta))
    return float(min(rate, ALPHA_Z))


def bound(p, e0, v0, t0, t, goal):
    """Distance that may remain at time t given the state at time t0."""
    tau = p["tau"]
    amp = np.max(np.abs(e0)) + tau * np.max(np.abs(v0))
    if "w" in p:
        alpha, beta = gains_of(p)
        z0 = np.exp(-ALPHA_Z * t0 / tau)
        amp += z0 * np.max(np.abs(p["w"])) / np.min(alpha * beta)
        amp += z0 * np.max(np.abs(difference(
            p["kind"], goal, as_state(p["kind"], p["start"]))))
    dt = (t - t0) / tau
    if p["kind"] in QUATS:  # may have to turn around once
        dt = max(0.0, dt - 1.0)
    return 100 * amp * np.exp(-0.8 * slowest_rate(p) * dt) + 1e-6


def tags_of(p):
    return [p["kind"], "many weights" if p.get("nw", 0) >= 20 else "few"]


@sub("C03", cases(), "the primitive is at least 0.01 away from the goal when "
     "it is left alone", quick=1200, shards=8)
def history(c):
    """Pushes and goal changes, then undisturbed steps."""
    p = c["p"]
    kind, n = p["kind"], pos_dims(p)
    o = build(p)
    y, yd = start_state(p)
    goal = as_state(kind, p["goal"])
    t = 0.0
    for op, arg in c["ops"]:
        if op == "steps":
            for _ in range(arg):
                y, yd = o.step(y, yd)
                t += p["dt"]
        elif op == "goal":
            goal = as_state(kind, arg)
            o.configure(goal_y=goal)
        else:
            push = 0.5 * np.array(arg[:n])
            measured = y + push
            for i in QUATS.get(kind, ()):
                measured[i:i + 4] = qmul(qexp(push[i:i + 3]), y[i:i + 4])
            y, yd = o.step(measured, yd)
            t += p["dt"]
    finite(y, "state after perturbations")
    if kind == "fv":  # until the end it tracks a moving target
        while t <= p["tau"] + p["dt"]:
            y, yd = o.step(y, yd)
            t += p["dt"]
    t0, e0, v0 = t, difference(kind, goal, y), yd
    if np.max(np.abs(e0)) > 1e5 or np.max(np.abs(v0)) * p["tau"] > 1e5:
        raise Skip("pushed too far")
    horizon = 16.0 / slowest_rate(p) + 1.0
    steps = int(min(horizon, 9.0) * p["tau"] / p["dt"]) + 1
    for i in range(steps):
        y, yd = o.step(y, yd)
        t += p["dt"]
        if i in (steps // 2, steps - 1):
            finite(y, "state")
            b = bound(p, e0, v0, t0, t, goal)
            e = np.max(np.abs(difference(kind, goal, y)))
            check(e <= b, "distance to the goal is %.3g, at most %.3g is "
                  "expected %.3g durations after the last perturbation",
                  e, b, (t - t0) / p["tau"])
            v = p["tau"] * np.max(np.abs(yd))
            check(v <= 50 * b, "velocity %.3g close to the goal", v)
    if np.max(np.abs(e0)) < 0.01:
        return False
    return tags_of(p) + sorted(set("op/" + op for op, _ in c["ops"]))


@sub("C03", cases(history=False),
     "start and goal differ by at least 0.01 or weights are not zero",
     quick=800, shards=8)
def open_loop(c):
    p = c["p"]
    kind = p["kind"]
    o = build(p)
    rate = slowest_rate(p)
    run_t = (2.0 + min(14.0 / rate, 8.0)) * p["tau"]
    T, Y = o.open_loop(run_t=run_t)
    finite(Y, "trajectory")
    goal = as_state(kind, p["goal"])
    y0, v0 = start_state(p)
    e0 = difference(kind, goal, y0)
    if kind == "fv":
        v0 = np.abs(v0) + np.abs(p["goal_yd"]) + 1.0
        shift = 1.0
    else:
        shift = 0.0
    for i in (2 * len(T) // 3, len(T) - 1):
        b = bound(p, e0, v0, 0.0, T[i] - shift * p["tau"], goal)
        e = np.max(np.abs(difference(kind, goal, Y[i])))
        check(e <= b, "distance to the goal is %.3g after %.3g durations, at "
              "most %.3g is expected", e, T[i] / p["tau"], b)
    return tags_of(p) if np.max(np.abs(e0)) > 0.01 or any(
        p.get("w", [])) else False
