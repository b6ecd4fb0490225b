"""C25 Spring-dampers follow the analytic solution."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from movement_primitives.spring_damper import (
    SpringDamper, SpringDamperOrientation)

from .. import ref
from ..core import Skip, sub
from ..gen import dec, quat, raw_quat, vec
from ..util import check, close, qconj, qexp, qlog, qmul, scale_of


class Constant:
    def __init__(self, cdd):
        self.cdd = np.array(cdd, dtype=float)

    def coupling(self, y, yd):
        return np.zeros_like(self.cdd), self.cdd.copy()


def analytic(t, x0, v0, k, c):
    """x'' = -k x - c x', position and velocity, damping of any kind."""
    w = np.sqrt(complex(c * c / 4 - k))
    if abs(w) < 1e-6 * max(1.0, c):
        e = np.exp(-c * t / 2)
        b = v0 + c * x0 / 2
        return e * (x0 + b * t), e * (b - c / 2 * (x0 + b * t))
    l1, l2 = -c / 2 + w, -c / 2 - w
    a1 = (v0 - l2 * x0) / (l1 - l2)
    a2 = x0 - a1
    x = a1 * np.exp(l1 * t) + a2 * np.exp(l2 * t)
    v = a1 * l1 * np.exp(l1 * t) + a2 * l2 * np.exp(l2 * t)
    return x.real, v.real


@st.composite
def cases(draw, kind):
    n = 3 if kind == "sdo" else draw(st.integers(1, 4))
    steps = draw(st.integers(20, 40))
    dt = draw(st.one_of(st.sampled_from([0.01, 0.02, 0.05, 0.1]),
                        dec(0.005, 0.1, 4)))
    ints = draw(st.sampled_from([1.0, 1.0, 0.5, 0.4, 1.7]))
    h = dt * min(ints, 1.0)
    k = min(draw(st.one_of(dec(0.1, 5, 2), dec(0.5, 200, 1))),
            round((0.4 / h) ** 2, 2))
    c = draw(st.one_of(st.none(), st.none(), dec(0, 30, 2)))
    if c is not None:
        c = min(c, round(0.9 / h, 2))
    d = dict(kind=kind, n=n, steps=steps, dt=dt, ints=ints, k=k, c=c,
             run=draw(st.sampled_from([1.0, 1.0, 0.6])))
    if kind == "sdo":
        d["start"], d["goal"] = draw(raw_quat()), draw(raw_quat())
    else:
        d["start"], d["goal"] = draw(vec(n)), draw(vec(n))
    d["v0"] = draw(st.one_of(st.just([0.0] * n), vec(n, -2, 2)))
    d["cdd"] = draw(st.one_of(st.none(), vec(n, -5, 5)))
    return d


def make(d, dt):
    kw = dict(dt=dt, int_dt=d["ints"] * dt, k=d["k"], c=d["c"])
    if d["kind"] == "sdo":
        o = SpringDamperOrientation(**kw)
        o.configure(start_y=quat(d["start"]), goal_y=quat(d["goal"]),
                    start_yd=np.array(d["v0"]))
    else:
        o = SpringDamper(d["n"], **kw)
        o.configure(start_y=np.array(d["start"]), goal_y=np.array(d["goal"]),
                    start_yd=np.array(d["v0"]))
    return o


def run(d, level):
    """Positions and velocities with smaller steps."""
    dt = d["dt"] / 2 ** level
    term = None if d["cdd"] is None else Constant(d["cdd"])
    n = d["steps"] * 2 ** level
    T, Y = make(d, dt).open_loop(run_t=(n - 0.5) * dt, coupling_term=term)
    check(len(Y) == n + 1 or len(Y) == n, "number of samples %d for %d "
          "steps", len(Y), n)
    close(T, dt * np.arange(len(T)), "times", 1e-9)
    o = make(d, dt)
    y = quat(d["start"]) if d["kind"] == "sdo" else np.array(d["start"])
    yd = np.array(d["v0"], dtype=float)
    Z, V = [y], [yd]
    for _ in range(n):
        y, yd = o.step(y, yd, coupling_term=term)
        Z.append(y)
        V.append(yd)
    Z, V = np.array(Z), np.array(V)
    close(Y, Z[:len(Y)], "open loop and steps", 1e-6)
    return Z[::2 ** level], V[::2 ** level]


def compare(d, Y, V):
    """Y, V: reference"""
    R = [run(d, level) for level in range(4)]
    for refined in range(4):
        message = difference(d, R, Y, V)
        if not message:
            return
        # large steps may turn an orientation across 180 degrees
        R = R[1:] + [run(d, 4 + refined)]
    check(False, "%s", message)


def difference(d, R, Y, V):
    for i, (what, expected) in enumerate((("positions", Y),
                                          ("velocities", V))):
        levels = [r[i] for r in R]
        if d["kind"] == "sdo" and i == 0:
            levels = [ref.align(a, expected, "sdo") for a in levels]
        limit, estimate = ref.romberg(levels)
        scale = scale_of(expected)
        if estimate > 0.02 * scale:
            raise Skip("not resolved")
        error = np.abs(limit - expected).max()
        if error > 2 * estimate + 1e-6 * scale:
            return ("%s for small steps differ from the solution by %.3g "
                    "(numerical error about %.3g)" % (what, error, estimate))
        first = np.abs(levels[-1] - levels[-2]).max()
        error = np.abs(levels[-1] - expected).max()
        if error > 3 * first + 2 * estimate + 1e-6 * scale:
            return "%s differ from the solution by %.3g" % (what, error)
    return None


@sub("C25", cases("sd"), "moves by more than 1e-3", quick=1000, shards=8)
def position(d):
    t = d["dt"] * np.arange(d["steps"] + 1)
    k = d["k"]
    c = 2 * np.sqrt(k) if d["c"] is None else d["c"]
    Y, V = np.empty((len(t), d["n"])), np.empty((len(t), d["n"]))
    for i in range(d["n"]):
        rest = d["goal"][i] + (0 if d["cdd"] is None else d["cdd"][i] / k)
        x, v = analytic(t, d["start"][i] - rest, d["v0"][i], k, c)
        Y[:, i], V[:, i] = rest + x, v
    compare(d, Y, V)
    return ["default damping" if d["c"] is None else
            "underdamped" if c < 2 * np.sqrt(k) else "overdamped",
            "coupling" if d["cdd"] is not None else "no coupling"] \
        if np.ptp(Y, axis=0).max() > 1e-3 else False


@st.composite
def turns(draw):
    d = draw(cases("sdo"))
    d["along"] = draw(st.booleans())
    d["w"] = draw(dec(-2, 2, 2))
    return d


@sub("C25", turns(), "moves by more than 1e-3 and stays away from 180 degrees",
     quick=600, shards=8)
def orientation(d):
    q0, g = quat(d["start"]), quat(d["goal"])
    t = d["dt"] * np.arange(d["steps"] + 1)
    k = d["k"]
    c = 2 * np.sqrt(k) if d["c"] is None else d["c"]
    turn = qlog(qmul(g, qconj(q0)))
    angle = np.linalg.norm(turn)
    if d["along"] and angle > 1e-3:
        # along the shortest rotation the motion is one-dimensional
        axis = turn / angle
        d = dict(d, v0=(d["w"] * axis).tolist(), cdd=None)
        x, v = analytic(t, -angle, d["w"], k, c)
        largest = np.abs(analytic(np.linspace(0, t[-1], 1000), -angle,
                                  d["w"], k, c)[0]).max()
        Y = np.array([qmul(qexp(a * axis), g) for a in x])
        V = np.outer(v, axis)
    else:
        cdd = np.zeros(3) if d["cdd"] is None else np.array(d["cdd"])

        angles = [angle]

        def rhs(_, s):
            q, w = s[:4] / np.linalg.norm(s[:4]), s[4:]
            r = qlog(qmul(g, qconj(q)))
            angles.append(np.linalg.norm(r))  # also between samples
            a = k * r - c * w + cdd
            return np.hstack((0.5 * qmul(np.hstack((0.0, w)), s[:4]), a))
        sol = solve_ivp(rhs, (0, t[-1]), np.hstack((q0, d["v0"])),
                        method="DOP853", t_eval=np.minimum(t, t[-1]),
                        rtol=1e-9, atol=1e-11, max_step=d["dt"])
        Y = sol.y[:4].T
        Y = Y / np.linalg.norm(Y, axis=1, keepdims=True)
        V = sol.y[4:].T
        largest = max(angles)
    if largest > np.pi - 0.15:
        raise Skip("close to 180 degrees from the goal")
    compare(d, Y, V)
    return ["along" if d["along"] else "general"] \
        if np.ptp(Y, axis=0).max() > 1e-3 else False


@sub("C25", st.one_of(cases("sd"), cases("sdo")), "start differs from goal",
     quick=1000, shards=8)
def overshoot(d):
    """Critical or more damping, from rest: monotonic approach."""
    h = d["dt"] * min(d["ints"], 1.0)
    critical = 2 * np.sqrt(d["k"])
    c = d["c"] if d["c"] is None or d["c"] >= critical else None
    d = dict(d, c=c, cdd=None, v0=[0.0] * d["n"])
    if (critical if c is None else c) * h > 0.9:
        raise Skip("step too large")
    _, Y = make(d, d["dt"]).open_loop(run_t=d["steps"] * d["dt"])
    if d["kind"] == "sdo":
        g = quat(d["goal"])
        turn = qlog(qmul(g, qconj(quat(d["start"]))))
        angle = np.linalg.norm(turn)
        if angle > np.pi - 1e-6:
            raise Skip("direction not determined")
        if angle < 1e-6:
            return False
        X = np.array([qlog(qmul(g, qconj(q))) for q in Y])
        r = X.dot(turn / angle)
        close(X, np.outer(r, turn / angle), "shortest rotation", 1e-6)
        r = r[:, np.newaxis]
    else:
        r = (np.array(d["goal"]) - Y) * np.sign(
            np.array(d["goal"]) - np.array(d["start"]))
    check(np.all(r >= -1e-9), "overshoots the goal by %.3g", -r.min())
    check(np.all(np.diff(r, axis=0) <= 1e-9), "moves away from the goal")
    return [d["kind"]] if r.max() > 1e-3 else False
