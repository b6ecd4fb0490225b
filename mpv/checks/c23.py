"""C23 The potential field shows the acceleration the DMP would apply."""
import copy

import numpy as np
from matplotlib.figure import Figure
from matplotlib.quiver import Quiver
from hypothesis import strategies as st

from movement_primitives.dmp import CouplingTermObstacleAvoidance2D
from movement_primitives.dmp_potential_field import (
    plot_potential_field_2d, potential_field_2d)

from .. import gen, ref
from ..core import sub
from ..gen import dec, vec
from ..util import check, close, scale_of
from .c02 import avoidance

GAMMA, BETA = 1000.0, 20.0 / np.pi  # documented defaults


@st.composite
def cases(draw):
    p = draw(gen.prim(kinds=("dmp",), dims=(2,), p_gain=True))
    c = dict(p=p, steps=draw(st.integers(0, 30)),
             reset=draw(st.booleans()))
    lo, size = draw(vec(2, -2, 2, 2)), draw(vec(2, 0.1, 4, 2))
    c["x"] = [lo[0], round(lo[0] + size[0], 2)]
    c["y"] = [lo[1], round(lo[1] + size[1], 2)]
    c["ticks"] = draw(st.integers(2, 6))
    c["obstacle"] = draw(st.one_of(st.none(), vec(2, -2, 2, 2)))
    if draw(st.integers(0, 3)) == 0:  # not used by this type of DMP
        p["goal_yd"] = draw(vec(2, -1, 1))
        p["goal_ydd"] = draw(vec(2, -3, 3))
    c["point"] = [draw(st.integers(0, 5)), draw(st.integers(0, 5))]
    return c


@sub("C23", cases(), "the field is not constant zero", quick=6000, shards=8)
def field(c):
    p = c["p"]
    o = gen.build(p)
    if c["reset"]:
        o.reset()
    y, yd = gen.start_state(p)
    if c["steps"] == 0 and not c["reset"] and not p["used"]:
        yd = np.zeros(2)  # the start velocity is used from the first step on
    for _ in range(c["steps"]):
        y, yd = o.step(y, yd)
    twin = copy.deepcopy(o)
    obstacle = None if c["obstacle"] is None else np.array(c["obstacle"])
    xx, yy, ft, ts, ct, acc = potential_field_2d(
        o, tuple(c["x"]), tuple(c["y"]), c["ticks"], obstacle)
    n = c["ticks"]
    for a in (xx, yy):
        check(a.shape == (n, n), "shape of grid %s", a.shape)
    for a in (ft, ts, ct, acc):
        check(a.shape == (n, n, 2), "shape of field %s", a.shape)
    gx, gy = np.linspace(*c["x"], n), np.linspace(*c["y"], n)
    # every combination of coordinates is there, in the documented layout
    close(xx, np.broadcast_to(gx, (n, n)), "x coordinates", 1e-12)
    close(yy, np.broadcast_to(gy[:, np.newaxis], (n, n)), "y coordinates",
          1e-12)
    t = sum([p["dt"]] * c["steps"])
    tau = p["tau"]
    alpha, beta = ref.gains_of(p)
    g, y0 = np.array(p["goal"]), np.array(p["start"])
    P = np.dstack((xx, yy))
    z = ref.phase(t, tau) if p["smooth"] else 0.0
    e_ts = alpha * (beta * (g - P) - tau * yd
                    - beta * (g - y0) * z) / tau ** 2
    W = np.array(p["w"], float).reshape(2, p["nw"])
    e_ft = np.broadcast_to(ref.forcing(t, tau, W) / tau ** 2, P.shape)
    e_ct = np.zeros_like(P)
    known = np.ones((n, n), bool)
    if obstacle is not None:
        f = avoidance(dict(obstacle=c["obstacle"], gamma=GAMMA, beta=BETA))
        speed = np.linalg.norm(yd)
        for i in range(n):
            for j in range(n):
                e_ct[i, j] = f(P[i, j], yd) / tau ** 2
                d = obstacle - P[i, j]
                # angles are regularized with 1e-10 in the denominator, and
                # the direction is not determined straight ahead
                known[i, j] = speed == 0 or abs(
                    d[0] * yd[1] - d[1] * yd[0]) > 1e-3
    close(ts, e_ts, "transformation system", 1e-8)
    close(ft, e_ft, "forcing term", 1e-7, scale_of(
        e_ft, np.abs(W).max() / tau ** 2))
    close(ct[known], e_ct[known], "obstacle avoidance", 1e-6,
          1 + GAMMA * np.linalg.norm(yd) / tau ** 2)
    close(acc, ft + ts + ct, "sum of parts", 1e-12)
    # the acceleration with which the DMP leaves this position
    i, j = c["point"][0] % n, c["point"][1] % n
    if known[i, j] and c["steps"] > 0 and p.get("p_gain", 0.0) == 0.0:
        h = 1e-6 * tau
        twin.dt_ = twin.int_dt = h
        twin.current_y = P[i, j].copy()
        term = None if obstacle is None else CouplingTermObstacleAvoidance2D(
            obstacle, gamma=GAMMA, beta=BETA)
        _, v = twin.step(P[i, j], yd, coupling_term=term,
                         step_function="euler")
        a = (v - yd) / h
        close(a, acc[i, j], "acceleration of the DMP", 1e-3,
              scale_of(e_ts, e_ft, e_ct))
    # the DMP goes on as before
    for _ in range(3):
        y1, yd1 = o.step(y, yd)
        y, yd = y1, yd1
    q = gen.build(p)
    if c["reset"]:
        q.reset()
    y2, yd2 = gen.start_state(p)
    for _ in range(c["steps"] + 3):
        y2, yd2 = q.step(y2, yd2)
    if c["steps"] > 0 or c["reset"] or "start_yd" not in p:
        close(y, y2, "DMP was modified", 1e-12)
        close(yd, yd2, "DMP was modified", 1e-12)
    return ["obstacle" if obstacle is not None else "no obstacle",
            "smooth" if p["smooth"] else "plain"] \
        if np.abs(acc).max() > 1e-6 else False


@st.composite
def plots(draw):
    c = draw(cases())
    c["factor"] = draw(dec(0.1, 50, 2))
    return c


def arrows(o, c, factor):
    """Grid and arrows in units of the plot."""
    ax = Figure().add_subplot()
    obstacle = None if c["obstacle"] is None else np.array(c["obstacle"])
    plot_potential_field_2d(
        ax, o, tuple(c["x"]), tuple(c["y"]), c["ticks"], obstacle,
        exaggerate_arrows=factor)
    result = []
    for q in ax.collections:
        check(isinstance(q, Quiver), "not only arrows are drawn")
        check(q.scale is not None, "arrows have no common scale")
        red, green, blue = q.get_facecolor()[0][:3] > 0.25
        color = {(True, False, False): "forcing term",
                 (False, True, False): "transformation system",
                 (True, True, False): "obstacle avoidance",
                 (False, False, False): "acceleration"}.get(
                     (red, green, blue))
        result.append((np.array(q.XY), np.column_stack(
            (q.U, q.V)) / q.scale, color))
    return result


@sub("C23", plots(), "the field is not constant zero", quick=400, shards=8)
def plot(c):
    p = c["p"]
    o = gen.build(p)
    y, yd = gen.start_state(p)
    for _ in range(c["steps"]):
        y, yd = o.step(y, yd)
    twin = copy.deepcopy(o)
    obstacle = None if c["obstacle"] is None else np.array(c["obstacle"])
    xx, yy, ft, ts, ct, acc = potential_field_2d(
        o, tuple(c["x"]), tuple(c["y"]), c["ticks"], obstacle)
    if np.abs(acc).max() < 1e-6:
        return False
    drawn = arrows(o, c, c["factor"])
    XY = np.column_stack((xx.ravel(), yy.ravel()))
    parts = {"forcing term": ft, "transformation system": ts,
             "obstacle avoidance": ct, "acceleration": acc}
    size = max([np.abs(a).max() for _, a, _ in drawn], default=0.0)
    largest = max(np.abs(a).max() for a in parts.values())
    for xy, a, name in drawn:  # colors are documented
        close(xy, XY, "positions of arrows", 1e-9)
        check(name in parts, "unknown color of arrows, or used twice")
        close(a, parts.pop(name).reshape(-1, 2) / largest * size,
              "arrows of " + name, 1e-9, size)
    for name, part in parts.items():
        check(np.all(part == 0.0), "no arrows for %s", name)
    # requested size
    one = arrows(o, c, 1.0)
    check(len(one) == len(drawn), "number of arrows depends on their size")
    for (_, a, _), (_, b, _) in zip(drawn, one):
        close(a, b * c["factor"], "exaggerated arrows", 1e-9,
              c["factor"] * size)
    close(o.step(y, yd)[0], twin.step(y, yd)[0], "DMP was modified", 1e-12)
    return ["obstacle" if obstacle is not None else "no obstacle",
            "bigger" if c["factor"] > 1 else "smaller"]
