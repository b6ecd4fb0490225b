"""C14 Obstacle avoidance steers around the obstacle."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.dmp import (
    CouplingTermObstacleAvoidance2D, CouplingTermObstacleAvoidance3D,
    obstacle_avoidance_acceleration_2d, obstacle_avoidance_acceleration_3d)
from movement_primitives.dmp_fast import (
    obstacle_avoidance_acceleration_2d as accelerated_2d)

from ..core import sub
from ..gen import dec, quat, raw_quat, vec
from ..util import check, close, finite, rotmat


@st.composite
def scenes(draw, n):
    scale = draw(st.sampled_from([0.001, 0.03, 1.0, 1.0, 10.0, 3e3]))
    vscale = draw(st.sampled_from([0.001, 0.1, 1.0, 1.0, 20.0, 7e3]))
    y, o, v = draw(vec(n)), draw(vec(n)), draw(vec(n))
    mode = draw(st.sampled_from(
        ["any", "any", "any", "any", "rest", "towards", "away", "at obstacle",
         "near"]))
    d = [a - b for a, b in zip(o, y)]
    if mode == "rest":
        v = [0.0] * n
    elif mode == "towards":
        v = d
    elif mode == "away":
        v = [-a for a in d]
    elif mode == "at obstacle":
        o = y
    elif mode == "near":
        v = [a + 1e-3 * b for a, b in zip(d, v)]
    if draw(st.integers(0, 9)) == 0:  # cosine is rounded
        scale, vscale = 3e3, 7e3
    return dict(y=[scale * a for a in y], o=[scale * a for a in o],
                v=[vscale * a for a in v], mode=mode,
                gamma=draw(dec(0, 2000, 0)), beta=draw(dec(0, 10, 1)))


def evaluate(c, n):
    """All implementations for n dimensions."""
    y, v, o = (np.array(c[k]) for k in ("y", "v", "o"))
    if n == 3:
        r = {"3d": obstacle_avoidance_acceleration_3d(
            y, v, o, c["gamma"], c["beta"])}
        cd, cdd = CouplingTermObstacleAvoidance3D(
            o, gamma=c["gamma"], beta=c["beta"]).coupling(y, v)
        close(cd, np.zeros(3), "velocity of coupling", 0)
        r["term 3d"] = cdd
        return r
    r = {"2d": obstacle_avoidance_acceleration_2d(
        y, v, o, c["gamma"], c["beta"]),
         "fast": np.asarray(accelerated_2d(y, v, o, c["gamma"], c["beta"]))}
    for fast in (False, True):
        cd, cdd = CouplingTermObstacleAvoidance2D(
            o, gamma=c["gamma"], beta=c["beta"], fast=fast).coupling(y, v)
        close(cd, np.zeros(2), "velocity of coupling", 0)
        r["term fast" if fast else "term"] = np.asarray(cdd)
    return r


def verify(c, n, name, a):
    y, v, o = (np.array(c[k]) for k in ("y", "v", "o"))
    check(np.shape(a) == (n,), "%s: shape %s", name, np.shape(a))
    finite(a, name)
    d = o - y
    nd, nv = np.linalg.norm(d), np.linalg.norm(v)
    size = c["gamma"] * nv
    norm = np.linalg.norm(a)
    # theta * exp(-beta * theta) is never larger than pi
    check(norm <= np.pi * size * (1 + 1e-9), "%s: acceleration %.3g too large",
          name, norm)
    if nd * nv == 0:
        return False
    cos = np.clip(d.dot(v) / (nd * nv), -1, 1)
    # the denominator is regularized with 1e-10
    low = np.clip(d.dot(v) / (nd * nv + 1.01e-10), -1, 1)
    thetas = np.linspace(*np.sort(np.arccos([cos, low])) + [-1e-7, 1e-7], 20)
    values = size * thetas * np.exp(-c["beta"] * thetas)
    slack = 1e-6 * size * np.pi
    check(values.min() - slack <= norm <= values.max() + slack,
          "%s: magnitude %.6g instead of %.6g", name, norm, values[10])
    away = -(d - d.dot(v) / nv ** 2 * v)
    if np.linalg.norm(away) < 1e-5 * nd or nd * nv < 1e-9:
        return False
    direction = away / np.linalg.norm(away)
    close(a, norm * direction, "%s: direction" % name, 1e-6, scale=size + 1e-300)
    return norm > 1e-9


@sub("C14", scenes(2), "acceleration is not zero", quick=4000, shards=8)
def plane(c):
    """2D versions, and 3D in the plane."""
    r = evaluate(c, 2)
    e = dict(c, **{k: c[k] + [0.0] for k in ("y", "v", "o")})
    r3 = evaluate(e, 3)
    ok = False
    for name, a in r.items():
        ok = verify(c, 2, name, a) or ok
    for name, a in r3.items():
        verify(e, 3, name, a)
        check(a[2] == 0.0, "leaves the plane")
    size = c["gamma"] * np.linalg.norm(c["v"])
    if ok:
        close(r3["3d"][:2], r["2d"], "2D and 3D", 1e-6, scale=size)
    return [c["mode"]] if ok else False


@sub("C14", scenes(3), "acceleration is not zero", quick=3000, shards=8)
def space(c):
    oks = [verify(c, 3, name, a) for name, a in evaluate(c, 3).items()]
    return [c["mode"]] if any(oks) else False


@sub("C14", st.tuples(st.one_of(scenes(2), scenes(3)), raw_quat(), vec(3),
                      dec(-7, 7, 2)).map(
    lambda a: dict(a[0], frame=a[1], shift=a[2], angle=a[3])),
    "acceleration is not zero", quick=2000, shards=4)
def symmetry(c):
    """Rotates and shifts with the scene."""
    n = len(c["y"])
    if n == 2:
        s, k = np.sin(c["angle"]), np.cos(c["angle"])
        R = np.array([[k, -s], [s, k]])
    else:
        R = rotmat(quat(c["frame"]))
    y, v, o = (np.array(c[k]) for k in ("y", "v", "o"))
    nd, nv = np.linalg.norm(o - y), np.linalg.norm(v)
    scale = max(nd, 1e-9)
    t = scale * np.array(c["shift"][:n])
    e = dict(c, y=(R.dot(y) + t).tolist(), o=(R.dot(o) + t).tolist(),
             v=R.dot(v).tolist())
    if nd * nv == 0 or np.linalg.norm(
            v / nv - (o - y) / nd) < 1e-3 or np.linalg.norm(
                v / nv + (o - y) / nd) < 1e-3:
        return False
    a, b = evaluate(c, n), evaluate(e, n)
    for name in a:
        close(b[name], R.dot(a[name]), name + ": moved scene", 1e-6,
              scale=c["gamma"] * nv + 1e-300)
    return ["%dD" % n] if np.linalg.norm(a["%dd" % n]) > 1e-9 else False


@sub("C14", st.tuples(st.lists(scenes(2), min_size=6, max_size=6),
                      st.sampled_from([(1,), (6,), (2, 3), (3, 2), (1, 6),
                                       (6, 1), (1, 1), (3, 1, 2), (0,)]),
                      st.booleans()).map(
    lambda a: dict(s=a[0], shape=a[1], same=a[2])),
    "more than one evaluation", quick=2000, shards=4)
def batches(c):
    """Batches equal single evaluations, shapes are preserved."""
    shape = tuple(c["shape"])
    n = int(np.prod(shape))
    o, gamma, beta = np.array(c["s"][0]["o"]), 1000.0, 6.4
    Y = np.array([s["y"] for s in c["s"][:n]]).reshape(shape + (2,))
    V = np.array([s["v"] for s in c["s"][:n]]).reshape(shape + (2,))
    A = obstacle_avoidance_acceleration_2d(Y, V, o, gamma, beta)
    check(A.shape == Y.shape, "shape %s of %s", A.shape, Y.shape)
    finite(A, "batch")
    for i in np.ndindex(*shape):
        single = obstacle_avoidance_acceleration_2d(Y[i], V[i], o, gamma, beta)
        close(A[i], single, "batch", 1e-9)
        default = obstacle_avoidance_acceleration_2d(Y[i], V[i], o)
        g, b = 1000.0, 20.0 / np.pi
        close(default, obstacle_avoidance_acceleration_2d(Y[i], V[i], o, g, b),
              "default gains", 1e-12)
    return ["%d-d batch" % len(shape)] if n > 1 else False
