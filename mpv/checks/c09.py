"""C09 Orientations stay unit quaternions and their sign does not matter."""
import numpy as np
from hypothesis import strategies as st

from ..core import Skip, sub
from ..gen import (QUATS, as_state, build, construct, dec, demo, demo_arrays,
                   pos_dims, prim, quat, raw_quat, start_state, vec, vel_dims)
from ..util import (ambiguous, angles_to, check, close, close_poses, finite,
                    qconj, qexp, qlog, qmul)

KINDS = ("cart", "dual", "sdo")
IMPL = st.sampled_from(["python", "cython"])


def loop_kw(kind, impl):
    return {"cart": dict(quaternion_step_function=impl),
            "dual": dict(step_function=impl)}.get(kind, {})


def unit(Y, kind, what):
    finite(Y, what)
    for i in QUATS[kind]:
        norms = np.linalg.norm(np.atleast_2d(Y)[:, i:i + 4], axis=1)
        worst = np.max(np.abs(norms - 1.0))
        check(worst < 1e-9, "%s: norm of quaternion differs by %.3g from one",
              what, worst)


@st.composite
def special_goals(draw, kinds=KINDS):
    """Start and goal: equal, opposite signs, 180 degrees apart, close."""
    p = draw(prim(kinds=kinds, p_gain=True))
    mode = draw(st.sampled_from(
        ["any", "any", "same", "negative", "180", "close", "nearly 180"]))
    start = as_state(p["kind"], p["start"])
    goal = as_state(p["kind"], p["goal"])
    axis = quat([0] + draw(st.sampled_from(
        [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 2, -3], [1, 1, 0]])))[1:]
    for i in QUATS[p["kind"]]:
        q = start[i:i + 4]
        angle = {"180": np.pi, "close": 1e-4, "nearly 180": np.pi - 1e-3}
        if mode == "same":
            goal[i:i + 4] = q
        elif mode == "negative":
            goal[i:i + 4] = -q
        elif mode in angle:
            goal[i:i + 4] = qmul(qexp(angle[mode] * axis), q)
    p["goal"] = goal.tolist()
    return dict(p=p, mode=mode, impl=draw(IMPL))


@sub("C09", st.tuples(special_goals(), dec(0.5, 6, 1)).map(
    lambda a: dict(a[0], run=a[1])),
    "orientations change or start and goal coincide", quick=1200, shards=8)
def norms_open_loop(c):
    p = c["p"]
    kind = p["kind"]
    Y = build(p).open_loop(run_t=c["run"] * p["tau"],
                           **loop_kw(kind, c["impl"]))[1]
    unit(Y, kind, "open loop")
    return [kind, c["mode"]]


@sub("C09", st.tuples(special_goals(), st.lists(vec(14, -1, 1, 2), min_size=1,
                                                max_size=5)).map(
    lambda a: dict(a[0], push=a[1])),
    "every case: steps with pushes in between", quick=800, shards=8)
def norms_stepwise(c):
    p = c["p"]
    kind, n = p["kind"], pos_dims(p)
    o = build(p)
    y, yd = start_state(p)
    Y = []
    for push in c["push"]:
        m = y.copy()
        for i in QUATS[kind]:
            m[i:i + 4] = qmul(qexp(0.5 * np.array(push[i:i + 3])), y[i:i + 4])
        y, yd = o.step(m, yd)
        Y.append(y)
        for _ in range(4):
            y, yd = o.step(y, yd)
            Y.append(y)
        if np.abs(yd).max() * p["dt"] > 1e3:
            raise Skip("extreme velocity")
    unit(np.array(Y), kind, "stepwise execution")
    return [kind, c["mode"]]


@st.composite
def flips(draw):
    c = draw(special_goals())
    n_quats = len(QUATS[c["p"]["kind"]])
    bits = st.lists(st.sampled_from([1, -1]), min_size=n_quats,
                    max_size=n_quats)
    c["flip_start"], c["flip_goal"] = draw(bits), draw(bits)
    c["flip_fed"] = draw(st.lists(bits, min_size=10, max_size=10))
    c["push"] = draw(vec(14, -1, 1, 2))
    return c


def flip(y, kind, signs):
    y = np.array(y, dtype=float)
    for i, s in zip(QUATS[kind], signs):
        y[..., i:i + 4] *= s
    return y


@sub("C09", flips(), "at least one sign is flipped, orientations stay away "
     "from 180 degrees", quick=1200, shards=8)
def signs(c):
    p = c["p"]
    kind = p["kind"]
    start, goal = (as_state(kind, p[k]) for k in ("start", "goal"))
    flipped = dict(p, start=flip(start, kind, c["flip_start"]).tolist(),
                   goal=flip(goal, kind, c["flip_goal"]).tolist())
    kw = loop_kw(kind, c["impl"])
    Y = build(p).open_loop(run_t=1.5 * p["tau"], **kw)[1]
    if ambiguous(Y, goal, kind, 1e-4):
        raise Skip("180 degrees")
    Yf = build(flipped).open_loop(run_t=1.5 * p["tau"], **kw)[1]
    close_poses(Yf, Y, kind, "open loop with negated quaternions", 1e-6)
    o, of = build(p), build(flipped)
    y, yd = start_state(p)
    yf, ydf = start_state(flipped)
    for i, fed in enumerate(c["flip_fed"]):
        if i == 4:  # imperfect tracking
            for k in QUATS[kind]:
                r = qexp(0.3 * np.array(c["push"][k:k + 3]))
                y[k:k + 4] = qmul(r, y[k:k + 4])
                yf[k:k + 4] = qmul(r, yf[k:k + 4])
        y, yd = o.step(y, yd)
        yf, ydf = of.step(flip(yf, kind, fed), ydf)
        if np.abs(yd).max() * p["dt"] > 3 or ambiguous(
                y, goal, kind, 1e-4):
            raise Skip("180 degrees")
        close_poses(yf, y, kind, "step with negated quaternions", 1e-6)
        close(ydf, yd, "velocity with negated quaternions", 1e-5)
    n = sum(s < 0 for s in c["flip_start"] + c["flip_goal"]
            + sum(c["flip_fed"], []))
    return [kind, c["mode"]] if n else False


@st.composite
def flipped_demos(draw):
    kind = draw(st.sampled_from(["cart", "dual"]))
    d = draw(demo(kind, steps=(10, 40)))
    n = d["steps"] + 1
    return dict(d=d, nw=draw(st.integers(2, 10)), smooth=draw(st.booleans()),
                flips=[draw(st.lists(st.integers(0, n - 1), max_size=6))
                       for _ in QUATS[kind]],
                reg=draw(st.sampled_from([0.0, 1e-4, 1.0])),
                all=draw(st.booleans()), afv=draw(st.booleans()))


@sub("C09", flipped_demos(), "at least one sample is negated", quick=800,
     shards=8)
def demonstrations(c):
    """Signs of demonstrated quaternions do not influence the weights."""
    d = c["d"]
    kind = d["kind"]
    T, Y = demo_arrays(d)
    if ambiguous(Y, Y[-1], kind, 0.05):
        raise Skip("180 degrees")
    Z = Y.copy()
    for i, f in zip(QUATS[kind], c["flips"]):
        if c["all"]:
            Z[:, i:i + 4] *= -1
        Z[f, i:i + 4] *= -1
    p = dict(kind=kind, tau=d["tau"], dt=d["tau"] / 30, int_dt=d["tau"] / 30,
             nw=c["nw"], smooth=c["smooth"])
    W = []
    for demonstration in (Y, Z):
        o = construct(p)
        o.imitate(T, demonstration, regularization_coefficient=c["reg"],
                  allow_final_velocity=c["afv"])
        W.append(np.array(o.get_weights()))
    scale = max(1.0, np.abs(W[0]).max())
    close(W[1], W[0], "weights for negated quaternions", 1e-6, scale)
    return [kind] if not np.array_equal(Y, Z) else False


@sub("C09", st.tuples(special_goals(), raw_quat()).map(
    lambda a: dict(a[0], frame=a[1])),
    "start and goal orientation differ", quick=600, shards=8)
def shortest_way(c):
    """Without weights the orientation turns directly to the goal."""
    p = c["p"]
    kind = p["kind"]
    p["w"] = [0.0] * len(p.get("w", []))
    p.pop("start_yd", None)
    p["alpha"], p["beta"] = None, None
    p["c"] = None
    if "k" in p:
        p["k"] = min(p["k"], 1.0 / p["dt"] ** 2 / 4)
    start, goal = start_state(p)[0], as_state(kind, p["goal"])
    Y = build(p).open_loop(run_t=p["tau"], **loop_kw(kind, c["impl"]))[1]
    moved = False
    for i in QUATS[kind]:
        total = qlog(qmul(goal[i:i + 4], qconj(start[i:i + 4])))
        angle = np.linalg.norm(total)
        G = np.broadcast_to(goal[i:i + 4], (len(Y), 4))
        S = np.broadcast_to(start[i:i + 4], (len(Y), 4))
        left = qlog(qmul(G, qconj(Y[:, i:i + 4])))
        remaining = np.linalg.norm(left, axis=1)
        check(np.all(np.diff(remaining) <= 1e-6),
              "angle to the goal grows")
        done = qlog(qmul(Y[:, i:i + 4], qconj(S)))
        if angle < np.pi - 1e-5:
            close(done + left, np.broadcast_to(total, done.shape),
                  "rotations about the shortest axis", 1e-5)
        else:  # both directions are shortest
            close(np.linalg.norm(done, axis=1) + remaining,
                  np.full(len(Y), np.pi), "sum of angles", 1e-4)
        moved = moved or angle > 1e-3
    return [kind, c["mode"]] if moved else False
