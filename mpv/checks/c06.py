"""C06 Motions do not depend on the choice of coordinates."""
import numpy as np
from hypothesis import strategies as st

from ..core import Skip, sub
from ..gen import (QUATS, as_state, build, construct, dec, demo, demo_arrays,
                   pos_dims, prim, quat, raw_quat, start_state, vec, vel_dims)
from ..util import ambiguous, close, close_poses, qmul, rotmat

FLAT = ("dmp", "fv", "sf", "sd")
STEPS = st.sampled_from(["rk4", "euler", "rk4-cython", "euler-cython"])


def run(p, step=None, run_t=None):
    kw = {}
    if step is not None and p["kind"] in ("dmp", "cart"):
        kw["step_function"] = step
    return build(p).open_loop(
        run_t=1.2 * p["tau"] if run_t is None else run_t, **kw)[1]


def moves(Y):
    return np.ptp(Y, axis=0).max() > 1e-9


# names of the parameters that are linear in the coordinates
POSITIONS = ("start", "goal")
VECTORS = ("start_yd", "goal_yd", "start_ydd", "goal_ydd", "w")


@sub("C06", st.fixed_dictionaries(dict(
    p=prim(kinds=FLAT + ("cart", "dual")), shift=vec(6, -5, 5),
    far=st.sampled_from([1.0, 1.0, 100.0]), step=STEPS)),
    "the trajectory moves and the shift is not zero", quick=1000, shards=8)
def shift(c):
    p = c["p"]
    n = pos_dims(p)
    b = np.zeros(n)
    free = [i for i in range(n) if not any(
        q <= i < q + 4 for q in QUATS.get(p["kind"], ()))]
    b[free] = c["far"] * np.resize(c["shift"], len(free))
    q = dict(p, start=list(np.array(p["start"]) + b),
             goal=list(np.array(p["goal"]) + b))
    if "via" in p:
        q["via"] = (np.array(p["via"]) + b).tolist()
    Y = run(p, c["step"])
    close_poses(run(q, c["step"]) - b, Y, p["kind"], "shifted trajectory",
                1e-9, scale=max(1.0, np.abs(b).max(), np.abs(Y).max()))
    return [p["kind"]] if moves(Y) and np.any(b) else False


@st.composite
def pairs(draw):
    p = draw(prim(kinds=FLAT))
    q = dict(p)
    n = p["n"]
    for name in POSITIONS + ("start_yd", "goal_yd"):
        if name in p:
            q[name] = draw(vec(n))
    if "w" in p:
        q["w"] = [round(10 * v, 3) for v in draw(vec(len(p["w"])))]
    if "via" in p:
        q["via"] = [draw(vec(n)) for _ in p["via"]]
    return dict(p=p, q=q, a=draw(dec(-3, 3, 2)), b=draw(dec(-3, 3, 2)),
                step=draw(STEPS))


@sub("C06", pairs(), "both trajectories move and no factor is zero",
     quick=1000, shards=8)
def superposition(c):
    p, q, a, b = c["p"], c["q"], c["a"], c["b"]
    r = dict(p)
    for name in POSITIONS + VECTORS + ("via",):
        if name in p:
            r[name] = (a * np.array(p[name]) + b * np.array(q[name])).tolist()
    A, B = run(p, c["step"]), run(q, c["step"])
    close(run(r, c["step"]), a * A + b * B, "superposed trajectory", 1e-9,
          scale=max(1.0, np.abs(A).max(), np.abs(B).max()) * 10)
    return [p["kind"]] if moves(A) and moves(B) and a * b else False


@sub("C06", st.fixed_dictionaries(dict(
    p=prim(kinds=FLAT, dims=(2, 3, 4)), step=STEPS,
    order=st.permutations([0, 1, 2, 3]))),
    "there are at least two different dimensions", quick=1000, shards=8)
def dimensions(c):
    """Every dimension moves like a one-dimensional primitive."""
    p = c["p"]
    n = p["n"]
    order = [i for i in c["order"] if i < n]
    Y = run(p, c["step"])

    def select(dims):
        q = dict(p, n=len(dims))
        for name in POSITIONS + ("start_yd", "goal_yd", "start_ydd",
                                 "goal_ydd", "alpha", "beta"):
            if p.get(name) is not None:
                q[name] = [p[name][i] for i in dims]
        if "w" in p:
            W = np.array(p["w"]).reshape(n, p["nw"])
            q["w"] = W[dims].ravel().tolist()
        if "via" in p:
            q["via"] = [[v[i] for i in dims] for v in p["via"]]
        return q

    close(run(select(order), c["step"]), Y[:, order],
          "trajectory with permuted dimensions", 1e-9)
    for i in range(n):
        close(run(select([i]), c["step"])[:, 0], Y[:, i],
              "dimension on its own", 1e-9, scale=max(1, np.abs(Y).max()))
    return [p["kind"]] if moves(Y) and any(
        np.any(Y[:, i] != Y[:, 0]) for i in range(n)) else False


def arm(p, a):
    """Single-arm primitive with the parameters of one arm."""
    W = np.array(p["w"]).reshape(12, p["nw"])
    q = dict(p, kind="cart", w=W[6 * a:6 * a + 6].ravel().tolist(),
             start=p["start"][7 * a:7 * a + 7],
             goal=p["goal"][7 * a:7 * a + 7])
    for name in ("alpha", "beta", "start_yd"):
        if p.get(name) is not None:
            q[name] = p[name][6 * a:6 * a + 6]
    return q


@sub("C06", st.fixed_dictionaries(dict(
    p=prim(kinds=("dual",)), impl=st.sampled_from(["python", "cython"]),
    cart=st.sampled_from([["euler", "python"], ["euler-cython", "cython"]]))),
    "both arms move, orientations stay away from 180 degrees",
    quick=480, shards=8)
def arms(c):
    """Arms are independent, like single arms, and can be swapped."""
    p = c["p"]
    # sample times are accumulated differently: compare common prefix
    run_t = (int(1.2 * p["tau"] / p["dt"]) + 0.5) * p["dt"]
    T, Y = build(p).open_loop(run_t=run_t, step_function=c["impl"])
    if ambiguous(Y, as_state("dual", p["goal"]), "dual"):
        raise Skip("180 degrees")
    for a in (0, 1):
        Ta, Ya = build(arm(p, a)).open_loop(
            run_t=run_t, step_function=c["cart"][0],
            quaternion_step_function=c["cart"][1])
        close(Ta, T, "times", 1e-9)
        close_poses(Ya, Y[:, 7 * a:7 * a + 7], "cart",
                    "arm on its own", 1e-6)
    W = np.array(p["w"]).reshape(12, p["nw"])
    q = dict(p, w=np.vstack((W[6:], W[:6])).ravel().tolist(),
             start=p["start"][7:] + p["start"][:7],
             goal=p["goal"][7:] + p["goal"][:7])
    for name in ("alpha", "beta", "start_yd"):
        if p.get(name) is not None:
            q[name] = p[name][6:] + p[name][:6]
    _, Ys = build(q).open_loop(run_t=run_t, step_function=c["impl"])
    close_poses(np.hstack((Ys[:, 7:], Ys[:, :7])), Y, "dual",
                "swapped arms", 1e-9)
    return ["smooth" if p["smooth"] else "plain"] if moves(Y) else False


@sub("C06", st.fixed_dictionaries(dict(
    p=prim(kinds=("cart",)), step=STEPS)), "position moves", quick=400,
    shards=8)
def position_of_pose(c):
    """The position of a Cartesian DMP moves like a DMP."""
    p = c["p"]
    Y = run(p, c["step"])
    W = np.array(p["w"]).reshape(6, p["nw"])
    q = dict(p, kind="dmp", n=3, w=W[:3].ravel().tolist(),
             start=p["start"][:3], goal=p["goal"][:3])
    for name in ("alpha", "beta", "start_yd"):
        if p.get(name) is not None:
            q[name] = p[name][:3]
    close(run(q, c["step"]), Y[:, :3], "position of Cartesian DMP", 1e-9)
    return ["smooth" if p["smooth"] else "plain"] if moves(
        Y[:, :3]) else False


def rotate_weights(W, R):
    """Rotate weights (6 or 12 or 3 rows) of every block of three rows."""
    return np.vstack([R.dot(W[i:i + 3]) for i in range(0, len(W), 3)])


@st.composite
def rotation_cases(draw):
    p = draw(prim(kinds=("cart", "dual", "sdo")))
    if p.get("alpha") is not None:  # isotropic gains
        p["alpha"] = [p["alpha"][0]] * vel_dims(p)
        p["beta"] = [p["beta"][0]] * vel_dims(p)
    return dict(p=p, r=draw(raw_quat()), step=draw(STEPS))


@sub("C06", rotation_cases(), "the trajectory moves, orientations stay away "
     "from 180 degrees, the rotation is not the identity", quick=640, shards=8)
def rotated_base(c):
    """Rotating the base frame rotates the motion."""
    p = c["p"]
    kind = p["kind"]
    r = quat(c["r"])
    R = rotmat(r)
    q = dict(p)

    def rotate_states(Y):
        Y = np.atleast_2d(np.array(Y, dtype=float))
        Z = Y.copy()
        i = 0
        for k in QUATS[kind]:
            if k > i:
                Z[:, i:k] = Y[:, i:k].dot(R.T)
            Z[:, k:k + 4] = qmul(np.broadcast_to(r, (len(Y), 4)),
                                 Y[:, k:k + 4])
            i = k + 4
        return Z

    for name in POSITIONS:
        q[name] = rotate_states(as_state(kind, p[name]))[0].tolist()
    if "start_yd" in p:
        q["start_yd"] = np.array(p["start_yd"]).reshape(-1, 3).dot(
            R.T).ravel().tolist()
    if "w" in p:
        W = np.array(p["w"]).reshape(vel_dims(p), p["nw"])
        q["w"] = rotate_weights(W, R).ravel().tolist()
    Y = run(p, c["step"])
    if ambiguous(Y, as_state(kind, p["goal"]), kind):
        raise Skip("180 degrees")
    close_poses(run(q, c["step"]), rotate_states(Y), kind,
                "trajectory in rotated base frame", 2e-6)
    return [kind] if moves(Y) and abs(r[0]) < 1 else False


@sub("C06", st.fixed_dictionaries(dict(
    p=prim(kinds=("cart", "dual", "sdo")), r=raw_quat(), step=STEPS)),
    "the trajectory moves, orientations stay away from 180 degrees, the "
    "rotation is not the identity", quick=480, shards=8)
def rotated_body(c):
    """Another end-effector frame: only the orientation offset changes."""
    p = c["p"]
    kind = p["kind"]
    r = quat(c["r"])

    def rotate_states(Y):
        Y = np.atleast_2d(np.array(Y, dtype=float)).copy()
        for k in QUATS[kind]:
            Y[:, k:k + 4] = qmul(Y[:, k:k + 4],
                                 np.broadcast_to(r, (len(Y), 4)))
        return Y

    q = dict(p)
    for name in POSITIONS:
        q[name] = rotate_states(as_state(kind, p[name]))[0].tolist()
    Y = run(p, c["step"])
    if ambiguous(Y, as_state(kind, p["goal"]), kind):
        raise Skip("180 degrees")
    close_poses(run(q, c["step"]), rotate_states(Y), kind,
                "trajectory with rotated end-effector frame", 2e-6)
    return [kind] if moves(Y) and abs(r[0]) < 1 else False


@st.composite
def imitation_cases(draw):
    kind = draw(st.sampled_from(["dmp", "fv", "cart", "dual"]))
    n = draw(st.integers(1, 4)) if kind in ("dmp", "fv") else None
    d = draw(demo(kind, n, steps=(20, 60)))
    return dict(d=d, nw=draw(st.integers(2, 10)), smooth=draw(st.booleans()),
                reg=draw(st.sampled_from([1e-6, 1e-3, 1.0])),
                shift=draw(vec(6, -5, 5)), factor=draw(dec(-3, 3, 2)),
                r=draw(raw_quat()), gains=draw(dec(12, 40, 1)))


@sub("C06", imitation_cases(), "the demonstration moves", quick=640, shards=8)
def imitation(c):
    """Imitation in other coordinates leads to the same motion there."""
    d = c["d"]
    kind, m = d["kind"], vel_dims(d)
    T, Y = demo_arrays(d)
    p = dict(kind=kind, n=d["n"], nw=c["nw"], tau=d["tau"],
             dt=d["tau"] / 40, int_dt=d["tau"] / 40,
             alpha=[c["gains"]] * m, beta=[c["gains"] / 4] * m)
    if kind != "fv":
        p["smooth"] = c["smooth"]
    if ambiguous(Y, Y[-1], kind, 0.1):
        raise Skip("180 degrees")

    def weights(Y, q=p, T=T):
        o = construct(q)
        o.imitate(T, Y, regularization_coefficient=c["reg"])
        return np.array(o.get_weights()).reshape(vel_dims(q), c["nw"])

    W = weights(Y)
    # differentiating twice amplifies rounding errors
    scale = max(1.0, np.abs(W).max()) * max(1.0, np.abs(Y).max())
    tol = 1e-7
    qs = QUATS.get(kind, ())
    free = [i for i in range(Y.shape[1])
            if not any(k <= i < k + 4 for k in qs)]
    free_v = [i for i in range(m) if not qs or i % 6 < 3]
    Z = Y.copy()
    Z[:, free] += np.resize(c["shift"], len(free))
    close(weights(Z), W, "weights after shift", tol, 10 * scale)
    Z = Y.copy()
    Z[:, free] *= c["factor"]
    E = W.copy()
    E[free_v] *= c["factor"]
    close(weights(Z), E, "weights after scaling", tol, 10 * scale)
    if qs:
        r = quat(c["r"])
        R = rotmat(r)
        rr = np.broadcast_to(r, (len(Y), 4))
        Z, B = Y.copy(), Y.copy()
        for k in qs:
            Z[:, k - 3:k] = Y[:, k - 3:k].dot(R.T)
            Z[:, k:k + 4] = qmul(rr, Y[:, k:k + 4])
            B[:, k:k + 4] = qmul(Y[:, k:k + 4], rr)
        # acos limits the accuracy of rotation angles
        loose = 1e-7 * len(T) ** 2 * scale
        close(weights(Z), rotate_weights(W, R), "weights in rotated base "
              "frame", 1.0, loose)
        close(weights(B), W, "weights with rotated end-effector frame", 1.0,
              loose)
    if kind == "dual":
        for a in (0, 1):
            q = dict(p, kind="cart", alpha=p["alpha"][:6], beta=p["beta"][:6])
            close(weights(Y[:, 7 * a:7 * a + 7], q), W[6 * a:6 * a + 6],
                  "weights of single arm", 1e-9, scale)
    if kind == "cart":
        q = dict(p, kind="dmp", n=3, alpha=p["alpha"][:3],
                 beta=p["beta"][:3])
        close(weights(Y[:, :3], q), W[:3], "weights of position", 1e-9, scale)
    if kind in ("dmp", "fv"):
        q = dict(p, n=1, alpha=p["alpha"][:1], beta=p["beta"][:1])
        for i in range(d["n"]):
            close(weights(Y[:, i:i + 1], q)[0], W[i], "weights of a single "
                  "dimension", 1e-9, scale)
    return [kind] if moves(Y) else False
