"""C04 Imitation reproduces the demonstration."""
import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Skip, sub
from ..gen import (QUATS, as_state, build, construct, dec, demo, demo_arrays,
                   prim, vel_dims)
from ..util import check, close, close_poses, qconj, qlog, qmul, scale_of

KINDS = ("dmp", "cart", "dual", "fv")
TOLERANCE = {10: 0.03, 20: 6e-3, 40: 6e-4}


@st.composite
def structure(draw, d, nw=None):
    """Primitive that fits to a demonstration."""
    m = vel_dims(d)
    kind = d["kind"]
    a = draw(dec(12, 40, 1))
    p = dict(kind=kind, n=d["n"], tau=d["tau"],
             alpha=[a] * m, beta=[a / 4] * m,
             nw=draw(st.sampled_from(sorted(TOLERANCE))) if nw is None else nw)
    if draw(st.booleans()):
        p["alpha"] = [round(a + i, 2) for i in range(m)]
        p["beta"] = [v / 4 for v in p["alpha"]]
    if kind != "fv":
        p["smooth"] = draw(st.booleans())
    return p


@st.composite
def smooth_cases(draw, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(1, 3)) if kind in ("dmp", "fv") else None
    d = draw(demo(kind, n, skew=True))
    return dict(d=d, p=draw(structure(d)))


def rotations_safe(kind, Y):
    """All orientations less than 180 degrees from the goal?"""
    return all(np.max(np.linalg.norm(qlog(qmul(
        np.broadcast_to(Y[-1, i:i + 4], (len(Y), 4)),
        qconj(Y[:, i:i + 4]))), axis=1)) < 2.8 for i in QUATS.get(kind, ()))


@sub("C04", smooth_cases(),
     "the demonstration moves by more than 0.01", quick=640, shards=8)
def reproduction(c):
    """Error of imitation, extrapolated to small time steps."""
    d, p = c["d"], c["p"]
    kind = p["kind"]
    base = 100
    runs = []
    _, demonstration = demo_arrays(d, base, uniform=True)
    if not rotations_safe(kind, demonstration):
        raise Skip("rotation by about 180 degrees")
    for level in (1, 2, 4):
        T, Y = demo_arrays(d, base * level)
        dt = d["tau"] / base / level
        o = construct(p, dt=dt, int_dt=dt)
        o.imitate(T, Y)
        Tr, Yr = o.open_loop(run_t=d["tau"] - 0.5 * dt)
        close_poses(Yr[0], Y[0], kind, "start of reproduction", 1e-9)
        runs.append(ref.align(Yr[::level][:base], demonstration[:base], kind))
    expected = demonstration[:base]
    size = max(0.05, float(np.ptp(demonstration, axis=0).max()))
    limit, estimate = ref.romberg(runs)
    error = float(np.max(np.abs(limit - expected)))
    tol = TOLERANCE[p["nw"]] * size
    check(error <= tol, "reproduction with %d weights differs from the "
          "demonstration by %.3g (allowed %.3g) for small steps", p["nw"],
          error, tol)
    worst = float(np.max(np.abs(runs[-1] - expected)))
    check(worst <= 0.05 * size, "reproduction differs by %.3g", worst)
    # the goal is the end of the demonstration
    Tl, Yl = o.open_loop(run_t=3 * d["tau"])
    close_poses(Yl[-1], demonstration[-1], kind, "final position",
                0.01 * size, 1.0)
    return [kind, "weights/%d" % p["nw"], "equidistant" if d["skew"] == 0.0
            else "not equidistant"] if np.ptp(
        demonstration, axis=0).max() > 0.01 else False


@sub("C04", st.tuples(prim(kinds=KINDS, max_dims=3, max_weights=12,
                           start_vel=False, weight_scales=(1., 20., 100.)),
                      dec(20, 40, 1)).map(lambda a: dict(
                          p=dict(a[0], alpha=[a[1]] * vel_dims(a[0]),
                                 beta=[a[1] / 4] * vel_dims(a[0])))),
     "the trajectory moves by more than 0.01 and turns by less than 160 "
     "degrees", quick=400, shards=8)
def recovery(c):
    """Imitation of a trajectory of a primitive of the same structure."""
    p = c["p"]
    kind, tau = p["kind"], p["tau"]
    if kind == "fv":  # its imitation assumes rest at the beginning
        p["start_ydd"] = [0.0] * p["n"]
    originals, copies = [], []
    for level in (1, 2, 4):
        dt = tau / (100 * level)
        q = dict(p, dt=dt, int_dt=dt)
        T, Y = build(q).open_loop(run_t=tau - 0.5 * dt)
        if not rotations_safe(kind, np.vstack((
                Y, as_state(kind, p["goal"])))):
            raise Skip("rotation by about 180 degrees")
        o = construct(q)
        o.imitate(T, Y)
        _, Z = o.open_loop(run_t=tau - 0.5 * dt)
        originals.append(Y[::level][:100])
        copies.append(Z[::level][:100])
    first = originals[0]
    A, _ = ref.romberg([ref.align(Y, first, kind) for Y in originals])
    B, _ = ref.romberg([ref.align(Y, first, kind) for Y in copies])
    size = max(0.3, float(np.ptp(A, axis=0).max()),
               tau * np.max(np.abs(p.get("goal_yd", [0.0]))))
    error = float(np.max(np.abs(A - B)))
    check(error <= 0.08 * size, "imitation of its own trajectory differs by "
          "%.3g (size of movement %.3g)", error, size)
    return [kind] if np.ptp(A, axis=0).max() > 0.01 else False


@st.composite
def repeated_cases(draw):
    kind = draw(st.sampled_from(KINDS))
    n = draw(st.integers(1, 3)) if kind in ("dmp", "fv") else None
    d1 = draw(demo(kind, n, steps=(20, 60)))
    d2 = draw(demo(kind, n, steps=(20, 60)))
    p = draw(structure(d1, draw(st.integers(2, 12))))
    p["dt"] = p["int_dt"] = p["tau"] / 30
    return dict(d1=d1, d2=d2, p=p, reg=draw(st.sampled_from(
        [0.0, 1e-6, 1e-3, 1.0])), steps=draw(st.integers(0, 5)),
        execute=draw(st.booleans()))


def weights_of(o):
    return np.array(o.get_weights())


@sub("C04", repeated_cases(), "the demonstrations differ", quick=600,
     shards=4)
def repeated(c):
    """Imitation does not depend on what happened before."""
    T1, Y1 = demo_arrays(c["d1"])
    T2, Y2 = demo_arrays(c["d2"])
    used, fresh = construct(c["p"]), construct(c["p"])
    used.imitate(T1, Y1, regularization_coefficient=0.1 * c["reg"])
    y, yd = Y1[0].copy(), np.zeros(vel_dims(c["p"]))
    for _ in range(c["steps"]):
        y, yd = used.step(y, yd)
    if c["execute"]:
        used.open_loop()
    used.imitate(T2, Y2, regularization_coefficient=c["reg"])
    fresh.imitate(T2, Y2, regularization_coefficient=c["reg"])
    w = weights_of(fresh)
    close(weights_of(used), w, "weights after second imitation", 1e-9)
    used.imitate(T2, Y2, regularization_coefficient=c["reg"])
    close(weights_of(used), w, "weights after third imitation", 1e-9)
    used.reset()
    fresh.reset()
    close_poses(used.open_loop()[1], fresh.open_loop()[1], c["p"]["kind"],
                "trajectory after second imitation", 1e-6)
    return [c["p"]["kind"]] if c["d1"] != c["d2"] else False


@sub("C04", st.tuples(repeated_cases(), st.lists(
    st.sampled_from([1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0, 10.0, 1e3]),
    min_size=2, max_size=4, unique=True)).map(
        lambda a: dict(a[0], regs=sorted(a[1]))),
    "the least regularized weights are not zero", quick=600, shards=4)
def regularization(c):
    """Stronger regularization: smaller weights, larger residual."""
    T, Y = demo_arrays(c["d1"])
    m = vel_dims(c["p"])
    norms = []
    for reg in c["regs"]:
        o = construct(c["p"])
        o.imitate(T, Y, regularization_coefficient=reg)
        norms.append(np.linalg.norm(
            weights_of(o).reshape(m, c["p"]["nw"]), axis=1))
    for a, b in zip(norms, norms[1:]):
        check(np.all(b <= a * (1 + 1e-6) + 1e-9),
              "weights grow with regularization: %s", norms)
    if norms[0].max() > 1e-6 and c["regs"][-1] == 1e3:
        check(norms[-1].max() < norms[0].max(),
              "strong regularization has no influence")
    return [c["p"]["kind"]] if norms[0].max() > 1e-9 else False


@st.composite
def final_velocity_cases(draw):
    c = draw(smooth_cases(("dmp", "fv")))
    c["p"]["nw"] = 40
    m = vel_dims(c["d"])
    c["vel"] = [round(v, 3) for v in draw(
        st.lists(dec(-0.6, 0.6, 2), min_size=m, max_size=m))]
    return c


@sub("C04", final_velocity_cases(), "the final velocity is not zero",
     quick=320, shards=8)
def final_velocity(c):
    """Demonstrations that end with a velocity, if this is allowed."""
    d, p = c["d"], c["p"]
    kind = p["kind"]
    base = 100
    v = np.array(c["vel"])

    def demonstration(steps, uniform=False):
        T, Y = demo_arrays(d, steps, uniform)
        s = (T[:, np.newaxis] - T[0]) / d["tau"]
        return T, Y + s ** 4 * v

    _, Yd = demonstration(base, True)
    size = max(0.3, float(np.ptp(Yd, axis=0).max()))
    runs = []
    for level in (1, 2, 4):
        T, Y = demonstration(base * level)
        dt = d["tau"] / base / level
        o = construct(p, dt=dt, int_dt=dt)
        if kind == "fv":
            o.imitate(T, Y)
        else:
            o.imitate(T, Y, allow_final_velocity=True)
        runs.append(o.open_loop(run_t=d["tau"] - 0.5 * dt)[1][::level][:base])
    limit, _ = ref.romberg(runs)
    error = float(np.max(np.abs(limit - Yd[:base])))
    check(error <= 0.01 * size, "reproduction of a movement with final "
          "velocity differs by %.3g", error)
    return [kind] if np.any(v) else False
