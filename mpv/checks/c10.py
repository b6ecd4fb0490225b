"""C10 Weights can be read, stored and written back without loss."""
import numpy as np
from hypothesis import strategies as st

from ..core import Skip, sub
from ..gen import (QUATS, WEIGHTED, as_state, build, construct, dec, demo,
                   demo_arrays, pos_dims, prim, scaled_vec, start_state, state,
                   vel_dims)
from ..util import ambiguous, check, close, close_poses, qconj, qlog, qmul

PRIM = prim(kinds=WEIGHTED, max_weights=12, min_steps=15, max_steps=25)


@st.composite
def histories(draw):
    p = draw(PRIM)
    kind = p["kind"]
    n = len(p["w"])
    op = st.one_of(
        st.tuples(st.just("set"), scaled_vec(n)),
        st.tuples(st.just("read"), st.none()),
        st.tuples(st.just("write back"), st.integers(0, 9)),
        st.tuples(st.just("change one slightly"), st.tuples(
            st.integers(0, n - 1), st.sampled_from([1e-9, 1e-6, 1e-3]))),
        st.tuples(st.just("overwrite what was read"), st.integers(0, 9)),
        st.tuples(st.just("steps"), st.integers(1, 4)),
        st.tuples(st.just("open_loop"), st.none()),
        st.tuples(st.just("one step"), st.none()),
        st.tuples(st.just("reset"), st.none()),
        st.tuples(st.just("configure"), state(kind, pos_dims(p))),
        st.tuples(st.just("duration"), dec(0.3, 4, 2)),
        st.tuples(st.just("imitate"), demo(kind, p.get("n"), steps=(10, 15),
                                           max_k=0)))
    return dict(p=p, ops=[list(o) for o in draw(
        st.lists(op, min_size=2, max_size=10))])


@sub("C10", histories(), "weights are read or written after another "
     "operation", quick=2400, shards=8)
def interleavings(c):
    """The weights are exactly those written last."""
    p = c["p"]
    kind = p["kind"]
    o = construct(p)
    n = vel_dims(p) * p["nw"]
    close(o.get_weights(), np.zeros(n), "initial weights", 0)
    o = build(p)
    if hasattr(o, "n_weights"):
        check(o.n_weights == n, "announces %s weights instead of %d",
              o.n_weights, n)
    expected = np.array(p["w"])
    kept = []  # (array returned, values)
    y, yd = start_state(p)
    for op, arg in c["ops"]:
        if op == "set":
            w = np.array(arg)
            o.set_weights(w)
            expected = np.array(arg)
            w[:] = 1e3  # the caller may reuse the array
        elif op == "read":
            w = o.get_weights()
            check(isinstance(w, np.ndarray), "weights are no array")
            close(w, expected, "weights read", 1e-12)
            kept.append((w, w.copy()))
        elif op == "write back" and kept:
            w, values = kept[arg % len(kept)]
            o.set_weights(w)
            expected = values.copy()
        elif op == "change one slightly":
            i, factor = arg
            expected = expected.copy()
            expected[i] += factor * max(1.0, abs(expected[i]))
            o.set_weights(expected.copy())
            w = o.get_weights()
            close(w[i], expected[i], "slightly changed weight", 1e-14,
                  scale=max(1.0, abs(expected[i])))
        elif op == "overwrite what was read" and kept:
            w, values = kept[arg % len(kept)]
            w[:] = values[:] = 7.5
        elif op == "steps":
            for _ in range(arg):
                y, yd = o.step(y, yd)
        elif op == "open_loop":
            o.open_loop(run_t=0.5 * p["tau"])
        elif op == "one step":
            o.open_loop(run_t=0.5 * p["dt"])
        elif op == "reset":
            o.reset()
        elif op == "configure":
            o.configure(goal_y=as_state(kind, arg))
        elif op == "duration":
            o.execution_time_ = arg
        elif op == "imitate":
            T, Y = demo_arrays(arg)
            o.imitate(T, Y, regularization_coefficient=1e-3)
            fresh = construct(p)
            fresh.imitate(T, Y, regularization_coefficient=1e-3)
            expected = np.array(fresh.get_weights())
        close(o.get_weights(), expected, "weights after " + op, 1e-12)
        for w, values in kept:
            close(w, values, "weights read before " + op, 0)
    # the next motion is the one of the current weights
    fresh = build(dict(p, used=0))
    for op, arg in c["ops"]:
        if op == "configure":
            fresh.configure(goal_y=as_state(kind, arg))
        elif op == "duration":
            fresh.execution_time_ = arg
        elif op == "imitate":
            fresh.imitate(*demo_arrays(arg), regularization_coefficient=1e-3)
    fresh.set_weights(expected)
    for run_t in (0.5 * p["dt"], 4.5 * p["dt"]):
        close_poses(o.open_loop(run_t=run_t)[1],
                    fresh.open_loop(run_t=run_t)[1], kind,
                    "motion with these weights",
                    1e-5 if kind in QUATS else 1e-9)
    names = [op for op, _ in c["ops"]]
    return [kind] + sorted("op/" + k for k in set(names))


@sub("C10", st.tuples(PRIM, PRIM, st.booleans(), st.booleans()).map(
    lambda a: dict(a=a[0], b=dict(a[0], w=[1.5] * len(a[0]["w"]),
                                  tau=a[1]["tau"]), run=a[2], dur=a[3])),
    "weights are not all zero", quick=1200, shards=8)
def transfer(c):
    """Weights of one primitive make another one move in the same way."""
    a, b = build(c["a"]), build(c["b"])
    kind = c["a"]["kind"]
    if c["run"]:
        b.open_loop(run_t=0.3)
    b.execution_time_ = c["a"]["tau"]
    b.set_weights(a.get_weights())
    if not c["dur"]:  # change the duration back and forth afterwards
        b.execution_time_ = 2 * c["a"]["tau"]
        b.execution_time_ = c["a"]["tau"]
    Ya = a.open_loop()[1]
    if ambiguous(Ya, as_state(kind, c["a"]["goal"]), kind, 1e-4):
        raise Skip("180 degrees")
    close_poses(b.open_loop()[1], Ya, kind, "trajectory with copied weights",
                1e-5 if kind in QUATS else 1e-9)
    return [kind] if any(c["a"]["w"]) else False


@st.composite
def single(draw):
    p = draw(PRIM)
    return dict(p=p, index=draw(st.integers(0, len(p["w"]) - 1)),
                delta=draw(st.sampled_from([-30.0, 5.0, 60.0])))


@sub("C10", single(), "the changed weight has an effect", quick=2400, shards=8)
def influence(c):
    """Entry i belongs to dimension i // n_weights_per_dim only."""
    p = c["p"]
    kind, m = p["kind"], vel_dims(p)
    dim, pos_in_dim = divmod(c["index"], p["nw"])
    w = list(p["w"])
    # start and goal orientations coincide so that axes do not mix
    start, goal = start_state(p)[0], as_state(kind, p["goal"])
    for q in QUATS.get(kind, ()):
        goal[q:q + 4] = start[q:q + 4]
    p = dict(p, goal=goal.tolist())
    p.pop("start_yd", None)
    if kind in QUATS:
        w = [v if i // p["nw"] % 6 < 3 else 0.0 for i, v in enumerate(w)]
    p["w"] = w
    changed = list(w)
    changed[c["index"]] += c["delta"]
    o, oc = build(p), build(dict(p, w=changed))
    run_t = 1.2 * p["tau"]
    A, B = o.open_loop(run_t=run_t)[1], oc.open_loop(run_t=run_t)[1]
    A, B = to_vectors(A, start, kind), to_vectors(B, start, kind)
    diff = np.abs(A - B).max(axis=0)
    check(len(diff) == m, "dimensions")
    for d in range(m):
        if d != dim:
            tol = 1e-6 if kind in QUATS else 1e-12
            check(diff[d] <= tol * max(1.0, np.abs(A[:, d]).max()),
                  "weight %d of %d changes dimension %d by %.3g", c["index"],
                  len(w), d, diff[d])
    check(diff[dim] > 1e-6, "weight %d of %d has no effect on dimension %d",
          c["index"], len(w), dim)
    # early weights act first
    return [kind, "first" if pos_in_dim == 0 else
            "last" if pos_in_dim == p["nw"] - 1 else "inner"]


def to_vectors(Y, start, kind):
    """Replace quaternions by rotation vectors relative to the start."""
    parts, k = [], 0
    for q in QUATS.get(kind, ()):
        parts.append(Y[:, k:q])
        S = np.broadcast_to(qconj(start[q:q + 4]), (len(Y), 4))
        r = qlog(qmul(Y[:, q:q + 4], S))
        parts.append(r)
        k = q + 4
    parts.append(Y[:, k:])
    return np.hstack(parts)


@sub("C10", st.tuples(prim(kinds=("dmp", "cart", "dual"), max_weights=12,
                           start_vel=False), st.integers(0, 11)).map(
    lambda a: dict(p=a[0], k=a[1] % a[0]["nw"])),
    "every case", quick=600, shards=8)
def order_within_dimension(c):
    """Later entries of a dimension act later."""
    p = dict(c["p"])
    kind, m, nw = p["kind"], vel_dims(p), p["nw"]
    start = start_state(p)[0]
    p["goal"] = start.tolist()
    k = c["k"]
    if k + 1 >= nw:
        return False
    means = []
    for i in (k, k + 1):
        w = np.zeros((m, nw))
        w[:, i] = 10.0
        T, Y = build(dict(p, w=w.ravel().tolist())).open_loop(
            run_t=2 * p["tau"])
        X = np.abs(to_vectors(Y, start, kind) - to_vectors(
            start[np.newaxis], start, kind))
        check(np.all(X.max(axis=0) > 0), "weights have no effect")
        means.append(T.dot(X) / X.sum(axis=0))
    check(np.all(means[1] >= means[0] - 1e-6),
          "weight %d of %d acts before weight %d", k + 1, nw, k)
    return [kind]
