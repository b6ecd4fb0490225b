"""C08 No hidden state survives a reset or an open-loop run."""
import copy

import numpy as np
from hypothesis import strategies as st

from ..core import Skip, sub
from ..gen import (QUATS, STEPPABLE, WEIGHTED, as_state, config, construct,
                   dec, demo, demo_arrays, pos_dims, prim, scaled_vec,
                   set_parameters, state, vec, vel_dims)
from ..util import ambiguous, check, close, close_poses, qexp, qmul


@st.composite
def operations(draw, p):
    kind = p["kind"]
    options = [
        st.tuples(st.just("start"), state(kind, pos_dims(p))),
        st.tuples(st.just("start_yd"), vec(vel_dims(p), -1, 1)),
        st.tuples(st.just("goal"), state(kind, pos_dims(p))),
        st.tuples(st.just("steps"), st.integers(1, 6)),
        st.tuples(st.just("push"), vec(14, -1, 1, 2)),
        # including runs that are shorter than one time step
        st.tuples(st.just("open_loop"), st.one_of(
            dec(0.1, 1.5, 1), st.sampled_from([0.01, 0.03]))),
        st.tuples(st.just("reset"), st.none())]
    if kind in WEIGHTED:
        options += [
            st.tuples(st.just("weights"), scaled_vec(len(p["w"]))),
            st.tuples(st.just("duration"), dec(0.5, 3, 1)),
            st.tuples(st.just("imitate"), demo(kind, p.get("n"),
                                               steps=(10, 20), max_k=0))]
    if kind == "fv":
        options += [st.tuples(st.just("goal_yd"), vec(p["n"], -1, 1))]
    return [list(o) for o in draw(st.lists(
        st.one_of(*options), min_size=3, max_size=9))]


@st.composite
def cases(draw):
    p = draw(prim(kinds=STEPPABLE, max_dims=2, max_weights=5, p_gain=True,
                  min_steps=15, max_steps=25))
    return dict(p=p, ops=draw(operations(p)),
                last=draw(st.sampled_from(
                    ["reset", "start-reset", "reset-start"])),
                again=draw(state(p["kind"], pos_dims(p))),
                first=draw(st.booleans()))


class Model:
    """Parameters that a primitive should have, nothing else."""

    def __init__(self, p):
        self.p = copy.deepcopy(p)
        self.demo = None

    def fresh(self):
        p = self.p
        o = construct(p)
        if self.demo is not None:
            T, Y = demo_arrays(self.demo)
            o.imitate(T, Y, regularization_coefficient=1e-3)
        else:
            set_parameters(o, p)
        o.configure(**config(p))
        return o


@sub("C08", cases(), "the history contains at least one execution and another "
     "operation", quick=4000, shards=8)
def histories(c):
    p = c["p"]
    kind, n = p["kind"], pos_dims(p)
    model = Model(p)
    o = construct(p)
    set_parameters(o, p)
    o.configure(**config(p))
    y = as_state(kind, p["start"])
    yd = np.zeros(vel_dims(p))
    for op, arg in c["ops"]:
        if op == "start":
            model.p["start"] = arg
            o.configure(start_y=as_state(kind, arg))
        elif op == "goal":
            model.p["goal"] = arg
            o.configure(goal_y=as_state(kind, arg))
        elif op in ("start_yd", "goal_yd"):
            model.p[op] = arg
            o.configure(**{op: np.array(arg)})
        elif op == "weights":
            model.p["w"], model.demo = arg, None
            o.set_weights(np.array(arg))
        elif op == "duration":
            model.p["tau"] = arg
            o.execution_time_ = arg
        elif op == "imitate":
            T, Y = demo_arrays(arg)
            o.imitate(T, Y, regularization_coefficient=1e-3)
            model.demo = arg
            model.p["start"], model.p["goal"] = Y[0].tolist(), Y[-1].tolist()
            if kind == "fv":
                h = T[1] - T[0]
                v = np.diff(Y, axis=0) / np.diff(T)[:, np.newaxis]
                model.p["start_yd"] = [0.0] * n
                model.p["start_ydd"] = [0.0] * n
                model.p["goal_yd"] = o.goal_yd.tolist()
                model.p["goal_ydd"] = o.goal_ydd.tolist()
                close(o.goal_yd, v[-1], "final velocity of demonstration",
                      1e-3, scale=max(1.0, np.abs(v).max()) / h)
        elif op == "steps":
            for _ in range(arg):
                y, yd = o.step(y, yd)
        elif op == "push":
            push = 0.3 * np.array(arg[:n])
            measured = y + push
            for i in QUATS.get(kind, ()):
                measured[i:i + 4] = qmul(qexp(push[i:i + 3]), y[i:i + 4])
            y, yd = o.step(measured, yd)
        elif op == "open_loop":
            run_t = arg * p["tau"]
            T, Y = o.open_loop(run_t=run_t)
            Te, Ye = model.fresh().open_loop(run_t=run_t)
            compare(Y, Ye, kind, model, "open loop after " + trace(c))
            close(T, Te, "times", 1e-12)
        elif op == "reset":
            o.reset()
        if not np.all(np.isfinite(y)) or np.abs(y).max() > 1e6:
            y = as_state(kind, p["start"])
            yd = np.zeros(vel_dims(p))
    if c["last"] == "start-reset":
        o.configure(start_y=as_state(kind, c["again"]))
        model.p["start"] = c["again"]
    o.reset()
    if kind not in ("sd", "sdo"):
        close(o.current_y, as_state(kind, model.p["start"]),
              "current state after reset", 1e-12)
        close(o.current_yd, model.p.get("start_yd", [0.0] * vel_dims(p)),
              "current velocity after reset", 1e-12)
    check(o.t == 0.0, "time after reset is %r", o.t)
    if c["last"] == "reset-start":
        o.configure(start_y=as_state(kind, c["again"]))
        model.p["start"] = c["again"]
    expected = model.fresh()
    if c["first"]:  # execution in open loop does not influence the following
        o.open_loop(run_t=0.5 * p["tau"])
    y = as_state(kind, model.p["start"])
    yd = np.array(model.p.get("start_yd", [0.0] * vel_dims(p)), dtype=float)
    ye, yde = y, yd
    A, B = [], []
    for i in range(6):
        # the second half with imperfect tracking
        m = y if i < 3 else y + 0.01 * (np.arange(n) % 3)
        me = ye if i < 3 else ye + 0.01 * (np.arange(n) % 3)
        for k in QUATS.get(kind, ()):
            m[k:k + 4], me[k:k + 4] = y[k:k + 4], ye[k:k + 4]
        # as if somebody had stopped the motion
        y, yd = o.step(m, 0.5 * yd if i == 4 else yd)
        ye, yde = expected.step(me, 0.5 * yde if i == 4 else yde)
        A.append(np.hstack((y, yd)))
        B.append(np.hstack((ye, yde)))
    A, B = np.array(A), np.array(B)
    compare(A[:, :n], B[:, :n], kind, model, "steps after " + trace(c))
    close(A[:, n:], B[:, n:], "velocities after " + trace(c),
          1e-5 if kind in QUATS else 1e-7,
          scale=max(1.0, np.abs(B[:, n:]).max()))
    Y = o.open_loop(run_t=p["tau"])[1]
    Z = o.open_loop(run_t=p["tau"])[1]
    Ye = expected.open_loop(run_t=p["tau"])[1]
    compare(Y, Ye, kind, model, "open loop after " + trace(c))
    compare(Z, Ye, kind, model, "second open loop after " + trace(c))
    kinds = set(op for op, _ in c["ops"])
    if len(kinds) > 1 and kinds & {"steps", "push", "open_loop"}:
        return [kind, c["last"]] + sorted("op/" + k for k in kinds)
    return False


def trace(c):
    return ", ".join(op for op, _ in c["ops"]) + "; " + c["last"]


def compare(Y, Ye, kind, model, what):
    if not np.all(np.isfinite(Ye)) or np.max(np.abs(Ye)) > 1e5:
        raise Skip("diverging")
    if ambiguous(Ye, as_state(kind, model.p["goal"]), kind, 1e-4):
        raise Skip("180 degrees")
    close_poses(Y, Ye, kind, what, 1e-5 if kind in QUATS else 1e-7)
