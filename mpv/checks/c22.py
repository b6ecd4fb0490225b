"""C22 Invalid arguments are rejected without side effects."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.data import generate_minimum_jerk
from movement_primitives.dmp import (
    DMP, CartesianDMP, DMPWithFinalVelocity, DualCartesianDMP,
    StateFollowingDMP)
from movement_primitives.dmp._canonical_system import canonical_system_alpha
from movement_primitives.dmp._forcing_term import ForcingTerm
from movement_primitives.promp import ProMP
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory

from .. import gen
from ..core import sub
from ..gen import dec, vec
from ..util import check, close, raises

ARGS = ("start_y", "start_yd", "start_ydd", "goal_y", "goal_yd", "goal_ydd")


def wrong_size(n):
    return st.sampled_from([m for m in (n - 1, n + 1, 0, 2 * n, 1, n + 4)
                            if m != n and m >= 0])


@st.composite
def invalid_call(draw, p):
    kind = p["kind"]
    n, m = gen.pos_dims(p), gen.vel_dims(p)
    options = ["configure", "configure_several", "step_y", "step_yd"]
    if kind in ("dmp", "cart", "dual"):
        options += ["open_loop_function"]
    if kind == "dmp":
        options += ["step_function"]
    if kind in gen.WEIGHTED:
        options += ["weights", "imitate_regularization", "imitate_T",
                    "imitate_dims", "execution_time"]
    call = draw(st.sampled_from(options))
    c = dict(call=call)
    if call == "configure":
        arg = draw(st.sampled_from(ARGS))
        c["args"] = {arg: draw(wrong_size(n if arg.endswith("_y") else m))}
    elif call == "configure_several":
        wrong = draw(st.sampled_from(ARGS))
        others = draw(st.lists(st.sampled_from(ARGS), max_size=4,
                               unique=True))
        c["args"] = {a: (n if a.endswith("_y") else m) for a in others}
        c["args"][wrong] = draw(wrong_size(n if wrong.endswith("_y") else m))
        if draw(st.booleans()):
            c["t"] = draw(dec(0, 1, 2))
    elif call == "step_y":
        c["size"] = draw(wrong_size(n))
    elif call == "step_yd":
        c["size"] = draw(wrong_size(m))
    elif call in ("open_loop_function", "step_function"):
        c["name"] = draw(st.sampled_from(
            ["", "rk", "RK4", "euler_cython", "rk4-cpp", "heun", "cpython"]))
        c["which"] = draw(st.integers(0, 1))
    elif call == "weights":
        c["size"] = draw(wrong_size(m * p["nw"]).filter(lambda k: k != 0))
    elif call == "imitate_regularization":
        c["value"] = draw(st.sampled_from([-1.0, -1e-3, -1e-10, -5.0]))
        c["final_velocity"] = draw(st.booleans())
    elif call == "imitate_T":
        c["offset"] = draw(st.sampled_from([-3, -1, 1, 2]))
    elif call == "imitate_dims":
        c["size"] = draw(st.sampled_from([k for k in (n - 1, n + 1) if k > 0]))
    elif call == "execution_time":
        c["value"] = draw(st.sampled_from([0.0, -1.0, -0.01, -1e-9, -7.5]))
    c["v"] = draw(vec(3, -1, 1))
    return c


@st.composite
def cases(draw):
    p = draw(gen.prim())
    p["before"] = draw(st.integers(0, 6))
    p["invalid"] = draw(st.lists(invalid_call(p), min_size=1, max_size=2))
    p["after"] = draw(st.sampled_from(["continue", "continue", "reset"]))
    p["setup"] = draw(st.booleans())  # invalid call before configuration?
    return p


def array(size, v):
    a = np.resize(np.array(v), size) + 0.01 * np.arange(size)
    return a


def provoke(o, p, c, y, yd):
    call = c["call"]
    n = gen.pos_dims(p)
    if call.startswith("configure"):
        kw = {a: array(k, c["v"]) for a, k in c["args"].items()}
        if "t" in c:
            kw["t"] = c["t"]
        raises(lambda: o.configure(**kw), "configure(%s)" % ", ".join(
            "%s: %d values" % (a, k) for a, k in sorted(c["args"].items())))
    elif call == "step_y":
        raises(lambda: o.step(array(c["size"], c["v"]), yd),
               "step from a state with %d values" % c["size"])
    elif call == "step_yd":
        raises(lambda: o.step(y, array(c["size"], c["v"])),
               "step from a velocity with %d values" % c["size"])
    elif call == "open_loop_function":
        name = "quaternion_step_function" if (
            p["kind"] == "cart" and c["which"]) else "step_function"
        raises(lambda: o.open_loop(run_t=p["tau"], **{name: c["name"]}),
               "open_loop with unknown step function")
    elif call == "step_function":
        raises(lambda: o.step(y, yd, step_function=c["name"]),
               "step with unknown step function")
    elif call == "weights":
        raises(lambda: o.set_weights(array(c["size"], c["v"])),
               "%d weights" % c["size"])
    elif call.startswith("imitate"):
        steps = 30
        T = np.linspace(0, p["tau"], steps + 1)
        s = gen.as_state(p["kind"], p["start"])
        Y = np.tile(s, (steps + 1, 1))
        for i in range(n):  # positions move, orientations do not
            if not any(q <= i < q + 4 for q in gen.QUATS.get(p["kind"], ())):
                Y[:, i] += np.sin(2 * T / p["tau"]) * c["v"][i % 3]
        if call == "imitate_regularization":
            kw = dict(regularization_coefficient=c["value"])
            if p["kind"] != "fv":
                kw["allow_final_velocity"] = c["final_velocity"]
            raises(lambda: o.imitate(T, Y, **kw), "negative regularization")
        elif call == "imitate_T":
            k = c["offset"]
            T_ = T[:k] if k < 0 else np.append(
                T, p["tau"] + 0.01 * np.arange(1, k + 1))
            raises(lambda: o.imitate(T_, Y), "%d times of %d states"
                   % (len(T_), len(Y)))
        else:
            k = c["size"]
            Y_ = Y[:, :k] if k < n else np.hstack((Y, Y[:, :1]))
            raises(lambda: o.imitate(T, Y_), "demonstration with %d "
                   "dimensions" % k)
    elif call == "execution_time":
        def assign():
            o.execution_time_ = c["value"]
        raises(assign, "duration %g" % c["value"])


@sub("C22", cases(), "movement after the rejected call", quick=4000, shards=8)
def histories(p):
    """A rejected call does not influence what follows."""
    o, twin = gen.construct(p), gen.construct(p)
    y, yd = gen.start_state(p)
    if p["setup"]:
        for c in p["invalid"]:
            provoke(o, p, c, y, yd)
    for b in (o, twin):
        gen.set_parameters(b, p)
        b.configure(**gen.config(p))
    for _ in range(p["before"]):
        y, yd = o.step(y, yd)
    # the twin performs the same steps
    y2, yd2 = gen.start_state(p)
    for _ in range(p["before"]):
        y2, yd2 = twin.step(y2, yd2)
    close(y, y2, "twin", 1e-12)
    if not p["setup"]:
        for c in p["invalid"]:
            provoke(o, p, c, y, yd)
    for name in ARGS[:1] + ARGS[3:4]:
        close(getattr(o, name), getattr(twin, name), name, 0)
    if p["kind"] in gen.WEIGHTED:
        close(o.get_weights(), twin.get_weights(), "weights", 0)
        check(o.execution_time_ == twin.execution_time_, "execution time")
    Y = []
    if p["after"] == "reset":
        for b in (o, twin):
            b.reset()
        y, yd = gen.start_state(p)
    for _ in range(4):
        a, ad = o.step(y, yd)
        b, bd = twin.step(y, yd)
        close(a, b, "position after a rejected call", 1e-12)
        close(ad, bd, "velocity after a rejected call", 1e-12)
        y, yd = a, ad
        Y.append(a)
    T1, Y1 = o.open_loop(run_t=p["tau"])
    T2, Y2 = twin.open_loop(run_t=p["tau"])
    close(T1, T2, "times after a rejected call", 1e-12)
    close(Y1, Y2, "trajectory after a rejected call", 1e-12)
    return [c["call"] for c in p["invalid"]] + [p["kind"]] \
        if np.abs(np.diff(Y1, axis=0)).max() > 1e-6 else False


CLASSES = {"dmp": lambda n, **kw: DMP(n, **kw),
           "fv": lambda n, **kw: DMPWithFinalVelocity(n, **kw),
           "cart": lambda n, **kw: CartesianDMP(**kw),
           "dual": lambda n, **kw: DualCartesianDMP(**kw),
           "sf": lambda n, execution_time=1.0, n_weights_per_dim=3, **kw:
           StateFollowingDMP(n, execution_time, n_viapoints=n_weights_per_dim,
                             **kw)}


@st.composite
def constructions(draw):
    kind = draw(st.sampled_from(sorted(CLASSES)))
    n = draw(st.integers(1, 4))
    m = gen.VEL_DIMS.get(kind, n)
    c = dict(kind=kind, n=n, alpha=draw(dec(5, 40, 1)),
             beta=draw(dec(1, 10, 1)), forms=[
                 draw(st.sampled_from(["float", "int", "one", "list", "array",
                                       "tuple", "intlist"]))
                 for _ in range(2)])
    wrong = draw(st.sampled_from(["alpha_y", "beta_y", "n_weights_per_dim",
                                  "execution_time"]))
    if wrong in ("alpha_y", "beta_y"):
        c["bad"] = draw(st.one_of(
            wrong_size(m).filter(lambda k: k != 1).map(lambda k: [k]),
            st.just([m, m] if m > 1 else [2, 1]), st.just([m, 1])))
    elif wrong == "n_weights_per_dim":
        c["bad"] = draw(st.integers(-3, 0 if kind == "sf" else 1))
    else:
        c["bad"] = draw(st.sampled_from([0.0, -1.0, -1e-6, -20.0, 0]))
    c["wrong"] = wrong
    return c


def gain(form, value, n):
    return {"float": value, "int": int(round(value)), "one": np.array([value]),
            "list": [value] * n, "array": np.full(n, value),
            "tuple": (value,) * n, "intlist": [int(round(value))] * n}[form]


@sub("C22", constructions(), "all", quick=1500, shards=4)
def constructors(c):
    make = CLASSES[c["kind"]]
    n = gen.VEL_DIMS.get(c["kind"], c["n"])
    bad = c["bad"]
    if isinstance(bad, list):
        bad = np.full(bad, 10.0)
    raises(lambda: make(c["n"], **{c["wrong"]: bad}), "%s with %s %r" % (
        c["kind"], c["wrong"], c["bad"]))
    # valid ones are accepted and mean the same
    Y = []
    start = np.linspace(0.1, 0.9, gen.POS_DIMS.get(c["kind"], n))
    goal = start[::-1].copy()
    for i in gen.QUATS.get(c["kind"], ()):
        for s in (start, goal):
            s[i:i + 4] /= np.linalg.norm(s[i:i + 4])
    for forms in (c["forms"], ["array", "array"]):
        vals = [int(round(v)) if "int" in f else v for v, f in zip(
            (c["alpha"], c["beta"]), c["forms"])]
        o = make(c["n"], alpha_y=gain(forms[0], vals[0], n),
                 beta_y=gain(forms[1], vals[1], n), execution_time=0.2,
                 dt=0.01)
        o.configure(start_y=start, goal_y=goal)
        Y.append(o.open_loop(run_t=0.2)[1])
    close(Y[0], Y[1], "gains as %s and %s" % tuple(c["forms"]), 1e-12)
    return [c["wrong"], c["kind"]] + c["forms"]


@st.composite
def function_calls(draw):
    f = draw(st.sampled_from(
        ["minimum_jerk", "alpha", "forcing_term", "promp", "promp_use"]))
    n = draw(st.integers(1, 3))
    c = dict(f=f, n=n, v=draw(vec(3, -1, 1)))
    if f == "minimum_jerk":
        c["bad"] = draw(wrong_size(n).filter(lambda k: k > 0))
        c["swap"] = draw(st.booleans())
    elif f == "alpha":
        c["bad"] = draw(st.sampled_from([
            [0.0, 1.0, 0.0], [-0.01, 1.0, 0.0], [0.01, 1.0, 1.0],
            [0.01, 0.0, 1.0], [0.01, -1.0, 0.0], [-1.0, 0.0, 1.0]]))
    elif f == "forcing_term":
        c["bad"] = draw(st.sampled_from(
            [[1, 1.0, 0.0], [0, 1.0, 0.0], [-1, 1.0, 0.0], [5, 0.0, 0.0],
             [5, 1.0, 1.0], [5, -1.0, 0.0], [5, 0.5, 1.0]]))
    elif f == "promp":
        c["bad"] = draw(st.sampled_from(
            ["n_T", "n_Y", "steps", "dims+", "dims-"] if n > 1 else
            ["n_T", "n_Y", "steps", "dims+"]))
    else:
        c["bad"] = draw(st.sampled_from(
            ["weights_steps", "weights_dims", "trajectory", "condition"]))
    return c


@sub("C22", function_calls(), "all", quick=600, shards=4)
def functions(c):
    n, f, bad = c["n"], c["f"], c["bad"]
    if f == "minimum_jerk":
        a, b = array(n, c["v"]), array(bad, c["v"])
        if c["swap"]:
            a, b = b, a
        raises(lambda: generate_minimum_jerk(a, b), "start with %d and goal "
               "with %d values" % (len(a), len(b)))
        return ["minimum_jerk"]
    if f == "alpha":
        raises(lambda: canonical_system_alpha(*bad), "canonical system %s"
               % bad)
    elif f == "forcing_term":
        raises(lambda: ForcingTerm(n, bad[0], bad[1], bad[2], 0.8, 4.6),
               "forcing term %s" % bad)
    else:
        T = np.tile(np.linspace(0, 1, 21), (3, 1))
        Y = np.array([[array(n, c["v"]) + np.sin(3 * t + d) for t in T[0]]
                      for d in range(3)])
        p = ProMP(n, 4)
        p.imitate(T, Y)
        before = p.mean_trajectory(T[0]), p.var_trajectory(T[0])
        calls = {
            "n_T": lambda: p.imitate(T[:-1], Y),
            "n_Y": lambda: p.imitate(T, Y[:-1]),
            "steps": lambda: p.imitate(T[:, :-1], Y),
            "dims+": lambda: p.imitate(T, np.dstack((Y, Y[:, :, :1]))),
            "dims-": lambda: p.imitate(T, Y[:, :, :-1]),
            "weights_steps": lambda: p.weights(T[0], Y[0, :-1]),
            "weights_dims": lambda: p.weights(T[0], np.hstack((Y[0], Y[0]))),
            "trajectory": lambda: p.trajectory_from_weights(
                T[0], np.zeros(4 * n + 1)),
            "condition": lambda: p.condition_position(
                np.zeros(n + 1 if n > 1 else 2), t=0.5).mean_trajectory(T[0])}
        raises(calls[bad], "ProMP %s" % bad)
        close(p.mean_trajectory(T[0]), before[0], "mean after", 0)
        close(p.var_trajectory(T[0]), before[1], "variance after", 0)
    return [f, str(bad)]


@st.composite
def jerk_cases(draw):
    n = draw(st.integers(1, 3))
    arg = draw(st.sampled_from(["start_y", "goal_y"]))
    return dict(n=n, arg=arg, size=draw(wrong_size(n)), v=draw(vec(3, -1, 1)),
                steps=draw(st.integers(0, 8)))


@sub("C22", jerk_cases(), "all", quick=300, shards=2)
def minimum_jerk(c):
    o = MinimumJerkTrajectory(c["n"], 1.0, 0.1)
    start, goal = array(c["n"], c["v"]), array(c["n"], c["v"][::-1])
    o.configure(start_y=start, goal_y=goal)
    X = []
    for i in range(11):
        if i == c["steps"]:
            raises(lambda: o.configure(**{c["arg"]: array(
                c["size"], c["v"])}), "configure(%s)" % c["arg"])
        X.append(o.step(start, np.zeros(c["n"]))[0])
    close(np.array(X), generate_minimum_jerk(start, goal, 1.0, 0.1)[0],
          "after a rejected call", 1e-9)
