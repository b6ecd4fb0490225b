"""C15 Saved movement primitives behave like the originals when loaded."""
import copy
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from movement_primitives import io
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory
from movement_primitives.promp import ProMP

from ..core import Skip, sub
from ..gen import (STEPPABLE, WEIGHTED, as_state, config, construct, dec, demo,
                   demo_arrays, pos_dims, prim, set_parameters, start_state,
                   vec)
from ..util import check, close

FORMATS = {"pickle": (io.write_pickle, io.read_pickle),
           "json": (io.write_json, io.read_json),
           "yaml": (io.write_yaml, io.read_yaml)}
FORMAT = st.sampled_from(sorted(FORMATS))


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="mpv-io-")
        return self

    def __exit__(self, *args):
        shutil.rmtree(self.path)

    def round_trip(self, o, fmt):
        write, read = FORMATS[fmt]
        name = os.path.join(self.path, "file")
        write(name, o)
        loaded = read(name)
        check(type(loaded) is type(o), "loaded object has another type")
        again = os.path.join(self.path, "again")
        write(again, loaded)
        with open(name, "rb") as f, open(again, "rb") as g:
            same = f.read() == g.read()
        check(same or fmt == "pickle", "saving the loaded object in %s "
              "changes the file", fmt)
        return loaded, read(again)


@st.composite
def cases(draw):
    p = draw(prim(kinds=STEPPABLE, max_dims=3, p_gain=True, min_steps=15,
                  max_steps=30))
    c = dict(p=p, fmt=draw(FORMAT), steps=draw(st.integers(0, 12)),
             reset=draw(st.booleans()), configured=draw(st.integers(0, 9)) != 9,
             numpy=draw(st.booleans()), tau2=draw(st.one_of(
                 st.none(), dec(0.5, 3, 1))))
    if p["kind"] in WEIGHTED and draw(st.booleans()):
        c["demo"] = draw(demo(p["kind"], p.get("n"), steps=(10, 20), max_k=0))
    if draw(st.integers(0, 4)) == 0:  # values written in exponential notation
        p["dt"] = p["int_dt"] = 5e-5
    elif draw(st.integers(0, 3)) == 0:  # movement has been completed
        c["steps"] = int(np.ceil(max(p.get("tau") or 0.0, c["tau2"] or 0.0)
                                 / p["dt"])) + 3
        if c["steps"] > 120:
            c["steps"] = 12
    return c


def prepare(c):
    p = copy.deepcopy(c["p"])
    if c["numpy"]:
        for k in ("tau", "dt", "int_dt", "k", "c", "p_gain"):
            if p.get(k) is not None:
                p[k] = np.float64(p[k])
        for k in ("n", "nw", "nv"):
            if k in p:
                p[k] = np.int64(p[k])
        if "smooth" in p:
            p["smooth"] = np.bool_(p["smooth"])
    o = construct(p)
    y, yd = start_state(p)
    if not c["configured"]:
        return o, None
    set_parameters(o, p)
    if "demo" in c:
        T, Y = demo_arrays(c["demo"])
        o.imitate(T, Y, regularization_coefficient=1e-3)
        y, yd = Y[0].copy(), np.zeros(len(yd))
    else:
        o.configure(**config(p))
    if c["tau2"] and p["kind"] in WEIGHTED:
        o.execution_time_ = c["tau2"]
    for i in range(c["steps"]):
        y, yd = o.step(y, yd)
    if c["reset"]:
        o.reset()
    return o, (y, yd)


def behaviour(o, c, state):
    """Everything that can be observed: continued motion, open loop."""
    r = []
    if state is None:
        state = start_state(c["p"])
        o.configure(**config(c["p"]))
    y, yd = state
    for i in range(5):
        m = y.copy()
        if i == 2 and c["p"]["kind"] not in ("cart", "dual", "sdo"):
            m += 0.01
        y, yd = o.step(m, yd)
        r += [y, yd]
    run_t = 15 * c["p"]["dt"]
    T, Y = o.open_loop(run_t=run_t)
    r += [T, Y]
    if c["p"]["kind"] in WEIGHTED:
        r.append(o.get_weights())
        o.execution_time_ = 1.5
        r.append(o.open_loop(run_t=run_t)[1])
    o.reset()
    y, yd = o.step(*start_state(c["p"]))
    r += [y, yd, o.open_loop(run_t=run_t)[1]]
    return r


@sub("C15", cases(), "object was configured", quick=1200, shards=8)
def primitives(c):
    o, state = prepare(c)
    with Scratch() as s:
        loaded, again = s.round_trip(o, c["fmt"])
    expected = behaviour(o, c, state)  # original after saving
    never_saved = behaviour(prepare(c)[0], c, state)
    for what, other in (("loaded object", behaviour(loaded, c, state)),
                        ("object saved twice", behaviour(again, c, state)),
                        ("original", never_saved)):
        for i, (a, b) in enumerate(zip(other, expected)):
            if not np.all(np.isfinite(b)):
                raise Skip("diverges")
            close(a, b, "%s (%s), result %d" % (what, c["fmt"], i), 1e-9)
    kind = c["p"]["kind"]
    return [kind + "/" + c["fmt"], "imitated" if "demo" in c else "configured",
            "at start" if c["reset"] or not c["steps"] else
            "running" if c["steps"] <= 12 else "completed"] if c["configured"] else False


@sub("C15", st.fixed_dictionaries(dict(
    fmt=FORMAT, n=st.integers(1, 3), nw=st.one_of(
        st.integers(2, 6), st.integers(2, 6), st.integers(12, 40)),
    how=st.sampled_from(
        ["new", "distribution", "imitated", "conditioned"]),
    w=vec(18), L=vec(18), T=dec(0.2, 3, 1), t=dec(0, 1, 2), y=vec(3),
    numpy=st.booleans())),
    "distribution is not the initial one", quick=600, shards=8)
def promps(c):
    n, nw = c["n"], c["nw"]
    T = np.linspace(0, c["T"], 20)
    num = n * nw
    vectors = dict((k, np.resize(c[k], num) + (
        0.1 * np.sin(np.arange(num)) if num > 18 else 0.0))
                   for k in ("w", "L"))

    def make():
        o = ProMP(np.int64(n) if c["numpy"] else n,
                  np.int64(nw) if c["numpy"] else nw)
        if c["how"] in ("distribution", "conditioned"):
            a = vectors["L"]
            o.from_weight_distribution(vectors["w"].copy(),
                                       np.eye(num) + np.outer(a, a))
        if c["how"] == "imitated":
            demos = [o.trajectory_from_weights(T, vectors[k])
                     for k in ("w", "L")]
            o.imitate([T, T], np.array(demos) + 0.01 * np.sin(
                7 * T)[:, np.newaxis], n_iter=5)
        if c["how"] == "conditioned":
            o = o.condition_position(np.array(c["y"][:n]), t=c["t"])
        return o

    def observe(o):
        cond = o.condition_position(np.array(c["y"][:n]), 0.1 * np.eye(n),
                                    t=0.4)
        return [o.mean_trajectory(T), o.cov_trajectory(T), o.var_trajectory(T),
                o.mean_velocities(T), o.var_velocities(T),
                cond.mean_trajectory(T), cond.var_trajectory(T),
                o.sample_trajectories(T, 2, np.random.RandomState(0))]

    o = make()
    with Scratch() as s:
        loaded, again = s.round_trip(o, c["fmt"])
    expected = observe(make())
    for what, other in (("loaded", loaded), ("twice", again),
                        ("original", o)):
        for i, (a, b) in enumerate(zip(observe(other), expected)):
            close(a, b, "%s ProMP (%s), result %d" % (what, c["fmt"], i),
                  1e-7)
    return [c["how"] + "/" + c["fmt"], "%s weights" % (
        "up to 18" if num <= 18 else "many")] if c["how"] != "new" else False


@sub("C15", st.fixed_dictionaries(dict(
    fmt=FORMAT, n=st.integers(1, 3), steps=st.integers(3, 20),
    dt=st.sampled_from([0.01, 0.1, 0.05, 5e-5]), start=vec(3), goal=vec(3),
    done=st.integers(0, 12), numpy=st.booleans())),
    "some steps were executed", quick=400, shards=4)
def minimum_jerk(c):
    n = c["n"]

    def make():
        dt = np.float64(c["dt"]) if c["numpy"] else c["dt"]
        o = MinimumJerkTrajectory(n, execution_time=c["steps"] * dt, dt=dt)
        o.configure(start_y=np.array(c["start"][:n]),
                    goal_y=np.array(c["goal"][:n]))
        y, yd = np.array(c["start"][:n]), np.zeros(n)
        for _ in range(min(c["done"], c["steps"])):
            y, yd = o.step(y, yd)
        return o, y, yd

    def observe(o, y, yd):
        r = []
        for _ in range(c["steps"] - min(c["done"], c["steps"])):
            y, yd = o.step(y, yd)
            r += [y, yd]
        o.reset()
        return r + list(o.step(y, yd))

    o, y, yd = make()
    with Scratch() as s:
        loaded, again = s.round_trip(o, c["fmt"])
    expected = observe(*make())
    for other in (loaded, again, o):
        for a, b in zip(observe(other, y, yd), expected):
            close(a, b, "minimum jerk trajectory", 1e-12)
    return [c["fmt"]] if c["done"] else False
