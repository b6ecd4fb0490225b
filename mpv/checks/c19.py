"""C19 Minimum jerk trajectories connect start and goal as documented."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.data import generate_minimum_jerk
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory

from ..core import sub
from ..gen import dec, vec
from ..util import check, close, raises


@st.composite
def cases(draw, max_steps=300):
    n = draw(st.integers(1, 4))
    steps = draw(st.one_of(st.integers(2, 20), st.integers(2, max_steps)))
    mode = draw(st.integers(0, 2))
    if mode == 0:
        dt = draw(st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.03, 0.07, 0.001]))
        duration = round(steps * dt, 9)
    elif mode == 1:
        dt = draw(dec(0.001, 0.2, 4))
        duration = steps * dt
    else:
        duration = draw(dec(0.1, 30, 2))
        dt = duration / steps
    return dict(n=n, steps=steps, dt=dt, duration=duration,
                start=draw(vec(n, -5, 5)), goal=draw(vec(n, -5, 5)))


def shape(s):
    return s ** 3 * (10 - 15 * s + 6 * s ** 2)


def verify(c, X, Xd, Xdd=None):
    steps, dt, duration = c["steps"], c["dt"], c["duration"]
    start, goal = np.array(c["start"]), np.array(c["goal"])
    n = c["n"]
    check(X.shape == (steps + 1, n), "shape %s for %d steps", X.shape, steps)
    check(Xd.shape == X.shape, "shape of velocities")
    size = 1.0 + np.abs(np.hstack((start, goal))).max()
    close(X[0], start, "start", 0)
    close(X[-1], goal, "goal", 1e-8 * size)
    delta = goal - start
    big = np.abs(delta).max()
    v, a = big / duration, big / duration ** 2
    close(Xd[0], np.zeros(n), "velocity at the start", 0)
    close(Xd[-1], np.zeros(n), "velocity at the end", 1e-7, v + 1e-9)
    if Xdd is not None:
        check(Xdd.shape == X.shape, "shape of accelerations")
        close(Xdd[0], np.zeros(n), "acceleration at the start", 0)
        close(Xdd[-1], np.zeros(n), "acceleration at the end", 1e-5, a + 1e-9)
    # all dimensions follow the same profile
    d = int(np.argmax(np.abs(delta)))
    if big < 1e-9:
        close(X, np.broadcast_to(start, X.shape), "no motion", 1e-9)
        return False
    s = (X[:, d] - start[d]) / delta[d]
    close(X, start + np.outer(s, delta), "same profile in all dimensions",
          1e-7 * size, 1.0)
    check(np.all(np.diff(s) >= -1e-9), "moves backwards")
    # minimum jerk profile, up to one step
    t = dt * np.arange(steps + 1) / duration
    late, early = shape(np.minimum(t, 1)), shape(np.minimum(t + dt / duration,
                                                            1))
    early = np.maximum(early, shape(np.minimum(t * steps / (steps - 1), 1)))
    check(np.all(s >= late - 1e-6) and np.all(s <= early + 1e-6),
          "positions differ from the minimum jerk profile")
    # the continuous profile through the samples has some duration
    D = dt * (steps - 1)
    for duration_of_profile in (D, duration):
        if np.abs(s - shape(np.minimum(dt * np.arange(
                steps + 1) / duration_of_profile, 1))).max() < 1e-6:
            break
    else:
        check(False, "positions are not those of a minimum jerk trajectory")
    u = np.minimum(dt * np.arange(steps + 1) / duration_of_profile, 1)
    vel = 30 * u ** 2 * (1 - u) ** 2 / duration_of_profile
    close(Xd, np.outer(vel, delta), "velocities are derivatives", 1e-5,
          v + 1e-9)
    if Xdd is not None:
        acc = 60 * u * (1 - u) * (1 - 2 * u) / duration_of_profile ** 2
        close(Xdd, np.outer(acc, delta), "accelerations are derivatives",
              1e-4, a + 1e-9)
    return True


@sub("C19", cases(), "start and goal differ", quick=3000, shards=8)
def generator(c):
    start, goal = np.array(c["start"]), np.array(c["goal"])
    X, Xd, Xdd = generate_minimum_jerk(start, goal, c["duration"], c["dt"])
    return ["%d dims" % c["n"]] if verify(c, X, Xd, Xdd) else False


@st.composite
def sequences(draw):
    c = draw(cases(max_steps=40))
    n = c["n"]
    c["ops"] = [list(o) for o in draw(st.lists(st.one_of(
        st.tuples(st.just("steps"), st.integers(1, 50)),
        st.tuples(st.just("all"), st.none()),
        st.tuples(st.just("reset"), st.none()),
        st.tuples(st.just("goal"), vec(n, -5, 5)),
        st.tuples(st.just("start"), vec(n, -5, 5))), min_size=1, max_size=7))]
    return c


@sub("C19", sequences(), "at least one complete trajectory", quick=1500,
     shards=8)
def stepwise(c):
    """Samples in order, again after a reset, also reconfigured."""
    o = MinimumJerkTrajectory(c["n"], c["duration"], c["dt"])
    o.configure(start_y=np.array(c["start"]), goal_y=np.array(c["goal"]))
    current = dict(c)
    complete = 0
    X, Xd = [], []
    for op, arg in c["ops"] + [["reset", None], ["all", None]]:
        if op in ("steps", "all"):
            left = c["steps"] + 1 - len(X)
            for _ in range(left if op == "all" else min(left, arg)):
                # whatever the last state is, samples come in order
                y, yd = o.step(np.full(c["n"], 0.1), np.zeros(c["n"]))
                X.append(y)
                Xd.append(yd)
            if len(X) == c["steps"] + 1:
                verify(current, np.array(X), np.array(Xd))
                complete += 1
        elif op == "reset":
            o.reset()
            X, Xd = [], []
        else:
            # a new configuration is used after a reset
            o.configure(**{op + "_y": np.array(arg)})
            o.reset()
            current[op] = arg
            X, Xd = [], []
    return ["%d complete" % min(complete, 3)]
