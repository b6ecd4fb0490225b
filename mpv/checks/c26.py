"""C26 State-following DMPs track their via-points as weighted springs."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from movement_primitives.dmp import StateFollowingDMP

from .. import ref
from ..core import Skip, sub
from ..gen import dec, mat, vec
from ..util import check, close, scale_of


class Constant:
    def __init__(self, cdd):
        self.cdd = np.array(cdd, dtype=float)

    def coupling(self, y, yd):
        return np.zeros_like(self.cdd), self.cdd.copy()


@st.composite
def cases(draw, velocity=True, gains=True, many=False):
    n = draw(st.integers(1, 4))
    m = draw(st.one_of(st.integers(1, 8), st.integers(9, 150) if many
                       else st.integers(2, 15)))
    c = dict(n=n, m=m, tau=draw(dec(0.2, 5, 2)),
             steps=draw(st.integers(40, 60)), alpha=None, beta=None,
             ints=draw(st.sampled_from([1.0, 1.0, 0.5, 0.4, 1.7])),
             start=draw(vec(n)))
    if m <= 15:
        c["via"] = draw(mat(m, n))
    else:  # positions on a line with a wave
        a, b = draw(vec(n)), draw(vec(n))
        c["via"] = [[round(u + i / m * v + 0.3 * np.sin(i), 4)
                     for u, v in zip(a, b)] for i in range(m)]
    if draw(st.booleans()):
        c["alpha"] = draw(vec(n, 10, 30, 1))
        c["beta"] = [a / 4 for a in c["alpha"]]
        if gains and draw(st.booleans()):
            c["beta"] = draw(vec(n, 1, 9, 1))
    c["v0"] = draw(st.one_of(st.just([0.0] * n), vec(n, -1, 1))) \
        if velocity else [0.0] * n
    c["cdd"] = draw(st.one_of(st.none(), vec(n, -10, 10))) \
        if velocity else None
    return c


def make(c, dt, shift=0.0):
    kw = {}
    if c["alpha"] is not None:
        kw = dict(alpha_y=np.array(c["alpha"]), beta_y=np.array(c["beta"]))
    o = StateFollowingDMP(c["n"], c["tau"], dt=dt, n_viapoints=c["m"],
                          int_dt=c["ints"] * dt, **kw)
    o.forcing_term.viapoints[:, :] = np.array(c["via"]) + shift
    o.configure(start_y=np.array(c["start"]) + shift,
                start_yd=np.array(c["v0"]))
    return o


def weights(c, t):
    if c["m"] == 1:
        return np.ones((1,) + np.shape(t))
    return ref.rbf(t, c["tau"], c["m"], overlap=0.1, step=c["tau"] / c["m"])


@sub("C26", cases(), "moves by more than 1e-3, resolved by the steps",
     quick=800, shards=8)
def solution(c):
    N, tau = c["steps"], c["tau"]
    times = tau / N * np.arange(N)
    via, n = np.array(c["via"]), c["n"]
    alpha, beta = (np.full(n, 25.0), np.full(n, 6.25)) \
        if c["alpha"] is None else (np.array(c["alpha"]), np.array(c["beta"]))
    cdd = np.zeros(n) if c["cdd"] is None else np.array(c["cdd"])
    h = 0.5 * tau

    def rhs(t, x):
        y, v = x[:n], x[n:]
        target = weights(c, t).dot(via)
        a = alpha * (beta * (target - y) - h * v) + cdd
        return np.hstack((v, a / h ** 2))
    sol = solve_ivp(rhs, (0, times[-1]), np.hstack((c["start"], c["v0"])),
                    method="DOP853", t_eval=times, rtol=1e-9, atol=1e-11,
                    max_step=tau / 50)
    Y = sol.y[:n].T
    levels, V = [], []
    for level in range(4):
        dt = tau / N / 2 ** level
        term = None if c["cdd"] is None else Constant(c["cdd"])
        _, R = make(c, dt).open_loop(run_t=tau - 0.5 * dt, coupling_term=term)
        o = make(c, dt)
        y, yd = np.array(c["start"]), np.array(c["v0"])
        S, D = [y], [yd]
        for _ in range(N * 2 ** level - 1):
            y, yd = o.step(y, yd, coupling_term=term)
            S.append(y)
            D.append(yd)
        close(R[:len(S)], np.array(S), "open loop and steps", 1e-6)
        levels.append(np.array(S)[::2 ** level])
        V.append(np.array(D)[::2 ** level])
    for what, runs, expected in (("positions", levels, Y),
                                 ("velocities", V, sol.y[n:].T)):
        limit, estimate = ref.romberg(runs)
        scale = scale_of(expected)
        if estimate > 0.03 * scale:
            raise Skip("not resolved")
        error = np.abs(limit - expected).max()
        check(error <= 2 * estimate + 1e-5 * scale,
              "limit of %s for small steps differs from the solution by %.3g "
              "(numerical error about %.3g)", what, error, estimate)
        first = np.abs(runs[-1] - runs[-2]).max()
        error = np.abs(runs[-1] - expected).max()
        check(error <= 3 * first + 2 * estimate + 1e-5 * scale,
              "%s differ from solution by %.3g", what, error)
    return ["%s via-points" % (c["m"] if c["m"] < 3 else "many"),
            "coupling" if c["cdd"] is not None else "no coupling"] \
        if np.ptp(Y, axis=0).max() > 1e-3 else False


@sub("C26", cases(velocity=False, gains=False, many=True), "moves by more "
     "than 1e-3", quick=1500, shards=8)
def bounded(c):
    """Range of start and via-points, rest position, translation."""
    # step for which the discretized system is not oscillating, either
    dt = c["tau"] / c["steps"] / 2
    T, Y = make(c, dt).open_loop(run_t=c["tau"])
    points = np.vstack((c["start"], c["via"]))
    lo, hi = points.min(axis=0), points.max(axis=0)
    size = 1e-9 + np.max(hi - lo)
    check(np.all(Y >= lo - 1e-6 * size) and np.all(Y <= hi + 1e-6 * size),
          "leaves the range of start and via-points by %.3g",
          max((lo - Y).max(), (Y - hi).max()))
    # after its end it settles
    T, Y2 = make(c, dt).open_loop(run_t=3 * c["tau"])
    close(Y2[:len(Y)], Y, "longer run time", 1e-9)
    rest = weights(c, 1e3 * c["tau"]).dot(np.array(c["via"]))
    # slowest gains: exp(-alpha / 2 * t / (tau / 2)) (1 + ...), < 1e-7
    close(Y2[-1], rest, "rest position", 1e-3 * scale_of(points), 1.0)
    if c["m"] > 1:
        last = weights(c, 1e3 * c["tau"])
        check(last.argmax() == c["m"] - 1 and last[-1] > 0.9, "harness")
    shift = 3.5
    _, Y3 = make(c, dt, shift).open_loop(run_t=c["tau"])
    close(Y3, Y + shift, "moved start and via-points", 1e-9)
    return ["%s via-points" % (c["m"] if c["m"] < 3 else
                               "several" if c["m"] < 50 else "many")] \
        if np.ptp(Y, axis=0).max() > 1e-3 else False
