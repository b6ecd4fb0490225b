"""C12 Final-velocity DMP meets its boundary conditions."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from .. import coupling, ref
from ..core import Skip, sub
from ..gen import build, config, construct, dec, prim, start_state
from ..util import check, close, scale_of


def quintic(t, tau, y0, v0, a0, y1, v1, a1):
    """Position, velocity, acceleration of the unique quintic."""
    s = t / tau
    v0, v1, a0, a1 = v0 * tau, v1 * tau, a0 * tau ** 2, a1 * tau ** 2
    c0, c1, c2 = y0, v0, a0 / 2
    d, e, f = y1 - c0 - c1 - c2, v1 - c1 - 2 * c2, a1 - 2 * c2
    c3 = 10 * d - 4 * e + f / 2
    c4 = -15 * d + 7 * e - f
    c5 = 6 * d - 3 * e + f / 2
    g = c0 + s * (c1 + s * (c2 + s * (c3 + s * (c4 + s * c5))))
    gd = c1 + s * (2 * c2 + s * (3 * c3 + s * (4 * c4 + s * 5 * c5)))
    gdd = 2 * c2 + s * (6 * c3 + s * (12 * c4 + s * 20 * c5))
    return g, gd / tau, gdd / tau ** 2


def boundary(p):
    y0, v0 = start_state(p)
    return (y0, v0, np.array(p["start_ydd"]), np.array(p["goal"]),
            np.array(p["goal_yd"]), np.array(p["goal_ydd"]))


@st.composite
def cases(draw, weights=True):
    p = draw(prim(kinds=("fv",), max_dims=3,
                  weight_scales=(1.0, 20.0, 200.0) if weights else (0.0,)))
    p["tau"] = draw(dec(0.2, 5.0, 2))
    p["dt"] = p["tau"] / draw(st.integers(30, 40))
    c = dict(p=p, ints=draw(st.sampled_from([1.0, 1.0, 0.5, 0.4, 1.7])))
    c["coupling"] = draw(st.one_of(
        st.none(), coupling.linear(p["n"], velocity=False))
        ) if weights else None
    return c


def execute(o, p, n, term):
    y, yd = start_state(p)
    Y, V = [y], [yd]
    for _ in range(n):
        y, yd = o.step(y, yd, coupling_term=term)
        Y.append(y)
        V.append(yd)
    return np.array(Y), np.array(V)


def levels(c, n_base, refine):
    p = c["p"]
    runs = []
    for level in range(refine):
        dt = p["tau"] / n_base / 2 ** level
        q = dict(p, dt=dt, int_dt=c["ints"] * dt)
        Y, V = execute(build(q), q, n_base * 2 ** level,
                       coupling.make(c["coupling"]))
        Z = build(q).open_loop(coupling_term=coupling.make(c["coupling"]))[1]
        k = min(len(Z), len(Y))
        close(Z[:k], Y[:k], "open loop and steps", 1e-7)
        runs.append(np.hstack((Y, V * p["tau"]))[::2 ** level])
    return runs


def verify(c, expected, times):
    """Compare with the limit for small steps."""
    p = c["p"]
    runs = levels(c, len(times) - 1, 4)
    scale = scale_of(expected)
    if not np.all(np.isfinite(runs[-1])) or np.max(np.abs(runs[-1])) > 1e4:
        check(np.max(np.abs(expected)) > 1e3, "diverges")
        raise Skip("large")
    limit, estimate = ref.romberg(runs)
    if estimate > 0.02 * scale:
        raise Skip("not resolved")
    error = np.abs(limit - expected)
    check(error.max() <= 2 * estimate + 1e-5 * scale,
          "limit for small steps differs by %.3g from the expected motion "
          "(numerical error about %.3g)", error.max(), estimate)
    first = np.abs(runs[-1] - runs[-2]).max()
    fine = np.abs(runs[-1] - expected).max()
    check(fine <= 3 * first + 2 * estimate + 1e-5 * scale,
          "differs by %.3g from the expected motion", fine)
    close(runs[0][0], expected[0], "start", 1e-12)
    return "tight" if estimate < 1e-4 * scale else "loose"


@sub("C12", cases(weights=False), "boundary conditions are not all equal",
     quick=400, shards=8)
def unforced(c):
    """Without weights it follows the quintic."""
    p = c["p"]
    n = int(round(p["tau"] / p["dt"]))
    times = p["tau"] / n * np.arange(n + 1)
    g = [quintic(t, p["tau"], *boundary(p)) for t in times]
    expected = np.array([np.hstack((a[0], a[1] * p["tau"])) for a in g])
    tag = verify(c, expected, times)
    return [tag, "goal velocity" if any(p["goal_yd"]) else "at rest"
            ] if np.ptp(expected) > 1e-3 else False


@sub("C12", cases(), "weights or coupling not zero", quick=400, shards=8)
def forced(c):
    """Solution of the spring-damper equation that tracks the quintic."""
    p = c["p"]
    tau = p["tau"]
    n = int(round(tau / p["dt"]))
    times = tau / n * np.arange(n + 1)
    alpha, beta = ref.gains_of(p)
    W = np.array(p["w"]).reshape(p["n"], p["nw"])
    b = boundary(p)
    term = coupling.make(c["coupling"])

    def rhs(t, x):
        y, v = x[:p["n"]], x[p["n"]:]
        g, gd, gdd = quintic(t, tau, *b)
        a = alpha * (beta * (g - y) + tau * (gd - v)) + ref.forcing(t, tau, W)
        if term is not None:
            a = a + term.coupling(y, v)[1]
        return np.hstack((v, a / tau ** 2 + gdd))

    sol = solve_ivp(rhs, (0, tau), np.hstack(b[:2]), method="DOP853",
                    t_eval=np.minimum(times, tau), rtol=1e-9, atol=1e-11)
    expected = sol.y.T.copy()
    expected[:, p["n"]:] *= tau
    tag = verify(c, expected, times)
    return [tag, "coupling" if term else "no coupling"]


@sub("C12", st.tuples(cases(), st.sampled_from([3.0, 4.0, 6.5])).map(
    lambda a: dict(a[0], run=a[1])), "goal velocity is not zero", quick=600,
    shards=8)
def settles(c):
    """Long after the end it rests at the goal."""
    p = c["p"]
    q = dict(p, int_dt=p["dt"])
    alpha, beta = ref.gains_of(p)
    rates = np.roots([1, alpha.min(), (alpha * beta).min()]).real
    slow = min(-rates.max(), alpha.min() / 2)  # slowest mode per duration
    o = build(q)
    n = int(c["run"] * p["tau"] / p["dt"])
    Y, V = execute(o, q, n, None)
    if np.abs(Y).max() > 1e4:
        raise Skip("large")
    w = np.abs(p["w"]).max()
    # free motion decays, forcing term decays with the phase
    late = 0.01 ** (c["run"] - 0.5) * w / (alpha * beta).min()
    tol = 1e-6 + 50 * scale_of(Y, V * p["tau"]) * np.exp(
        -0.5 * slow * (c["run"] - 1)) + 3 * late
    if tol > 0.2:
        raise Skip("not settled yet")
    close(Y[-1], p["goal"], "rests at the goal", tol, 1.0)
    close(V[-1] * p["tau"], np.zeros(p["n"]), "is at rest", 10 * tol, 1.0)
    return ["moving" if any(p["goal_yd"]) else "at rest"]


@sub("C12", st.fixed_dictionaries(dict(
    p=prim(kinds=("fv",), max_dims=2, weight_scales=(0.0,)),
    n=st.integers(20, 400), dt=st.sampled_from([0.01, 0.02, 0.05, 0.1]))),
    "goal velocity is not zero", quick=800, shards=4)
def end_of_movement(c):
    """Goal and goal velocity are reached at the end, not a step earlier.

    All multiples of common step sizes: the end of the movement is subject to
    rounding of accumulated times."""
    p = dict(c["p"], dt=c["dt"], int_dt=c["dt"],
             tau=round(c["n"] * c["dt"], 6))
    p["alpha"] = p["beta"] = None
    o = build(p)
    Y, V = execute(o, p, c["n"], None)
    tau = p["tau"]
    # first order integration, error relative to the size of the motion
    b = boundary(p)
    size = max(1.0, np.abs(b[3] - b[0]).max(), tau * np.abs(b[1]).max(),
               tau * np.abs(b[4]).max(), tau ** 2 * np.abs(b[2]).max(),
               tau ** 2 * np.abs(b[5]).max())
    tol = 40.0 / c["n"] * size
    close(Y[-1], p["goal"], "goal at the end", tol, 1.0)
    # compare with the step before: no jump of the velocity at the end
    jump = (V[-1] - V[-2]) - (V[-2] - V[-3])
    bound = 400.0 / c["n"] ** 2 * size / tau + 1e-9
    check(np.all(np.abs(jump) <= bound),
          "velocity jumps by %.3g in the last step", np.abs(jump).max())
    return ["moving"] if any(p["goal_yd"]) else False


@sub("C12", st.tuples(cases(), cases(), st.integers(1, 4)).map(
    lambda a: dict(p=a[0]["p"], other=a[1]["p"], steps=a[2])),
    "velocities are different", quick=400, shards=4)
def other_boundary_conditions(c):
    """Velocities and accelerations of the same object are changed."""
    p = dict(c["p"], used=0)
    names = ("start_yd", "start_ydd", "goal_yd", "goal_ydd")
    n = p["n"]
    before = dict(p)
    for name in names:
        values = c["other"].get(name, [0.0])
        before[name] = [values[i % len(values)] for i in range(n)]
    o = build(before)
    execute(o, before, c["steps"], None)
    o.reset()
    o.configure(**dict(config(p), start_yd=start_state(p)[1]))
    expected = execute(build(p), p, 40, None)
    result = execute(o, p, 40, None)
    for a, b in zip(result, expected):
        close(a, b, "motion with new boundary conditions", 1e-9)
    return ["%d steps" % c["steps"]] if any(
        before[k] != p.get(k, [0.0] * n) for k in names) else False
