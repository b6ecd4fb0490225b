"""C27 Calls never modify their arguments, returned arrays are independent."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.data import (
    generate_1d_trajectory_distribution, generate_minimum_jerk)
from movement_primitives.dmp import (
    canonical_system_alpha, obstacle_avoidance_acceleration_2d,
    obstacle_avoidance_acceleration_3d, phase)
from movement_primitives.dmp._forcing_term import ForcingTerm
from movement_primitives.dmp_potential_field import potential_field_2d
from movement_primitives.kinematics import Kinematics
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory
from movement_primitives.promp import ProMP, via_points
from movement_primitives.utils import ensure_1d_array

from .. import coupling, gen, robots
from ..core import Skip, sub
from ..gen import dec, demo, demo_arrays, mat, vec
from ..util import check, close


class Ledger:
    """Everything that was passed to or returned from calls, with copies."""

    def __init__(self):
        self.entries = []

    def watch(self, array, what):
        self.entries.append((array, np.array(array, copy=True), what))
        return array

    def result(self, values, what):
        for v in values if isinstance(values, tuple) else (values,):
            if isinstance(v, np.ndarray):
                self.watch(v, "returned by " + what)
        return values

    def verify(self, after):
        for array, copy, what in self.entries:
            check(array.shape == copy.shape and np.array_equal(
                array, copy, equal_nan=True),
                "array %s changed during %s", what, after)


class Constant:
    """Coupling term that returns the same arrays in each call."""

    def __init__(self, ledger, n, values):
        self.cd = ledger.watch(0.02 * np.resize(values, n),
                               "of the coupling term")
        self.cdd = ledger.watch(np.resize(values, n), "of the coupling term")

    def coupling(self, y, yd=None):
        return self.cd, self.cdd


# --- histories of movement primitives ---------------------------------------

def operations(p):
    kind, m = p["kind"], gen.vel_dims(p)
    ops = [st.fixed_dictionaries(dict(op=st.just("step"), couple=st.integers(
        0, 3), v=vec(2, -1, 1))) for _ in range(3)]
    ops += [
        st.fixed_dictionaries(dict(op=st.just("open_loop"),
                                   couple=st.booleans(), v=vec(2, -1, 1),
                                   run=st.sampled_from([0.4, 1, 10]),
                                   f=st.integers(0, 3))),
        st.fixed_dictionaries(dict(op=st.just("reset"))),
        st.fixed_dictionaries(dict(op=st.just("n_steps"),
                                   n=st.integers(0, 3))),
        st.fixed_dictionaries(dict(op=st.just("configure"),
                                   y=gen.state(kind, gen.pos_dims(p)),
                                   yd=vec(m, -1, 1),
                                   which=st.integers(1, 15)))]
    if kind in gen.WEIGHTED:
        ops += [
            st.fixed_dictionaries(dict(op=st.just("get_weights"))),
            st.fixed_dictionaries(dict(op=st.just("set_weights"), w=gen.
                                       scaled_vec(m * p["nw"]))),
            demo(kind, p.get("n"), steps=(12, 25)).map(
                lambda d: dict(op="imitate", demo=d)),
            st.fixed_dictionaries(dict(op=st.just("execution_time"),
                                       tau=dec(0.5, 2, 1)))]
    return st.lists(st.one_of(*ops), min_size=2, max_size=9)


@st.composite
def histories(draw):
    p = draw(gen.prim(min_steps=15, max_steps=25, max_dims=3, p_gain=True))
    return dict(p=p, ops=draw(operations(p)), noise=draw(st.booleans()))


STEP_FUNCTIONS = {
    "dmp": [dict(step_function=f) for f in
            ("euler", "euler-cython", "rk4", "rk4-cython")],
    "cart": [dict(step_function=a, quaternion_step_function=b)
             for a, b in (("rk4", "python"), ("euler", "cython"),
                          ("euler-cython", "cython"),
                          ("rk4-cython", "python"))],
    "dual": [dict(step_function=f) for f in
             ("python", "cython", "python", "cython")]}
STEP_ONLY = {"dmp": STEP_FUNCTIONS["dmp"]}


def play(c, spoil):
    """Perform all operations; optionally overwrite all returned arrays.

    Returns copies of everything that was returned.
    """
    p = c["p"]
    kind, m = p["kind"], gen.vel_dims(p)
    ledger = Ledger()
    o = gen.construct(p)
    if kind in gen.WEIGHTED:
        o.set_weights(ledger.watch(np.array(p["w"]), "passed to set_weights"))
    else:
        gen.set_parameters(o, p)
    kw = gen.config(p)
    for name, a in kw.items():
        ledger.watch(a, "passed to configure as " + name)
    o.configure(**kw)
    y, yd = gen.start_state(p)
    log = []

    def returned(values, what):
        values = values if isinstance(values, tuple) else (values,)
        copies = tuple(np.array(v, copy=True) for v in values)
        log.append(copies)
        if spoil:
            for v in values:
                if v.flags.writeable:
                    v[...] = 1e3
        else:
            ledger.result(values, what)
        return copies

    for k, e in enumerate(c["ops"]):
        op = e["op"]
        what = "%s (operation %d)" % (op, k)
        couple = e.get("couple")
        term = {}
        if couple and kind != "cart" and kind != "sdo":
            term = dict(coupling_term=Constant(ledger, m, e["v"]))
        if op in ("step", "n_steps"):
            # the state passed in is watched as well
            a = ledger.watch(np.array(y), "passed to step (y)")
            b = ledger.watch(np.array(yd), "passed to step (yd)")
            if op == "n_steps":
                y, yd = o.n_steps_open_loop(a, b, e["n"])
                if e["n"] > 0:
                    y, yd = returned((y, yd), what)
            else:
                f = STEP_ONLY[kind][couple] if kind in STEP_ONLY else {}
                y, yd = returned(o.step(a, b, **dict(term, **f)), what)
        elif op == "open_loop":
            f = STEP_FUNCTIONS[kind][e["f"]] if kind in STEP_FUNCTIONS else {}
            returned(o.open_loop(run_t=e["run"] * p["dt"],
                                 **dict(term, **f)), what)
        elif op == "reset":
            o.reset()
            y, yd = gen.start_state(p)
        elif op == "configure":
            kw = {}
            for bit, name in enumerate(("start_y", "goal_y", "start_yd",
                                        "goal_yd")):
                if e["which"] & 1 << bit:
                    kw[name] = ledger.watch(
                        gen.as_state(kind, e["y"]) if name.endswith("_y")
                        else np.array(e["yd"]), "passed to configure")
            o.configure(**kw)
        elif op == "get_weights":
            returned(o.get_weights(), what)
        elif op == "set_weights":
            o.set_weights(ledger.watch(np.array(e["w"]),
                                       "passed to set_weights"))
        elif op == "imitate":
            T, Y = demo_arrays(e["demo"])
            if c["noise"]:  # almost, but not exactly normalized
                Y *= 1.0 + 1e-9
            o.imitate(ledger.watch(T, "passed to imitate (T)"),
                      ledger.watch(Y, "passed to imitate (Y)"),
                      regularization_coefficient=1e-3)
        elif op == "execution_time":
            o.execution_time_ = e["tau"]
        ledger.verify(what)
    return log


@sub("C27", histories(), "something was returned and something followed",
     quick=2400, shards=16)
def primitives(c):
    expected = play(c, spoil=False)
    if not all(np.all(np.isfinite(v)) for r in expected for v in r):
        raise Skip("diverges")
    actual = play(c, spoil=True)
    for i, (a, b) in enumerate(zip(actual, expected)):
        for v, w in zip(a, b):
            close(v, w, "result %d after overwriting earlier results" % i,
                  1e-12)
    return [c["p"]["kind"]] + sorted({e["op"] for e in c["ops"]}) \
        if len(expected) > 1 else False


# --- minimum jerk -----------------------------------------------------------

@sub("C27", st.fixed_dictionaries(dict(
    n=st.integers(1, 3), steps=st.integers(3, 12), start=vec(3), goal=vec(3),
    ops=st.lists(st.sampled_from(["step", "step", "step", "reset"]),
                 min_size=2, max_size=11))),
    "more than one step", quick=400, shards=2)
def minimum_jerk(c):
    n = c["n"]

    def run(spoil):
        ledger = Ledger()
        o = MinimumJerkTrajectory(n, execution_time=0.1 * c["steps"], dt=0.1)
        s, g = np.array(c["start"][:n]), np.array(c["goal"][:n])
        o.configure(start_y=ledger.watch(s, "start"),
                    goal_y=ledger.watch(g, "goal"))
        y, yd = s.copy(), np.zeros(n)
        log, k = [], 0
        for op in c["ops"]:
            if op == "reset":
                o.reset()
                k = 0
                continue
            if k == c["steps"]:
                continue
            k += 1
            a, b = o.step(ledger.watch(y, "passed"), ledger.watch(yd, "passed"))
            y, yd = a.copy(), b.copy()
            log += [y.copy(), yd.copy()]
            if spoil:
                a[:] = b[:] = 1e3
            else:
                ledger.result((a, b), "step")
            ledger.verify("step")
        return log

    expected = run(False)
    for a, b in zip(run(True), expected):
        close(a, b, "step after overwriting earlier results", 0)
    ledger = Ledger()
    s = ledger.watch(np.array(c["start"][:n]), "start")
    g = ledger.watch(np.array(c["goal"][:n]), "goal")
    first = ledger.result(generate_minimum_jerk(s, g, 0.1 * c["steps"], 0.1),
                          "generate_minimum_jerk")
    generate_minimum_jerk(s, g, 0.1 * c["steps"], 0.1)[0][:] = 7.0
    generate_minimum_jerk(g, s, 0.1 * c["steps"], 0.1)
    ledger.verify("generate_minimum_jerk")
    close(first[0][0], s, "first position", 1e-12)
    return len(expected) > 2


# --- ProMPs -----------------------------------------------------------------

PROMP_OPS = ["mean_trajectory", "cov_trajectory", "var_trajectory",
             "mean_velocities", "cov_velocities", "var_velocities", "sample",
             "trajectory_from_weights", "weights", "condition", "via_points",
             "imitate", "set"]


@st.composite
def promp_cases(draw):
    n, nw = draw(st.integers(1, 3)), draw(st.integers(3, 6))
    return dict(n=n, nw=nw, mean=draw(vec(n * nw)), a=draw(vec(n * nw)),
                T=draw(dec(0.3, 3, 1)), t0=draw(st.sampled_from([0.0, 1.5])),
                y=draw(vec(n)), t=draw(dec(0, 1, 2)), s=draw(dec(0.1, 1, 2)),
                same=draw(st.booleans()),
                ops=draw(st.one_of(
                    st.lists(st.sampled_from(PROMP_OPS), min_size=2,
                             max_size=8),
                    # the same results are computed repeatedly
                    st.lists(st.sampled_from(PROMP_OPS), min_size=1,
                             max_size=3).map(lambda ops: 2 * ops))))


def promp_play(c, spoil):
    n, nw = c["n"], c["nw"]
    num = n * nw
    ledger = Ledger()
    o = ProMP(n, nw)
    a = np.array(c["a"])
    cov = np.eye(num) + np.outer(a, a)
    mean = np.array(c["mean"])
    o.from_weight_distribution(ledger.watch(mean, "mean"),
                               ledger.watch(cov, "cov"))
    log = []
    T = ledger.watch(c["t0"] + np.linspace(0, c["T"], 12), "T")
    for k, op in enumerate(c["ops"]):
        if not c["same"]:
            T = ledger.watch(T.copy(), "T")
        what = "%s (operation %d)" % (op, k)
        r = ()
        if op in ("condition", "via_points"):
            y = ledger.watch(np.array(c["y"]), "y")
            C = ledger.watch(c["s"] * np.eye(n), "y_cov")
            if op == "condition":
                d = o.condition_position(y, C, t=c["t"], t_max=1.0)
            else:
                d = via_points(
                    o, ledger.watch(np.array([0.1, 0.7]), "ts"),
                    ledger.watch(np.array([c["y"], c["y"]]), "y_cond"),
                    ledger.watch(np.array([C, C]), "y_conditional_cov"))
            check(d is not o, "%s returns the same object", op)
            r = d.mean_trajectory(T), d.cov_trajectory(T)
            # results of the conditioned ProMP do not change the original
            if spoil:
                d.weight_mean[:] = 1e3
                d.weight_cov[:] = 1e3
        elif op == "sample":
            r = o.sample_trajectories(T, 2, np.random.RandomState(3)),
        elif op == "weights":
            Y = ledger.watch(np.sin(T)[:, None] * np.ones(n), "Y")
            r = o.weights(T, Y, lmbda=1e-6),
        elif op == "trajectory_from_weights":
            r = o.trajectory_from_weights(
                T, ledger.watch(np.array(c["a"]), "weights")),
        elif op == "imitate":
            Ts = [T, ledger.watch(T.copy(), "T")]
            Ys = [ledger.watch(np.sin(T)[:, None] * np.ones(n), "Y"),
                  ledger.watch(np.cos(T)[:, None] * np.ones(n), "Y")]
            o.imitate(Ts, Ys, n_iter=4)
        elif op == "set":
            o.from_weight_distribution(ledger.watch(mean + 0.5, "mean"),
                                       ledger.watch(2 * cov, "cov"))
        else:
            r = getattr(o, op)(T),
        log.append(tuple(np.array(v, copy=True) for v in r))
        for v in r:
            if spoil and v.flags.writeable:
                v[...] = 1e3
            elif not spoil:
                ledger.watch(v, "returned by " + what)
        ledger.verify(what)
    return log


@sub("C27", promp_cases(), "at least two results", quick=1200, shards=8)
def promps(c):
    expected = promp_play(c, False)
    for i, (a, b) in enumerate(zip(promp_play(c, True), expected)):
        for v, w in zip(a, b):
            close(v, w, "result %d (%s) after overwriting earlier results"
                  % (i, c["ops"][i]), 1e-12)
    return sorted(set(c["ops"])) if len(c["ops"]) > 1 else False


# --- coupling terms ---------------------------------------------------------

@st.composite
def coupling_cases(draw):
    kind = draw(st.sampled_from(["dual", "dmp2", "dmp3", "dmp6"]))
    if kind == "dual":
        term = draw(st.one_of(coupling.dual_pose(), coupling.dual_distance(),
                              coupling.dual_trajectory()))
        y, m = draw(gen.state("dual", 14)), 12
    else:
        n = m = int(kind[3])
        options = {2: [coupling.obstacle(2), st.tuples(
            coupling.springs(), dec(-1, 1, 2)).map(
                lambda a: dict(a[0], type="pos1d", d=a[1]))],
            3: [coupling.obstacle(3)],
            6: [st.tuples(coupling.springs(), vec(3, -1, 1)).map(
                lambda a: dict(a[0], type="pos3d", d=a[1]))]}[n]
        term = draw(st.one_of(*options))
        y = draw(vec(n))
    return dict(kind=kind, term=term, y=y, yd=draw(vec(m, -1, 1)),
                fast=draw(st.booleans()), k=draw(st.integers(2, 4)))


@sub("C27", coupling_cases(), "coupling is not zero", quick=1500, shards=4)
def couplings(c):
    def run(spoil):
        ledger = Ledger()
        with coupling.quiet():
            term = coupling.make(c["term"], fast=c["fast"])
        y = gen.as_state("dual" if c["kind"] == "dual" else "dmp", c["y"])
        log = []
        for i in range(c["k"]):
            a = ledger.watch(y + 0.0, "y")
            b = ledger.watch(np.array(c["yd"]), "yd")
            with coupling.quiet():
                r = tuple(np.asarray(v) for v in term.coupling(a, b))
            log.append([v.copy() for v in r])
            for v in r:
                if spoil and v.flags.writeable:
                    v[...] = 1e3
                elif not spoil:
                    ledger.watch(v, "returned by coupling")
            ledger.verify("coupling")
            y = y.copy()
            y[:2] += 0.1
        return log

    expected = run(False)
    if not all(np.all(np.isfinite(v)) for r in expected for v in r):
        raise Skip("both arms at the same position")
    for a, b in zip(run(True), expected):
        for v, w in zip(a, b):
            close(v, w, "coupling after overwriting earlier results", 1e-12)
    return [c["term"]["type"]] if any(
        np.abs(v).max() > 0 for r in expected for v in r) else False


# --- other functions --------------------------------------------------------

@sub("C27", st.fixed_dictionaries(dict(
    robot=st.integers(1, 5).flatmap(robots.serial), Q=mat(3, 5, -1, 1, 2),
    how=st.sampled_from(["forward", "error", "inverse", "restarts", "local",
                         "trajectory"]))), "always", quick=120, thorough=1000,
    shards=8)
def kinematics(c):
    n = len(c["robot"]["joints"])
    chain = Kinematics(robots.urdf(c["robot"])).create_chain(
        ["j%d" % i for i in range(n)], "l0", "l%d" % n)
    ledger = Ledger()
    Q = ledger.watch(np.array(c["Q"])[:, :n].copy(), "Q")
    H = ledger.result(chain.forward(Q[0]), "forward")
    G = ledger.result(chain.forward(Q[1]), "forward")
    Hs = ledger.result(chain.forward_trajectory(Q), "forward_trajectory")
    first = H.copy()
    spoiled = chain.forward(Q[0])
    spoiled[:] = 1e3
    spoiled = chain.forward_trajectory(Q)
    spoiled[:] = 1e3
    limits = np.array(chain.joint_limits)
    rs = np.random.RandomState(0)
    if c["how"] == "error":
        chain.ee_pose_error(Q[0], G)
    elif c["how"] == "inverse":
        chain.inverse(H, Q[1])
    elif c["how"] == "restarts":
        chain.inverse_with_random_restarts(H, n_restarts=2, random_state=rs)
    elif c["how"] == "local":
        chain.local_inverse_with_random_restarts(
            H, Q[1], interval=ledger.watch(0.2 * np.ones(n), "interval"),
            n_restarts=2, random_state=rs)
    elif c["how"] == "trajectory":
        ledger.result(chain.inverse_trajectory(
            Hs, Q[0], random_restarts=False), "inverse_trajectory")
    ledger.verify(c["how"])
    close(chain.joint_limits, limits, "joint limits", 0)
    close(chain.forward(Q[0]), first, "pose computed again", 1e-12)
    ledger.verify("forward")
    return [c["how"]]


@sub("C27", st.fixed_dictionaries(dict(
    Y=mat(4, 3), V=mat(4, 3), o=vec(3), tau=dec(0.5, 3, 1), t0=dec(-1, 1, 1),
    nw=st.integers(2, 8), n=st.integers(1, 3), value=vec(3))),
    "always", quick=400, shards=2)
def functions(c):
    ledger = Ledger()
    Y = ledger.watch(np.array(c["Y"]), "Y")
    V = ledger.watch(np.array(c["V"]), "V")
    o = ledger.watch(np.array(c["o"]), "obstacle")
    ledger.result(obstacle_avoidance_acceleration_2d(
        Y[:, :2], V[:, :2], o[:2]), "obstacle_avoidance_acceleration_2d")
    ledger.result(obstacle_avoidance_acceleration_3d(Y[0], V[0], o),
                  "obstacle_avoidance_acceleration_3d")
    ledger.verify("obstacle avoidance")
    t1 = c["t0"] + c["tau"]
    alpha = canonical_system_alpha(0.01, t1, c["t0"])
    T = ledger.watch(np.linspace(c["t0"], t1, 9), "T")
    z = ledger.result(phase(T, alpha, t1, c["t0"]), "phase")
    f = ForcingTerm(c["n"], c["nw"], t1, c["t0"], 0.8, alpha)
    ledger.result(f.design_matrix(T), "design_matrix")
    ledger.result(f.phase(T), "phase")
    first = ledger.result(f.forcing_term(z), "forcing_term")
    g = ledger.result(ensure_1d_array(o, 3, "x"), "ensure_1d_array")
    check(not np.shares_memory(g, o), "ensure_1d_array returns its argument")
    f.forcing_term(z)[:] = 7.0
    f.design_matrix(T)[:] = 7.0
    close(f.forcing_term(z), first, "forcing term", 0)
    p = dict(kind="dmp", n=2, tau=c["tau"], dt=0.1, int_dt=0.1, nw=c["nw"],
             smooth=False, w=[1.0] * (2 * c["nw"]), start=c["Y"][0][:2],
             goal=c["Y"][1][:2])
    dmp = gen.build(p)
    before = dmp.open_loop()
    ledger.result(before, "open_loop")
    ledger.result(potential_field_2d(dmp, (-1, 1), (-1, 1), 4, o[:2]),
                  "potential_field_2d")
    for a in potential_field_2d(dmp, (-1, 1), (-1, 1), 4):
        a[...] = 7.0
    data = generate_1d_trajectory_distribution(c["n"], 3 + c["nw"])
    ledger.result(tuple(a.copy() for a in data), "toy data")
    for a in data:
        a[...] = 7.0
    again = generate_1d_trajectory_distribution(c["n"], 3 + c["nw"])
    for (_, expected, _), a in zip(ledger.entries[-2:], again):
        close(a, expected, "toy data after overwriting earlier toy data", 0)
    ledger.verify("other functions")
    for a, b in zip(dmp.open_loop(), before):
        close(a, b, "DMP after computation of its potential field", 0)
    return True
