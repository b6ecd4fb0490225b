"""C31 Only the values of arguments matter, not type, layout or later changes.

Every case is executed twice: with new contiguous arrays of floating point
numbers, and with the same values in another representation (integers, views
with other strides, read-only arrays, buffers that are overwritten directly
after the call).
"""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.data import generate_minimum_jerk
from movement_primitives.dmp import (
    CouplingTermDualCartesianPose, CouplingTermObstacleAvoidance2D,
    CouplingTermObstacleAvoidance3D, CouplingTermPos3DToPos3D,
    obstacle_avoidance_acceleration_2d, obstacle_avoidance_acceleration_3d,
    phase)
from movement_primitives.dmp_potential_field import potential_field_2d
from movement_primitives.kinematics import Kinematics
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory
from movement_primitives.promp import ProMP, via_points

from .. import gen, robots
from ..core import Skip, sub
from ..gen import dec, mat, scaled_vec, vec
from ..util import check, close

INTEGER = ["int64", "int32"]
LAYOUT = ["strided", "reversed", "fortran", "read-only", "reused"]


class Plain:
    def __call__(self, a):
        return np.array(a, dtype=float)

    def done(self):
        pass


class Variant:
    """Represents arrays differently and destroys them after each call."""

    def __init__(self, how):
        self.how = how
        self.buffers = []

    def __call__(self, a):
        a = np.array(a, dtype=float)
        how = self.how
        if how in INTEGER:
            b = a.astype(how)
            if not np.array_equal(a, b):
                return a  # not representable
            return b
        if how == "strided":
            b = np.full(tuple(2 * n + 1 for n in a.shape), 1e3)
            b = b[tuple(slice(0, 2 * n, 2) for n in a.shape)]
        elif how == "reversed":
            b = np.empty_like(a)[tuple(slice(None, None, -1)
                                       for _ in a.shape)]
        elif how == "fortran":
            b = np.empty(a.shape, order="F")
        else:
            b = np.empty(a.shape)
        b[...] = a
        if how == "read-only":
            b.setflags(write=False)
        if how == "reused":
            self.buffers.append(b)
        return b

    def done(self):
        """The call is over."""
        for b in self.buffers:
            b[...] = 1e3
        self.buffers = []


HOW = st.sampled_from(INTEGER + LAYOUT)


def same(run, how, tol=1e-12):
    """Compare results of both runs."""
    with np.errstate(all="ignore"):
        expected = run(Plain())
    if not all(np.all(np.isfinite(v)) for v in expected):
        raise Skip("diverges")
    actual = run(Variant(how))
    check(len(actual) == len(expected), "number of results")
    for i, (a, b) in enumerate(zip(actual, expected)):
        check(np.shape(a) == np.shape(b), "shape of result %d: %s", i,
              np.shape(a))
        close(np.asarray(a, float), b, "result %d with %s arguments"
              % (i, how), tol)


# --- movement primitives ----------------------------------------------------

def whole(values):
    return [float(round(v)) for v in values]


@st.composite
def whole_quat(draw):
    """Unit quaternion of integers."""
    q = [0, 0, 0, 0]
    q[draw(st.integers(0, 3))] = draw(st.sampled_from([1, -1]))
    return q


@st.composite
def states(draw, kind, n, integer):
    y = draw(gen.state(kind, n, -4, 4))
    if integer:
        y = whole(y)
        for i in gen.QUATS.get(kind, ()):
            y[i:i + 4] = draw(whole_quat())
    return y


@st.composite
def demonstrations(draw, p, integer):
    """Poses at increasing times, positions and times may be integers."""
    n = draw(st.integers(8, 14))
    rows = [draw(states(p["kind"], gen.pos_dims(p), integer))
            for _ in range(n)]
    for i in gen.QUATS.get(p["kind"], ()):  # do not jump all the time
        for k in range(1, n):
            if draw(st.booleans()):
                rows[k][i:i + 4] = rows[k - 1][i:i + 4]
    return dict(t0=draw(st.integers(-2, 2)), every=draw(st.integers(1, 3)),
                Y=rows)


@st.composite
def histories(draw):
    how = draw(HOW)
    integer = how in INTEGER
    p = draw(gen.prim(min_steps=15, max_steps=25, max_dims=3, p_gain=True))
    kind, n, m = p["kind"], gen.pos_dims(p), gen.vel_dims(p)
    p["start"] = draw(states(kind, n, integer))
    p["goal"] = draw(states(kind, n, integer))
    if integer:
        for k in ("start_yd", "goal_yd", "start_ydd", "goal_ydd", "w"):
            if k in p:
                p[k] = whole(p[k])
        if p.get("alpha") is not None:
            p["alpha"], p["beta"] = whole(p["alpha"]), whole(p["beta"])
        if draw(st.booleans()):  # scalars
            p["tau"] = draw(st.integers(1, 3))
            p["dt"] = p["tau"] / 20
            p["int_dt"] = p["dt"]
            for k in ("k", "c", "p_gain"):
                if p.get(k) is not None:
                    p[k] = int(p[k]) + (k != "p_gain")
    ops = [st.fixed_dictionaries(dict(
        op=st.just("step"), y=st.one_of(st.none(), states(kind, n, integer)),
        yd=vec(m, -1, 1, 0 if integer else 2), cd=st.one_of(
            st.none(), vec(m, -2, 2, 0 if integer else 2)))),
        st.just(dict(op="open_loop")), st.just(dict(op="reset")),
        st.fixed_dictionaries(dict(
            op=st.just("configure"), y=states(kind, n, integer),
            which=st.sampled_from(["start_y", "goal_y"])))]
    if kind in gen.WEIGHTED:
        ops += [demonstrations(p, integer).map(lambda d: dict(op="imitate",
                                                              demo=d)),
                scaled_vec(m * p["nw"], (20.0,), 0 if integer else 2).map(
                    lambda w: dict(op="weights", w=w))]
    return dict(p=p, how=how, ops=draw(st.lists(st.one_of(*ops), min_size=2,
                                                max_size=6)))


class Given:
    """Coupling term that returns the given values."""

    def __init__(self, convert, values):
        self.convert, self.values = convert, values

    def coupling(self, y, yd=None):
        return (self.convert(np.zeros(len(self.values))),
                self.convert(self.values))


def play(c, convert):
    p = dict(c["p"])
    kind, m = p["kind"], gen.vel_dims(p)
    integer = c["how"] in INTEGER
    if p.get("alpha") is not None:
        p["alpha"], p["beta"] = convert(p["alpha"]), convert(p["beta"])

    def state(y):
        return convert(y if integer else gen.as_state(kind, y))

    if integer and isinstance(convert, Plain):
        for k in ("tau", "k", "c", "p_gain"):
            if p.get(k) is not None:
                p[k] = float(p[k])
    o = construct(p)
    convert.done()
    if kind in gen.WEIGHTED:
        o.set_weights(convert(p["w"]))
    elif kind == "sf":
        o.forcing_term.viapoints[:] = convert(p["via"])
    convert.done()
    o.configure(start_y=state(p["start"]), goal_y=state(p["goal"]), **dict(
        (k, convert(p[k])) for k in ("start_yd", "goal_yd", "start_ydd",
                                     "goal_ydd") if k in p))
    convert.done()
    r = []
    y, yd = gen.start_state(p)
    for e in c["ops"]:
        if e["op"] == "step":
            if e["y"] is not None:
                y = np.array(e["y"], float) if integer else gen.as_state(
                    kind, e["y"])
                yd = np.array(e["yd"])
            kw = {}
            if e["cd"] is not None and kind not in ("cart", "dual", "sdo"):
                kw["coupling_term"] = Given(convert, e["cd"])
            y, yd = o.step(convert(y), convert(yd), **kw)
            convert.done()
            y, yd = y.copy(), yd.copy()
            r += [y, yd]
        elif e["op"] == "open_loop":
            r += list(o.open_loop(run_t=12 * p["dt"]))
        elif e["op"] == "reset":
            o.reset()
        elif e["op"] == "configure":
            o.configure(**{e["which"]: state(e["y"])})
        elif e["op"] == "weights":
            o.set_weights(convert(e["w"]))
        elif e["op"] == "imitate":
            d = e["demo"]
            Y = np.array([y if integer else gen.as_state(kind, y)
                          for y in d["Y"]], float)
            T = d["t0"] + d["every"] * np.arange(len(Y))
            o.imitate(convert(T), convert(Y), regularization_coefficient=1e-3)
        convert.done()
    if kind in gen.WEIGHTED:
        r.append(o.get_weights())
    o.reset()
    r += list(o.open_loop(run_t=12 * p["dt"]))
    return r


def construct(p):
    """Like gen.construct, but gains are passed as they are."""
    alpha, beta = p.get("alpha"), p.get("beta")
    if alpha is None:
        return gen.construct(p)
    from movement_primitives.dmp import (
        DMP, CartesianDMP, DMPWithFinalVelocity, DualCartesianDMP,
        StateFollowingDMP)
    kw = dict(dt=p["dt"], int_dt=p["int_dt"], alpha_y=alpha, beta_y=beta)
    if p["kind"] == "sf":
        return StateFollowingDMP(p["n"], p["tau"], n_viapoints=p["nv"], **kw)
    kw.update(execution_time=p["tau"], n_weights_per_dim=p["nw"])
    if "p_gain" in p:
        kw["p_gain"] = p["p_gain"]
    if p["kind"] == "fv":
        return DMPWithFinalVelocity(p["n"], **kw)
    kw["smooth_scaling"] = p["smooth"]
    if p["kind"] == "dmp":
        return DMP(p["n"], **kw)
    return {"cart": CartesianDMP, "dual": DualCartesianDMP}[p["kind"]](**kw)


@sub("C31", histories(), "every case", quick=2400, shards=16)
def primitives(c):
    same(lambda convert: play(c, convert), c["how"], 1e-9)
    return [c["p"]["kind"], c["how"]] + sorted({e["op"] for e in c["ops"]})


# --- ProMPs -----------------------------------------------------------------

@st.composite
def promps_cases(draw):
    n, nw = draw(st.integers(1, 3)), draw(st.integers(2, 5))
    how = draw(HOW)
    d = 0 if how in INTEGER else 2
    return dict(how=how, n=n, nw=nw, mean=draw(vec(n * nw, -4, 4, d)),
                a=draw(vec(n * nw, -2, 2, d)), steps=draw(st.integers(3, 12)),
                y=draw(mat(2, n, -3, 3, d)), s=draw(vec(2, 1, 4, d)),
                Y=draw(mat(12, n, -5, 5, d)), Z=draw(mat(12, n, -5, 5, d)),
                learn=draw(st.booleans()))


@sub("C31", promps_cases(), "every case", quick=800, shards=8)
def promps(c):
    n, nw = c["n"], c["nw"]

    def run(convert):
        o = ProMP(n, nw)
        a = np.array(c["a"])
        o.from_weight_distribution(convert(c["mean"]), convert(
            np.eye(n * nw) + np.outer(a, a)))
        convert.done()
        T = np.arange(c["steps"])
        r = []

        def call(f, *args, **kw):
            v = f(*[convert(x) for x in args], **kw)
            convert.done()
            r.append(v)

        call(o.mean_trajectory, T)
        call(o.cov_trajectory, T)
        call(o.var_velocities, T)
        call(o.mean_velocities, T)
        call(o.sample_trajectories, T, n_samples=2,
             random_state=np.random.RandomState(0))
        call(o.trajectory_from_weights, T, c["a"])
        call(o.weights, T, np.array(c["Y"])[:len(T)], lmbda=1e-2)
        q = o.condition_position(convert(c["y"][0]), convert(
            c["s"][0] * np.eye(n)), t=1, t_max=len(T) - 1)
        convert.done()
        call(q.mean_trajectory, T)
        call(q.cov_trajectory, T)
        q = via_points(o, convert([0, 1]), convert(
            np.array(c["y"]) if n > 1 else np.array(c["y"])[:, 0]))
        convert.done()
        call(q.mean_trajectory, T)
        if c["learn"]:
            Ts = [convert(np.arange(12)), convert(np.arange(12))]
            o.imitate(Ts, [convert(c["Y"]), convert(c["Z"])], n_iter=3)
            convert.done()
            call(o.mean_trajectory, T)
            call(o.cov_trajectory, T)
        # the distribution set in the beginning is still the same
        call(o.mean_trajectory, T)
        return r

    same(run, c["how"], 1e-8)
    return [c["how"], "learned" if c["learn"] else "given"]


# --- functions --------------------------------------------------------------

@st.composite
def function_cases(draw):
    how = draw(HOW)
    d = 0 if how in INTEGER else 2
    return dict(how=how, Y=draw(mat(3, 6, -4, 4, d)), V=draw(mat(
        3, 6, -4, 4, d)), o=draw(vec(3, -5, 5, d)), q=draw(st.lists(
            whole_quat(), min_size=3, max_size=3)), n=draw(st.integers(1, 3)),
        steps=draw(st.integers(3, 9)))


@sub("C31", function_cases(), "every case", quick=800, shards=4)
def functions(c):
    Y, V = np.array(c["Y"]), np.array(c["V"])
    n, k = c["n"], c["steps"]

    def run(convert):
        r = []

        def call(f, *args, **kw):
            v = f(*[convert(x) for x in args], **kw)
            convert.done()
            r.extend(np.array(x, copy=True) for x in (
                v if isinstance(v, tuple) else (v,)))

        call(obstacle_avoidance_acceleration_2d, Y[:, :2], V[:, :2],
             c["o"][:2])
        call(obstacle_avoidance_acceleration_2d, Y[0, :2], V[0, :2],
             c["o"][:2])
        call(obstacle_avoidance_acceleration_3d, Y[0, :3], V[0, :3], c["o"])
        call(generate_minimum_jerk, Y[0, :n], Y[1, :n], execution_time=k,
             dt=1)
        call(phase, np.arange(k), alpha=4.6, goal_t=k, start_t=0)
        o = MinimumJerkTrajectory(n, k, dt=1)
        o.configure(start_y=convert(Y[0, :n]), goal_y=convert(Y[1, :n]))
        convert.done()
        for _ in range(k):
            call(o.step, Y[2, :n], V[2, :n])
        # obstacles that are given as integers, states of the DMP are not
        for fast in (False, True):
            term = CouplingTermObstacleAvoidance2D(
                np.array(convert(c["o"][:2])), fast=fast)
            r.extend(term.coupling(Y[0, :2] + 0.5, V[0, :2] + 0.5))
        term = CouplingTermObstacleAvoidance3D(np.array(convert(c["o"])))
        call(term.coupling, Y[0, :3], V[0, :3])
        term = CouplingTermPos3DToPos3D(np.array(convert(c["o"])), (1, 0), 2)
        call(term.coupling, Y[0], V[0])
        H = np.eye(4)
        H[:3, 3] = c["o"]
        term = CouplingTermDualCartesianPose(np.array(convert(H)), (1, 0))
        y = np.hstack((Y[0, :3], c["q"][0], Y[0, 3:], c["q"][1]))
        call(term.coupling, y, np.hstack((V[0], V[1])))
        p = dict(kind="dmp", n=2, tau=2.0, dt=0.1, int_dt=0.1, nw=4,
                 smooth=True, w=[5.0] * 8, start=c["o"][:2], goal=[1.0, 2.0])
        r.extend(potential_field_2d(
            gen.build(p), convert([-1, 2]), convert([0, 3]), 3,
            convert(c["o"][:2])))
        return r

    same(run, c["how"], 1e-9)
    return [c["how"]]


@sub("C31", st.fixed_dictionaries(dict(
    robot=st.integers(1, 5).flatmap(robots.serial), Q=mat(3, 5, -1, 1, 2),
    how=HOW)), "every case", quick=200, shards=8)
def kinematics(c):
    n = len(c["robot"]["joints"])
    Q = np.array(c["Q"])[:, :n]
    if c["how"] in INTEGER:
        Q = np.round(Q)
    description = robots.urdf(c["robot"])

    def run(convert):
        chain = Kinematics(description).create_chain(
            ["j%d" % i for i in range(n)], "l0", "l%d" % n)
        r = [chain.forward(convert(Q[0]))]
        convert.done()
        r.append(chain.forward_trajectory(convert(Q)))
        convert.done()
        goal = r[1][1].copy()
        r.append(np.array(chain.ee_pose_error(convert(Q[0]), convert(goal))))
        r += [np.array(v) for v in chain.inverse(convert(goal), convert(Q[0]),
                                                 return_error=True)]
        convert.done()
        return r

    same(run, c["how"], 1e-9)
    return [c["how"]]
