"""C11 Phase and forcing term have the documented shape."""
import numpy as np
from hypothesis import strategies as st

import movement_primitives.dmp_fast as fast
from movement_primitives.dmp import DMP
from movement_primitives.dmp._canonical_system import (
    canonical_system_alpha, phase)
from movement_primitives.dmp._forcing_term import ForcingTerm

from .. import ref
from ..core import sub
from ..gen import dec, mat, vec
from ..util import check, close, finite


@st.composite
def spans(draw):
    start = draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, -2.5, 13.7, 1000.0]))
    tau = draw(st.one_of(dec(0.01, 0.1, 3), dec(0.1, 10, 2),
                         dec(10, 1000, 0)))
    return dict(start=start, tau=tau, goal_z=draw(st.sampled_from(
        [0.01, 0.01, 0.001, 0.1, 0.3, 1e-4, 0.05])))


@sub("C11", st.tuples(spans(), vec(6, -1, 6, 3)).map(
    lambda a: dict(a[0], s=a[1])), "every case", quick=4000, shards=4)
def canonical_system(c):
    t0, tau = c["start"], c["tau"]
    t1 = t0 + tau
    alpha = canonical_system_alpha(c["goal_z"], t1, t0)
    S = np.array(c["s"])
    expected = c["goal_z"] ** S
    # rounding of t0 + s * tau
    eps = 1e-15 * (1 + abs(t0) / tau) * 20
    for name, f in (("python", phase), ("fast", fast.phase)):
        close(float(f(t0, alpha, t1, t0)), 1.0, name + ": start", 1e-12 + eps)
        close(float(f(t1, alpha, t1, t0)), c["goal_z"],
              name + ": end", 1e-12 + eps)
        z = np.array([float(f(float(t0 + s * tau), alpha, t1, t0))
                      for s in S])
        check(np.all(np.abs(z / expected - 1.0) < 1e-9 + 20 * eps),
              "%s: phase is not exponential", name)
        check(np.all(z > 0), "phase not positive")
        many = np.asarray(f(t0 + S * tau, alpha, t1, t0))
        close(many, z, name + ": array of times", 1e-12)
        order = np.argsort(S, kind="stable")
        check(np.all(np.diff(z[order]) <= 0), "phase increases")
    return ["start zero" if t0 == 0 else "start not zero"]


@st.composite
def terms(draw):
    c = draw(spans())
    c["n_dims"] = draw(st.integers(1, 4))
    c["nw"] = draw(st.one_of(st.integers(2, 15), st.integers(2, 15),
                             st.integers(16, 300)))
    m = min(c["nw"], 15)
    c["w"] = draw(mat(c["n_dims"], m, -100, 100, 1))
    c["v"] = draw(mat(c["n_dims"], m, -10, 10, 1))
    c["const"] = draw(dec(-50, 50, 1))
    c["s"] = draw(vec(6, -0.3, 1.5, 3)) + [0.0, 1.0] + draw(
        vec(2, 2, 60, 1))
    c["overlap"] = draw(st.sampled_from([0.8, 0.8, 0.5, 0.1]))
    return c


def weights_of(c, name):
    """Repeat the drawn columns."""
    W = np.array(c[name])
    return W[:, np.arange(c["nw"]) % W.shape[1]]


@sub("C11", terms(), "weights differ", quick=3000, shards=8)
def forcing_term(c):
    t0, tau, nw = c["start"], c["tau"], c["nw"]
    t1 = t0 + tau
    alpha = canonical_system_alpha(c["goal_z"], t1, t0)

    def term(W):
        f = ForcingTerm(c["n_dims"], nw, t1, t0, c["overlap"], alpha)
        check(f.shape == W.shape, "shape of weights")
        close(f.weights_, np.zeros_like(W), "initial weights", 0)
        f.weights_[:, :] = W
        return f

    W, V = weights_of(c, "w"), weights_of(c, "v")
    f = term(W)
    S = np.array(c["s"])
    T = t0 + S * tau
    z = c["goal_z"] ** S
    F = np.column_stack([np.asarray(f(float(t))).reshape(c["n_dims"])
                         for t in T])
    finite(F, "forcing term")
    close(np.asarray(f(T)), F, "several times at once", 1e-9)
    close([float(f.phase(float(t))) for t in T], z, "phase", 1e-9 + 1e-13
          * abs(t0) / tau, scale=z.max())
    # bounds, up to rounding
    hi, lo = W.max(axis=1), W.min(axis=1)
    slack = 1e-9 * (1 + np.abs(W).max()) * (1 + abs(t0) / tau * 1e-4)
    Z = np.maximum(z, 1e-300)
    check(np.all(F <= np.maximum(hi[:, None] * Z, hi[:, None] * Z)
                 + slack * Z) and np.all(F >= lo[:, None] * Z - slack * Z),
          "forcing term is not phase times a convex combination of weights")
    # linear
    G = np.asarray(term(V)(T))
    H = np.asarray(term(2.0 * W - 3.0 * V)(T))
    close(H, 2 * F - 3 * G, "linear in the weights", 1e-9)
    # all weights equal
    E = np.asarray(term(np.full_like(W, c["const"]))(T))
    close(E / Z, np.full(E.shape, c["const"]), "equal weights", 1e-7
          + 1e-10 * abs(t0) / tau)
    # reference, conditioned on the distance of centers
    if nw <= 15 and abs(t0) <= 20:
        A = ref.rbf(S * tau, tau, nw, c["overlap"], -np.log(c["goal_z"]))
        close(F / Z, W.dot(A), "forcing term divided by phase", 1e-6)
    return ["many weights" if nw > 15 else "few weights",
            "start zero" if t0 == 0 else "start not zero"
            ] if np.ptp(W) > 0 else False


@sub("C11", st.tuples(spans(), st.one_of(st.integers(2, 12),
                                         st.integers(2, 60))).map(
    lambda a: dict(a[0], nw=a[1])), "at least three weights", quick=1200,
    shards=4)
def centers(c):
    """Weight i dominates at its own, equally spaced time."""
    t0, tau, nw = c["start"], c["tau"], c["nw"]
    alpha = canonical_system_alpha(c["goal_z"], t0 + tau, t0)
    f = ForcingTerm(nw, nw, t0 + tau, t0, 0.8, alpha)
    f.weights_[:, :] = np.eye(nw)  # one output per weight
    for i in range(nw):
        t = t0 + i * tau / (nw - 1)
        a = np.asarray(f(t)).reshape(nw) / float(f.phase(t))
        check(int(np.argmax(a)) == i, "weight %d dominates at the time of "
              "weight %d of %d", int(np.argmax(a)), i, nw)
        close(a.sum(), 1.0, "sum of activations", 1e-9)
    return ["%d weights" % min(nw, 13)] if nw > 2 else False


@sub("C11", st.fixed_dictionaries(dict(
    nw=st.integers(2, 40), tau=dec(0.1, 10, 2), tau2=dec(0.1, 10, 2),
    w=vec(40, -50, 50, 1), s=vec(5, 0, 1.2, 2))),
    "duration changes", quick=1200, shards=4)
def duration(c):
    """The forcing term of a DMP stretches with its duration."""
    o = DMP(n_dims=1, execution_time=c["tau"], n_weights_per_dim=c["nw"])
    o.set_weights(np.array(c["w"][:c["nw"]]))
    S = np.array(c["s"])
    a = np.asarray(o.forcing_term(S * c["tau"]))
    o.execution_time_ = c["tau2"]
    b = np.asarray(o.forcing_term(S * c["tau2"]))
    close(b, a, "forcing term after a change of the duration", 1e-7)
    if c["nw"] <= 15:
        close(a[0], [ref.forcing(s, 1.0, np.array([c["w"][:c["nw"]]]))[0]
                     for s in S], "forcing term", 1e-6)
    return ["changed"] if c["tau"] != c["tau2"] else False
