"""C17 Conditioning a ProMP is exact Bayesian conditioning."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.promp import ProMP, via_points

from ..core import Skip, sub
from ..gen import dec, vec
from ..util import check, close
from .c16 import basis


@st.composite
def priors(draw):
    n = draw(st.integers(1, 3))
    nw = draw(st.integers(3, 10))
    return dict(n=n, nw=nw, mean=draw(vec(n * nw)),
                factors=[draw(vec(n * nw, -1, 1, 2)) for _ in range(3)],
                ridge=draw(st.sampled_from([0.1, 0.5, 1.0])))


def make(c):
    F = np.array(c["factors"])
    cov = F.T.dot(F) + c["ridge"] * np.eye(F.shape[1])
    o = ProMP(c["n"], c["nw"])
    o.from_weight_distribution(np.array(c["mean"]), cov)
    return o


@st.composite
def observation(draw, n, noise=True):
    b = draw(vec(n, -1, 1, 2))
    return dict(s=draw(dec(0, 1, 2)), y=draw(vec(n)),
                noise=draw(st.sampled_from([None, 1e-3, 0.1, 2.0])
                           if noise else st.none()),
                b=b)


def cov_of(obs, n):
    if obs["noise"] is None:
        return None
    b = np.array(obs["b"])
    return obs["noise"] * (np.eye(n) + np.outer(b, b))


@st.composite
def cases(draw, noise=True):
    c = draw(priors())
    c["t_max"] = draw(st.sampled_from([1.0, 1.0, 0.3, 2.0, 7.5]))
    k = draw(st.integers(1, 3))
    c["obs"] = [draw(observation(c["n"], noise)) for _ in range(k)]
    for i, x in enumerate(draw(st.permutations(c["obs"]))):
        x["s"] = round((i + 0.7 * x["s"]) / (k - 0.3), 4)
    return c


def posterior(o, c, observations):
    """Joint Gaussian of weights and observations, conditioned."""
    n, nw = c["n"], c["nw"]
    A = np.vstack([basis(o, np.array([x["s"], 1.0]), n, nw)[0]
                   for x in observations])
    R = np.zeros((len(A), len(A)))
    for i, x in enumerate(observations):
        if x["noise"] is not None:
            R[i * n:(i + 1) * n, i * n:(i + 1) * n] = cov_of(x, n)
    y = np.hstack([x["y"] for x in observations])
    S, m = o.weight_cov, o.weight_mean
    G = A.dot(S).dot(A.T) + R
    cond = np.linalg.cond(G)
    K = np.linalg.solve(G, A.dot(S)).T
    return m + K.dot(y - A.dot(m)), S - K.dot(A).dot(S), cond


def separated(observations, nw):
    """Noise-free observations must not determine the same thing twice."""
    t = sorted(x["s"] for x in observations)
    return all(b - a > 0.7 / nw for a, b in zip(t, t[1:]))


@sub("C17", cases(), "every case", quick=2000, shards=8)
def bayes(c):
    """Exact posterior, in sequence and at once."""
    o = make(c)
    n = c["n"]
    if not separated(c["obs"], c["nw"]):
        raise Skip("observations too close to each other")
    m0, S0 = o.weight_mean.copy(), o.weight_cov.copy()
    p = o
    for x in c["obs"]:
        q = p.condition_position(np.array(x["y"]), y_cov=cov_of(x, n),
                                 t=x["s"] * c["t_max"], t_max=c["t_max"])
        check(isinstance(q, ProMP) and q is not p, "no new ProMP")
        p = q
    close(o.weight_mean, m0, "mean of the original", 0)
    close(o.weight_cov, S0, "covariance of the original", 0)
    m, S, cond = posterior(o, c, c["obs"])
    if cond > 1e6:
        raise Skip("ill-conditioned")
    close(p.weight_mean, m, "mean of weights", 1e-8 * cond, scale=10.0)
    close(p.weight_cov, S, "covariance of weights", 1e-9 * cond, scale=10.0)
    close(p.weight_cov, p.weight_cov.T, "symmetry", 1e-9 * cond)
    # order
    p2 = o
    for x in reversed(c["obs"]):
        p2 = p2.condition_position(np.array(x["y"]), cov_of(x, n),
                                   x["s"] * c["t_max"], c["t_max"])
    close(p2.weight_mean, p.weight_mean, "another order: mean", 1e-8 * cond,
          scale=10.0)
    close(p2.weight_cov, p.weight_cov, "another order: covariance",
          1e-9 * cond, scale=10.0)
    # variances never increase
    T = np.linspace(0, 1, 15)
    check(np.all(p.var_trajectory(T) <= o.var_trajectory(T) + 1e-9 * cond),
          "variance increases")
    for x in c["obs"]:
        if x["noise"] is None:
            Tq = np.array([x["s"], 1.0])
            close(p.mean_trajectory(Tq)[0], x["y"], "passes through via-point",
                  1e-8 * cond)
            close(p.var_trajectory(Tq)[0], np.zeros(n),
                  "variance at via-point", 1e-8 * cond)
    return ["%d observations" % len(c["obs"]), "%d dims" % n,
            "unit time" if c["t_max"] == 1.0 else "other time"] + [
                "noise free" if x["noise"] is None else "noisy"
                for x in c["obs"]]


@st.composite
def several(draw):
    c = draw(cases(noise=False))
    c["noise"] = draw(st.sampled_from([None, None, "given"]))
    c["sigma"] = [draw(dec(0.01, 1, 2)) for _ in c["obs"]]
    return c


@sub("C17", several(), "more than one via-point", quick=1200, shards=8)
def via(c):
    """Several via-points at once."""
    o = make(c)
    n = c["n"]
    if not separated(c["obs"], c["nw"]):
        raise Skip("observations too close to each other")
    obs = [dict(x, noise=s if c["noise"] else None)
           for x, s in zip(c["obs"], c["sigma"])]
    m, S, cond = posterior(o, c, obs)
    if cond > 1e6:
        raise Skip("ill-conditioned")
    ts = np.array([x["s"] for x in obs])
    y = np.array([x["y"] for x in obs])
    kw = {}
    if c["noise"]:
        kw["y_conditional_cov"] = np.array([cov_of(x, n) for x in obs])
    if n == 1:
        y = y[:, 0]
        if kw:
            kw["y_conditional_cov"] = kw["y_conditional_cov"][:, 0, 0]
    m0, S0 = o.weight_mean.copy(), o.weight_cov.copy()
    p = via_points(o, ts, y, **kw)
    close(p.weight_mean, m, "mean of weights", 1e-8 * cond, scale=10.0)
    close(p.weight_cov, S, "covariance of weights", 1e-9 * cond, scale=10.0)
    close(o.weight_mean, m0, "mean of the original", 0)
    close(o.weight_cov, S0, "covariance of the original", 0)
    return ["%d via-points" % len(obs), "%d dims" % n,
            "noise" if c["noise"] else "noise free"] if len(obs) > 1 else False
