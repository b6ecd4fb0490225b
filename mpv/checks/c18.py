"""C18 ProMP imitation recovers the distribution of demonstrations."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.promp import ProMP

from ..core import sub
from ..gen import dec, vec
from ..util import check, close, finite


@st.composite
def datasets(draw, noise=(1e-3,), min_demos=3):
    n, nw = draw(st.integers(1, 3)), draw(st.integers(3, 7))
    m = draw(st.integers(min_demos, 8))
    c = dict(n=n, nw=nw, tau=draw(st.one_of(st.just(1.0), dec(0.2, 5, 1))),
             mean=draw(vec(n * nw, -3, 3, 1)),
             spread=draw(st.sampled_from([0.1, 0.5, 1.0])),
             dev=[draw(vec(n * nw, -1, 1, 2)) for _ in range(m)],
             steps=[draw(st.integers(25, 45)) for _ in range(m)]
             if draw(st.booleans()) else [draw(st.integers(25, 45))] * m,
             # demonstrations are sampled at their own times
             warp=[draw(st.sampled_from([0.8, 1.0, 1.25])) for _ in range(m)]
             if draw(st.booleans()) else [1.0] * m,
             noise=draw(st.sampled_from(noise)))
    return c


def demonstrations(c):
    """Trajectories of a ProMP with small, deterministic disturbances."""
    o = ProMP(c["n"], c["nw"])
    Ts, Ys = [], []
    for i, (d, n, g) in enumerate(zip(c["dev"], c["steps"], c["warp"])):
        T = c["tau"] * np.linspace(0, 1, n) ** g
        w = np.array(c["mean"]) + c["spread"] * np.array(d)
        Y = o.trajectory_from_weights(T, w)
        k = np.arange(Y.size).reshape(Y.shape)
        Y = Y + c["noise"] * np.sin(1e4 * (k + 1.3 + 31 * i) ** 1.5)
        Ts.append(T)
        Ys.append(Y)
    return Ts, Ys


def learn(c, Ts, Ys, **kw):
    o = ProMP(c["n"], c["nw"])
    o.imitate(Ts, Ys, **kw)
    return o


def valid(o, what):
    finite(o.weight_mean, what + ": mean of weights")
    finite(o.weight_cov, what + ": covariance of weights")
    S = o.weight_cov
    size = max(1e-12, np.abs(S).max())
    close(S / size, S.T / size, what + ": symmetry", 1e-8)
    low = np.linalg.eigvalsh(0.5 * (S + S.T)).min()
    check(low >= -1e-8 * size, "%s: eigenvalue %.3g of the covariance", what,
          low / size)


@sub("C18", st.tuples(datasets(), st.booleans()).map(
    lambda a: dict(a[0], default=a[1])), "demonstrations differ", quick=640,
    shards=8)
def recovers(c):
    """Mean and spread of demonstrations."""
    # the optimization stops as soon as the mean does not change, that is,
    # immediately if it is the initial one, and converges slowly close to it
    c["mean"] = [4.0 + m for m in c["mean"]]
    Ts, Ys = demonstrations(c)
    o = learn(c, Ts, Ys, **({} if c["default"] else
                            dict(n_iter=100, min_delta=0.0)))
    valid(o, "learned")
    T = np.linspace(0, c["tau"], 30)
    # at the same times
    gen = ProMP(c["n"], c["nw"])
    D = np.array([gen.trajectory_from_weights(
        T, np.array(c["mean"]) + c["spread"] * np.array(d))
        for d in c["dev"]])
    close(o.mean_trajectory(T), D.mean(axis=0), "mean trajectory", 1e-2)
    std, expected = np.sqrt(o.var_trajectory(T)), D.std(axis=0)
    close(std, expected, "standard deviation", 0.02, scale=1 + c["spread"])
    X = (D - D.mean(axis=0)).transpose(0, 2, 1).reshape(len(D), -1)
    C = X.T.dot(X) / len(D)
    close(o.cov_trajectory(T), C, "covariance of the trajectory",
          0.1 * C.max() + 2e-3, scale=1.0)
    big = expected > 0.05
    if big.any():
        r = std[big] / expected[big]
        check(np.all(np.abs(r - 1) < 0.25), "standard deviation is %.3g times "
              "the spread of the demonstrations", r[np.argmax(np.abs(r - 1))])
    return ["%d dims" % c["n"], "same length" if len(set(c["steps"])) == 1
            else "different lengths", "same times" if len(set(c["warp"])) == 1
            else "different times"] if big.any() else False


@st.composite
def transforms(draw):
    c = draw(datasets(noise=(1e-3, 0.05), min_demos=2))
    m = len(c["dev"])
    return dict(c, order=draw(st.permutations(range(m))),
                unit=draw(st.sampled_from([0.01, 3.0, 100.0])),
                dims=draw(st.permutations(range(c["n"]))),
                n_iter=draw(st.integers(1, 12)))


@sub("C18", transforms(), "demonstrations differ", quick=640, shards=8)
def symmetries(c):
    """Order of demonstrations, time unit, order of dimensions."""
    Ts, Ys = demonstrations(c)
    # an even number of iterations for all, no early stop
    kw = dict(n_iter=c["n_iter"], min_delta=0.0)
    o = learn(c, Ts, Ys, **kw)
    valid(o, "learned")
    tol = 1e-4
    ms = max(1.0, np.abs(o.weight_mean).max())
    cs = max(1.0, np.abs(o.weight_cov).max())
    a = learn(c, [Ts[i] for i in c["order"]], [Ys[i] for i in c["order"]],
              **kw)
    b = learn(c, [c["unit"] * T for T in Ts], Ys, **kw)
    d = learn(c, Ts, [Y[:, c["dims"]] for Y in Ys], **kw)
    nw = c["nw"]
    idx = np.hstack([np.arange(k * nw, (k + 1) * nw) for k in c["dims"]])
    for other, what, i in ((a, "another order of demonstrations", None),
                           (b, "another unit of time", None),
                           (d, "another order of dimensions", idx)):
        mean, cov = o.weight_mean, o.weight_cov
        if i is not None:
            mean, cov = mean[i], cov[np.ix_(i, i)]
        close(other.weight_mean, mean, what + ": mean", tol, ms)
        close(other.weight_cov, cov, what + ": covariance", tol, cs)
    return ["%d dims" % c["n"], "%d demos" % len(Ts)] if np.ptp(
        c["dev"], axis=0).max() > 0 else False


@sub("C18", st.tuples(datasets(noise=(1e-3, 0.05)), st.integers(1, 8),
                      st.sampled_from([1e-1, 1e-2, 1e-3, 1e-5])).map(
    lambda a: dict(a[0], n=a[0]["n"], limit=a[1], delta=a[2])),
    "more than one iteration is needed", quick=400, shards=8)
def iterations(c):
    """Stops after the change is below the threshold, or at the limit."""
    Ts, Ys = demonstrations(c)
    means, covs = [np.zeros(c["n"] * c["nw"])], [None]
    stop = None
    for k in range(1, c["limit"] + 1):
        o = learn(c, Ts, Ys, n_iter=k, min_delta=0.0)
        means.append(o.weight_mean)
        covs.append(o.weight_cov)
        change = np.linalg.norm(means[-1] - means[-2])
        if abs(change / c["delta"] - 1) < 1e-3:
            return False  # decision is subject to rounding
        if change < c["delta"]:
            stop = k
            break
    k = stop or c["limit"]
    o = learn(c, Ts, Ys, n_iter=c["limit"], min_delta=c["delta"])
    scale = max(1.0, np.abs(means[k]).max())
    close(o.weight_mean, means[k], "mean after %d iterations" % k, 1e-5, scale)
    close(o.weight_cov, covs[k], "covariance after %d iterations" % k, 1e-4,
          max(1.0, np.abs(covs[k]).max()))
    return ["stopped early" if stop else "limit"] if k > 1 else False


@sub("C18", st.tuples(datasets(noise=(0.05, 0.3)),
                      st.sampled_from([10, 30, 60, 120, 250])).map(
    lambda a: dict(a[0], k=a[1])), "not converged after the first half",
    quick=160, shards=8)
def many_iterations(c):
    """The number of iterations is only limited by the argument."""
    Ts, Ys = demonstrations(c)
    half, k, twice = (learn(c, Ts, Ys, n_iter=i, min_delta=0.0).weight_mean
                      for i in (c["k"] // 2, c["k"], 2 * c["k"]))
    if np.abs(half - k).max() < 1e-5:
        return False
    check(np.abs(k - twice).max() > 1e-13, "optimization ends after %d "
          "iterations although it has not converged", c["k"])
    return ["%d iterations" % c["k"]]


@st.composite
def unusual(draw):
    c = draw(datasets(noise=(0.0, 1e-6, 0.3), min_demos=1))
    mode = draw(st.sampled_from(["plain", "identical", "zero", "constant"]))
    m = len(c["dev"])
    if mode == "identical":
        c["dev"] = [c["dev"][0]] * m
    if mode in ("zero", "constant"):
        c["dev"] = [[0.0] * len(c["mean"])] * m
        c["mean"] = [0.0 if mode == "zero" else 1.5] * len(c["mean"])
    return dict(c, mode=mode, n_iter=draw(st.sampled_from([1, 5, 30, 1000])))


@sub("C18", unusual(), "every case", quick=480, shards=8)
def always_valid(c):
    """Also single, identical, and noise-free demonstrations."""
    Ts, Ys = demonstrations(c)
    o = learn(c, Ts, Ys, n_iter=c["n_iter"])
    valid(o, c["mode"])
    T = np.linspace(0, c["tau"], 20)
    finite(o.mean_trajectory(T), "mean trajectory")
    check(np.all(o.var_trajectory(T) >= 0), "negative variance")
    finite(o.var_trajectory(T), "variance")
    return [c["mode"], "noise %g" % c["noise"]]
