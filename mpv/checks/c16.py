"""C16 ProMP trajectory distributions are consistent linear-Gaussian models."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.promp import ProMP

from ..core import sub
from ..gen import dec, vec
from ..util import check, close, finite


@st.composite
def models(draw, max_weights=12):
    n = draw(st.integers(1, 3))
    nw = draw(st.integers(2, max_weights))
    rank = draw(st.integers(1, 3))
    return dict(n=n, nw=nw, mean=draw(vec(n * nw)),
                factors=[draw(vec(n * nw, -1, 1, 2)) for _ in range(rank)],
                ridge=draw(st.sampled_from([0.0, 1e-3, 0.1, 1.0])))


def promp(c):
    F = np.array(c["factors"])
    cov = F.T.dot(F) + c["ridge"] * np.eye(F.shape[1])
    mean = np.array(c["mean"])
    o = ProMP(n_dims=c["n"], n_weights_per_dim=c["nw"])
    check(o.from_weight_distribution(mean.copy(), cov.copy()) is o,
          "from_weight_distribution does not return the object")
    return o, mean, cov


@st.composite
def time_vectors(draw, min_steps=2):
    """Increasing times from zero, any duration and spacing."""
    n = draw(st.integers(min_steps, 25))
    duration = draw(st.one_of(st.just(1.0), dec(0.1, 20, 1)))
    if draw(st.booleans()):
        return [float(t) for t in np.linspace(0, duration, n)]
    inc = draw(st.lists(st.integers(1, 50), min_size=n - 1, max_size=n - 1))
    s = np.hstack((0, np.cumsum(inc))) / sum(inc)
    return [float(t) for t in s * duration]


def basis(o, T, n, nw):
    """Linear map of weights to positions, found by evaluating it."""
    B = np.empty((len(T), n, n * nw))
    for i in range(n * nw):
        e = np.zeros(n * nw)
        e[i] = 1.0
        B[:, :, i] = o.trajectory_from_weights(T, e)
    return B


MODEL = st.tuples(models(), time_vectors()).map(lambda a: dict(a[0], T=a[1]))


@sub("C16", MODEL, "more than one dimension or more than two weights",
     quick=1500, shards=8)
def push_forward(c):
    """Mean and covariance of positions, order of dimensions and steps."""
    o, mean, cov = promp(c)
    n, nw, T = c["n"], c["nw"], np.array(c["T"])
    B = basis(o, T, n, nw)
    # the same normalized basis in every dimension, ordered by dimension
    one = B[:, 0, :nw]
    close(one.sum(axis=1), np.ones(len(T)), "sum of basis functions", 1e-9)
    check(np.all(one >= 0), "negative basis functions")
    for d in range(n):
        for e in range(n):
            block = B[:, d, e * nw:(e + 1) * nw]
            close(block, one if d == e else 0 * one, "basis of dimension %d "
                  "for weights of dimension %d" % (d, e), 1e-12)
    w = np.array(c["factors"][0])
    close(o.trajectory_from_weights(T, 2 * mean - w),
          B.dot(2 * mean - w), "linear", 1e-9)
    close(o.mean_trajectory(T), B.dot(mean), "mean", 1e-9)
    flat = B.transpose(1, 0, 2).reshape(n * len(T), n * nw)
    C = flat.dot(cov).dot(flat.T)
    close(o.cov_trajectory(T), C, "covariance", 1e-9)
    close(o.var_trajectory(T), np.diag(C).reshape(n, len(T)).T, "variance",
          1e-9)
    # centers: basis function i dominates at its own time
    if nw > 1:
        K = basis(o, np.linspace(0, T[-1], nw), n, nw)[:, 0, :nw]
        check(np.array_equal(np.argmax(K, axis=1), np.arange(nw)),
              "basis functions are not equally spaced")
        close(K, K[::-1, ::-1], "symmetry of basis functions", 1e-9)
    return ["%d dims" % n] if n > 1 or nw > 2 else False


@sub("C16", st.tuples(MODEL, dec(0.05, 0.95, 2)).map(
    lambda a: dict(a[0], s=a[1])), "every case", quick=1500, shards=8)
def velocities(c):
    """Velocities are time derivatives of positions."""
    o, mean, cov = promp(c)
    n, nw, T = c["n"], c["nw"], np.array(c["T"])
    end = T[-1]
    t = c["s"] * end
    h = 2e-4 * end
    # eighth order central difference
    k = np.arange(-4, 5)
    coef = np.array([1 / 280, -4 / 105, 1 / 5, -4 / 5, 0, 4 / 5, -1 / 5,
                     4 / 105, -1 / 280]) / h
    times = np.hstack((t + k * h, end))
    B = basis(o, times, n, nw)
    D = np.tensordot(coef, B[:-1], axes=(0, 0))  # n x n*nw
    Tq = np.array([0.0, t, end])
    scale = 1.0 + 30.0 / end * max(1.0, np.abs(mean).max())
    close(o.mean_velocities(Tq)[1], D.dot(mean), "mean velocity", 1e-7, scale)
    C = D.dot(cov).dot(D.T)
    vscale = (1.0 + 30.0 / end) ** 2 * max(1.0, np.abs(cov).max()) * nw
    close(o.var_velocities(Tq)[1], np.diag(C), "variance of velocity", 1e-7,
          vscale)
    full = o.cov_velocities(Tq)
    close(full[1::3, 1::3], C, "covariance of velocity", 1e-7, vscale)
    close(np.diag(full).reshape(n, 3).T, o.var_velocities(Tq),
          "diagonal of the covariance", 1e-9)
    finite(full, "covariance of velocities")
    # complete vector of times: same values at same times
    V = o.mean_velocities(T)
    check(V.shape == (len(T), n), "shape of velocities")
    close(V[[0, -1]], o.mean_velocities(Tq)[[0, 2]], "velocity at the ends",
          1e-9)
    # part of the movement
    late = T[len(T) // 2:]
    close(o.mean_velocities(late), V[len(T) // 2:], "velocities at the last "
          "times", 1e-9, scale)
    close(o.var_velocities(late), o.var_velocities(T)[len(T) // 2:],
          "variances of velocities at the last times", 1e-9, vscale)
    close(o.mean_trajectory(late), o.mean_trajectory(T)[len(T) // 2:],
          "positions at the last times", 1e-9)
    close(o.var_trajectory(late), o.var_trajectory(T)[len(T) // 2:],
          "variances at the last times", 1e-9)
    return ["unit" if end == 1.0 else "other duration"]


@sub("C16", st.tuples(MODEL, st.sampled_from([0.001, 0.1, 3.0, 60.0, 1e3])
                      ).map(lambda a: dict(a[0], unit=a[1])),
     "every case", quick=800, shards=4)
def time_unit(c):
    o, mean, cov = promp(c)
    T, f = np.array(c["T"]), c["unit"]
    close(o.mean_trajectory(f * T), o.mean_trajectory(T), "mean", 1e-8)
    close(o.var_trajectory(f * T), o.var_trajectory(T), "variance", 1e-8)
    close(o.cov_trajectory(f * T), o.cov_trajectory(T), "covariance", 1e-8)
    V = o.mean_velocities(T)
    close(o.mean_velocities(f * T) * f, V, "velocity", 1e-7)
    close(o.var_velocities(f * T) * f ** 2, o.var_velocities(T),
          "variance of velocity", 1e-7)
    close(o.cov_velocities(f * T) * f ** 2, o.cov_velocities(T),
          "covariance of velocity", 1e-7)
    w = o.weights(T, o.mean_trajectory(T), lmbda=1e-3)
    close(o.weights(f * T, o.mean_trajectory(T), lmbda=1e-3), w, "weights",
          1e-5)
    return ["unit %g" % f]


@sub("C16", st.tuples(models(), time_vectors(25)).map(
    lambda a: dict(a[0], T=a[1])), "at least as many steps as weights",
    quick=800, shards=4)
def fit(c):
    """Fitting weights reproduces representable trajectories."""
    o, mean, _ = promp(c)
    T = np.array(c["T"])
    Y = o.trajectory_from_weights(T, mean)
    before = o.mean_trajectory(T)
    w = o.weights(T, Y)
    check(w.shape == mean.shape, "shape of weights")
    finite(w, "weights")
    close(o.trajectory_from_weights(T, w), Y, "fitted trajectory", 1e-4)
    close(o.mean_trajectory(T), before, "fitting changes the ProMP", 0)
    # ridge regression: the solution minimizes the regularized error
    lmbda = 0.05
    B = basis(o, T, c["n"], c["nw"]).transpose(1, 0, 2).reshape(
        c["n"] * len(T), -1)
    Z = Y + 0.1 * np.sin(9 * T)[:, np.newaxis]
    w = o.weights(T, Z, lmbda=lmbda)
    gradient = B.T.dot(B.dot(w) - Z.T.ravel()) + lmbda * w
    close(gradient, np.zeros_like(w), "gradient of the regularized error",
          1e-6)
    return ["%d dims" % c["n"]]


@sub("C16", st.tuples(MODEL, st.integers(0, 10 ** 6), st.integers(1, 4)).map(
    lambda a: dict(a[0], seed=a[1], few=a[2])),
    "covariance is not zero", quick=300, shards=8)
def samples(c):
    """Samples are reproducible and follow mean and covariance."""
    o, mean, cov = promp(c)
    n, nw, T = c["n"], c["nw"], np.array(c["T"])
    S = o.sample_trajectories(T, c["few"], np.random.RandomState(c["seed"]))
    R = o.sample_trajectories(T, c["few"], np.random.RandomState(c["seed"]))
    check(S.shape == (c["few"], len(T), n), "shape %s", S.shape)
    close(S, R, "same random state", 1e-9)
    other = o.sample_trajectories(T, 1, np.random.RandomState(c["seed"] + 1))
    if o.var_trajectory(T).max() > 1e-6:
        check(np.abs(other[0] - S[0]).max() > 1e-12,
              "random state has no influence")
    few = [S, other]
    m = 400
    S = o.sample_trajectories(T, m, np.random.RandomState(c["seed"]))
    B = basis(o, T, n, nw)
    flat = B.reshape(len(T) * n, n * nw)
    X = S.reshape(m, -1)
    # samples are representable
    w, res = np.linalg.lstsq(flat, X.T, rcond=1e-10)[:2]
    close(flat.dot(w), X.T, "samples are in the span of the basis", 1e-5)
    C = flat.dot(cov).dot(flat.T)
    E = X - flat.dot(mean)
    rng = np.random.RandomState(1)
    U = np.vstack((np.eye(len(C)), rng.randn(20, len(C))))
    var = np.einsum("ij,jk,ik->i", U, C, U)
    P = E.dot(U.T)
    small = 1e-9 * (1 + np.abs(C).max())
    sigma = np.sqrt(np.maximum(var, small))
    for X in few:  # also single samples are plausible
        E = X.reshape(len(X), -1) - flat.dot(mean)
        check(np.all(np.abs(E.dot(U.T)) < 8 * sigma + 1e-6),
              "one of %d samples is far away from the mean", len(X))
    # 400 samples: 7 standard deviations of mean and variance
    check(np.all(np.abs(P.mean(axis=0)) < 7 * sigma / np.sqrt(m) + 1e-6),
          "mean of samples")
    ratio = P.var(axis=0) / sigma ** 2
    ok = var > 10 * small
    bound = 7 * np.sqrt(2.0 / m)
    check(np.all(np.abs(ratio[ok] - 1) < bound), "variance of samples: "
          "ratio %s", np.round(ratio[ok][np.argmax(np.abs(ratio[ok] - 1))]
                               if ok.any() else 1, 3))
    return ["full rank" if c["ridge"] else "rank deficient"]
