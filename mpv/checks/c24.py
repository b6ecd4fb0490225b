"""C24 Propagated state distributions are those of the demonstrations' parameters."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from movement_primitives.dmp import DualCartesianDMP
from movement_primitives.dmp_to_state_space_distribution import (
    propagate_weight_distribution_to_state_space as propagate)

from ..core import sub
from ..gen import dec, demo, demo_arrays, vec
from ..util import check, close, scale_of


@st.composite
def cases(draw):
    c = dict(demo=draw(demo("dual", amplitude=0.6, max_k=1, steps=(40, 60))),
             n=draw(st.integers(2, 4)), nw=draw(st.integers(2, 3)),
             uncached=draw(st.integers(0, 3)) == 0,
             spread=draw(st.sampled_from([0.0, 0.01, 0.1, 0.1])))
    c["demo"]["tau"] = draw(dec(0.6, 1.2, 2))
    c["dt"] = draw(st.sampled_from([0.05, 0.1, 0.1, 0.08]))
    c["int_dt"] = draw(st.sampled_from([0.01, 0.02]))
    slower = draw(st.sampled_from([1.0, 1.0, 1.0, 3.0, 15.0]))
    for k, v in ((c["demo"], "tau"), (c, "dt"), (c, "int_dt")):
        k[v] = round(slower * k[v], 3)
    c["alpha"] = draw(st.sampled_from([1e-3, 1e-2, 0.1, 0.5]))
    c["kappa"] = draw(st.sampled_from([10.0, 10.0, 0.0, 3.0]))
    c["cut"] = draw(st.sampled_from([1.0, 1.0, 0.8, 0.6]))
    c["durations"] = draw(st.lists(dec(0.9, 1.1, 2), min_size=c["n"],
                                   max_size=c["n"]))
    c["shifts"] = draw(st.lists(vec(6, -1, 1, 2), min_size=c["n"],
                                max_size=c["n"]))
    return c


def dataset(c):
    """Similar demonstrations: moved, curved and timed differently."""
    data = []
    for i in range(c["n"]):
        d = dict(c["demo"])
        s = c["spread"]
        v = np.array(c["shifts"][i])
        d["delta"] = (np.array(d["delta"]) + s * np.resize(v, 12)).tolist()
        if c["spread"] > 0:
            d["tau"] = d["tau"] * c["durations"][i]
        T, Y = demo_arrays(d)
        n = int(round(c["cut"] * len(T)))  # may end with a velocity
        T, Y = T[:n], Y[:n].copy()
        Y[:, :3] += s * v[:3]
        Y[:, 7:10] += s * v[3:]
        data.append((T, Y))
    return data


def unscented(data, c):
    """Own push-forward of the Gaussian over weights, start and goal."""
    params, durations = [], []
    for T, Y in data:
        tau = T[-1] - T[0]
        o = DualCartesianDMP(tau, dt=np.mean(np.diff(T)),
                             n_weights_per_dim=c["nw"], int_dt=c["int_dt"])
        o.imitate(T, Y)
        params.append(np.hstack((o.get_weights(), Y[0], Y[-1])))
        durations.append(tau)
    params = np.array(params)
    tau = np.mean(durations)
    m = params.mean(axis=0)

    def execute(x):
        w = 12 * c["nw"]
        o = DualCartesianDMP(tau, dt=c["dt"], n_weights_per_dim=c["nw"],
                             int_dt=c["int_dt"])
        o.set_weights(x[:w])
        o.configure(start_y=x[w:w + 14], goal_y=x[w + 14:])
        return o.open_loop(run_t=tau)[1].ravel()

    # principal axes instead of the square root used by the package: the same
    # up to higher order
    X = (params - m) / np.sqrt(max(len(params) - 1, 1))
    _, s, Vt = np.linalg.svd(X, full_matrices=False)
    f0 = execute(m)
    n = len(m) + 1  # the duration is one of the parameters
    r = c["alpha"] * np.sqrt(n + c["kappa"])
    mean, parts = np.zeros_like(f0), []
    for sigma, v in zip(s, Vt):
        if sigma < 1e-12:
            continue
        a, b = execute(m + r * sigma * v), execute(m - r * sigma * v)
        mean += (a + b - 2 * f0) / (2 * r * r)
        parts.append((a - b) / (2 * r))
    cov = sum((np.outer(p, p) for p in parts), np.zeros((len(f0),) * 2))
    return f0, f0 + mean, cov, s.max()


@sub("C24", cases(), "demonstrations differ", quick=96, thorough=800,
     shards=16)
def transform(c):
    data = dataset(c)
    copies = [(T.copy(), Y.copy()) for T, Y in data]
    kw = dict(alpha=c["alpha"], kappa=c["kappa"], dt=c["dt"],
              int_dt=c["int_dt"])
    scratch = tempfile.mkdtemp()
    try:
        cache = os.path.join(scratch, "cache.txt")
        first = propagate(data, c["nw"], cache_filename=cache, **kw)
        mvn = propagate(data, c["nw"], **kw) if c["uncached"] else first
        check(os.path.exists(cache), "nothing cached")
        # from now on the dataset is not needed
        second = propagate(data[:1], c["nw"], cache_filename=cache, **kw)
    finally:
        shutil.rmtree(scratch)
    for (T, Y), (T2, Y2) in zip(data, copies):
        close(T, T2, "dataset modified", 0)
        close(Y, Y2, "dataset modified", 0)
    f0, mean, cov, sigma = unscented(data, c)
    check(len(mvn.mean) % 14 == 0, "%d values", len(mvn.mean))
    close(mvn.mean.shape, f0.shape, "number of values")
    for other, what in ((first, "writing"), (second, "reading")):
        close(other.mean, mvn.mean, "mean when %s the cache" % what, 1e-6)
        close(other.covariance, mvn.covariance,
              "covariance when %s the cache" % what, 1e-5)
    C = mvn.covariance
    close(C, C.T, "symmetric covariance", 1e-9)
    # finite differences amplify rounding errors of orientations (1e-8) by
    # the scale of the sigma points
    noise = 1e-8 / (c["alpha"] * np.sqrt(len(f0)))
    close(mvn.mean, mean, "mean", 1e-3 * min(1, 10 * sigma) + 1e-3 + noise)
    size = scale_of(cov) if c["spread"] > 0 else 1.0
    big = np.abs(cov).max()
    check(np.abs(C - cov).max() <= 0.05 * big + 1e-4 * min(1, sigma) + 1e-6,
          "covariance differs by %.3g from its largest value %.3g",
          np.abs(C - cov).max(), big)
    if c["spread"] == 0:
        check(np.abs(C).max() < 1e-6, "covariance of identical demonstrations "
              "%.3g", np.abs(C).max())
    check(np.all(np.diag(C) >= -1e-6 * size), "negative variance")
    return ["alpha %g" % c["alpha"], "spread %g" % c["spread"]] \
        if c["spread"] > 0 else False
