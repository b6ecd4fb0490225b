"""C28 Dataset generators and loaders deliver what they describe."""
import os
import shutil
import tempfile

import numpy as np
import scipy.io
from hypothesis import strategies as st

from movement_primitives.data import (
    generate_1d_trajectory_distribution as toy, load_lasa)

from ..core import sub
from ..gen import dec
from ..util import check, close


# --- toy data ---------------------------------------------------------------

@st.composite
def toy_cases(draw):
    return dict(n=draw(st.integers(1, 6)), steps=draw(st.integers(3, 60)),
                initial=draw(st.sampled_from([0.0, 0.1, 3.0, 20.0])),
                final=draw(st.sampled_from([0.0, 0.1, 3.0, 20.0])),
                noise=draw(st.sampled_from([0.0, 1.0, 20.0, 500.0])),
                seed=draw(st.integers(0, 10 ** 6)))


def offsets(c, T, Y):
    """Residuals of a least squares fit with a line."""
    D = Y[:, :, 0] - np.cos(2 * np.pi * T)
    A = np.stack((1 - T, T), axis=1)
    coef = np.linalg.lstsq(A, D.T, rcond=None)[0].T
    return coef, D - coef.dot(A.T)


@sub("C28", toy_cases(), "there is an offset or noise", quick=2000, shards=8)
def toy_data(c):
    args = dict(initial_offset_range=c["initial"],
                final_offset_range=c["final"], noise_per_step_range=c["noise"])
    for a in toy(c["n"], c["steps"], random_state=np.random.RandomState(
            c["seed"]), **args):
        a[...] = 7.0  # returned arrays belong to the caller
    T, Y = toy(c["n"], c["steps"], random_state=np.random.RandomState(
        c["seed"]), **args)
    close(T, np.arange(c["steps"]) / (c["steps"] - 1), "times", 1e-12)
    check(Y.shape == (c["n"], c["steps"], 1), "shape %s", Y.shape)
    check(np.all(np.isfinite(Y)), "not finite")
    again = toy(c["n"], c["steps"], random_state=np.random.RandomState(
        c["seed"]), **args)[1]
    close(again, Y, "same random state", 0)
    default = toy(c["n"], c["steps"], **args)[1]
    zero = toy(c["n"], c["steps"], random_state=np.random.RandomState(0),
               **args)[1]
    close(default, zero, "default is seed 0", 0)
    state = np.random.get_state()
    np.random.seed(c["seed"])
    close(toy(c["n"], c["steps"], **args)[1], default,
          "second call with default arguments", 0)
    np.random.set_state(state)
    if c["noise"] == 0:
        coef, residual = offsets(c, T, Y)
        check(np.abs(residual).max() < 1e-9 * (1 + np.abs(coef).max()),
              "not a cosine with linear offset")
        check(np.all(np.abs(coef[:, 0]) <= 0.5 * c["initial"] + 1e-9),
              "initial offset %.3g", np.abs(coef[:, 0]).max())
        check(np.all(np.abs(coef[:, 1]) <= 0.5 * c["final"] + 1e-9),
              "final offset %.3g", np.abs(coef[:, 1]).max())
        if c["n"] > 1 and c["initial"] > 0:
            check(np.ptp(coef[:, 0]) > 0, "all initial offsets are the same")
        if c["n"] > 1 and c["final"] > 0:
            check(np.ptp(coef[:, 1]) > 0, "all final offsets are the same")
        return ["offset"] if c["initial"] or c["final"] else False
    # noise of the same random state is proportional to the factor
    more = toy(c["n"], c["steps"], random_state=np.random.RandomState(
        c["seed"]), **dict(args, noise_per_step_range=3 * c["noise"]))[1]
    half = toy(c["n"], c["steps"], random_state=np.random.RandomState(
        c["seed"]), **dict(args, noise_per_step_range=0.5 * c["noise"]))[1]
    unit = (more - half) / (2.5 * c["noise"])
    base = Y - c["noise"] * unit
    coef, residual = offsets(c, T, base)
    size = 1 + np.abs(Y).max()
    check(np.abs(residual).max() < 1e-6 * size,
          "noise is not proportional to the factor")
    check(np.all(np.abs(coef[:, 0]) <= 0.5 * c["initial"] + 1e-6 * size),
          "initial offset")
    check(np.all(np.abs(coef[:, 1]) <= 0.5 * c["final"] + 1e-6 * size),
          "final offset")
    check(np.abs(unit).max() > 0, "no noise")
    return ["noise", "noise and offset" if c["initial"] or c["final"]
            else "only noise"]


@sub("C28", st.fixed_dictionaries(dict(
    steps=st.integers(4, 30), factor=dec(0.5, 50, 1),
    seed=st.integers(0, 10 ** 6))), "always", quick=160, shards=8)
def toy_statistics(c):
    """Second differences of the smooth noise are white: variance factor^2.

    For second differences A (zero before and after the movement) the noise
    has the covariance factor^2 (A^T A)^-1.
    """
    n, steps = 4000, c["steps"]
    T, Y = toy(n, steps, initial_offset_range=0.0, final_offset_range=0.0,
               noise_per_step_range=c["factor"],
               random_state=np.random.RandomState(c["seed"]))
    D = (Y[:, :, 0] - np.cos(2 * np.pi * T)) / c["factor"]
    A = np.zeros((steps + 2, steps))
    for i in range(steps):
        A[i:i + 3, i] = [1.0, -2.0, 1.0]
    A *= (steps - 1) ** 2
    # whitened noise
    W = D.dot(np.linalg.cholesky(A.T.dot(A)))
    check(np.abs(W.mean(axis=0)).max() < 6.5 / np.sqrt(n),
          "mean of the noise is %.3g standard deviations",
          np.abs(W.mean(axis=0)).max())
    C = np.cov(W, rowvar=False)
    # standard deviation of these estimates is at most sqrt(2 / n)
    check(np.abs(C - np.eye(steps)).max() < 6.5 * np.sqrt(2.0 / n),
          "covariance of the noise differs by %.3g",
          np.abs(C - np.eye(steps)).max())
    return True


# --- handwriting ------------------------------------------------------------

NAMES = ["Angle", "BendedLine", "CShape", "DoubleBendedLine", "GShape",
         "JShape", "Leaf_1", "Leaf_2", "Sine", "WShape", "heee", "Zshape",
         "Multi_Models_1", "S.Shape"]


@st.composite
def lasa_cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5,
                          unique=True))
    return dict(names=names, idx=draw(st.integers(0, len(names) - 1)),
                demos=draw(st.integers(1, 12)), steps=draw(st.integers(2, 40)),
                dt=draw(dec(0.001, 0.1, 3)), seed=draw(st.integers(0, 999)))


@sub("C28", lasa_cases(), "several demonstrations", quick=400, shards=8)
def handwriting(c):
    home = os.environ.get("HOME")
    scratch = tempfile.mkdtemp(prefix="mpv-lasa-")
    try:
        os.environ["HOME"] = scratch
        directory = os.path.join(scratch, ".movement_primitive_data",
                                 "lasa_data", "DataSet")
        os.makedirs(directory)
        stored = {}
        for i, name in enumerate(c["names"]):
            rs = np.random.RandomState(c["seed"] + i)
            demos = np.empty((1, c["demos"]), dtype=object)
            stored[name] = []
            for j in range(c["demos"]):
                pos, vel, acc = rs.randn(3, 2, c["steps"])
                demos[0, j] = dict(
                    pos=pos, t=c["dt"] * np.arange(c["steps"])[np.newaxis],
                    vel=vel, acc=acc, dt=c["dt"] * (i + 1))
                stored[name].append((pos.T, vel.T, acc.T))
            scipy.io.savemat(os.path.join(directory, name + ".mat"),
                             dict(demos=demos, dt=c["dt"] * (i + 1)))
        T, X, Xd, Xdd, dt, name = load_lasa(c["idx"])
        again = load_lasa(c["idx"])
    finally:
        if home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = home
        shutil.rmtree(scratch)
    check(name == sorted(c["names"])[c["idx"]], "shape %s", name)
    P, V, A = (np.array(a) for a in zip(*stored[name]))
    close(X, P, "positions", 0)
    close(Xd, V, "velocities", 0)
    close(Xdd, A, "accelerations", 0)
    close(dt, c["dt"] * (c["names"].index(name) + 1), "time step", 1e-12)
    check(np.isscalar(dt), "time step is not a number")
    check(T.shape == X.shape[:2], "shape of times")
    check(np.all(np.diff(T, axis=1) > 0) and np.all(T[:, 0] == 0),
          "times do not increase from zero")
    for a, b in zip(again[:5], (T, X, Xd, Xdd, dt)):
        close(a, b, "loaded again", 0)
    return ["%d shapes" % len(c["names"])] if c["demos"] > 1 else False
