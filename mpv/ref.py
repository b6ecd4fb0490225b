"""Reference computations, written from the documentation and the papers.

They share no code with the package under test.
"""
import math

import numpy as np
from scipy.integrate import solve_ivp

from .core import Skip
from .gen import QUATS, as_state, vel_dims
from .util import qconj, qlog, qmul

ALPHA_Z = -math.log(0.01)  # phase is 0.01 at the end of the movement


def phase(t, tau, alpha=ALPHA_Z):
    return np.exp(-alpha * np.asarray(t, dtype=float) / tau)


def rbf(t, tau, n, overlap=0.8, alpha=ALPHA_Z, step=None):
    """Normalized activations, shape (n,) + shape of t, of radial basis
    functions over the phase with equally spaced centers in time."""
    z = phase(t, tau, alpha)
    step = tau / (n - 1) if step is None else step
    centers = np.exp(-alpha * np.arange(n) * step / tau)
    widths = -math.log(overlap) / np.diff(centers) ** 2
    widths = np.append(widths, widths[-1])
    shape = (n,) + (1,) * np.ndim(z)
    e = -widths.reshape(shape) * (z - centers.reshape(shape)) ** 2
    e -= e.max(axis=0)
    a = np.exp(e)
    return a / a.sum(axis=0)


def forcing(t, tau, weights):
    """weights (n_dims, n_weights) -> (n_dims,)"""
    return phase(t, tau) * weights.dot(rbf(t, tau, weights.shape[1]))


def gains_of(p):
    m = vel_dims(p)
    if p.get("alpha") is None:
        return 25.0 * np.ones(m), 6.25 * np.ones(m)
    return np.array(p["alpha"], float), np.array(p["beta"], float)


def dmp_solution(p, times, coupling=None, max_step=None):
    """Solution of the DMP equation at the given times, kinds dmp/cart/dual.

    coupling(y, yd) -> acceleration in front of the division by tau^2.
    Returns positions, velocities, and the largest angle between orientation
    and goal (where the equation is discontinuous if it is pi).
    """
    kind, tau = p["kind"], p["tau"]
    y0, g = as_state(kind, p["start"]), as_state(kind, p["goal"])
    m = vel_dims(p)
    v0 = np.array(p.get("start_yd", np.zeros(m)), dtype=float)
    alpha, beta = gains_of(p)
    W = np.array(p["w"], dtype=float).reshape(m, p["nw"])
    n = len(y0)
    qs = QUATS.get(kind, [])
    # (position slice, velocity slice) of every block
    lin = [(i, i) for i in range(m)] if not qs else [
        (7 * a + i, 6 * a + i) for a in range(len(qs)) for i in range(3)]
    orn = [(slice(i, i + 4), slice(6 * a + 3, 6 * a + 6))
           for a, i in enumerate(qs)]
    pi, vi = np.array(lin).T

    def log_diff(a, b):
        return qlog(qmul(a, qconj(b)))

    calls = [0]
    largest = [0.0]

    def rhs(t, x):
        calls[0] += 1
        if calls[0] > 20000:
            raise Skip("reference not resolved")
        y, v = x[:n], x[n:]
        z = phase(t, tau)
        diff, total = np.empty(m), np.empty(m)
        dy = np.empty(n)
        diff[vi] = g[pi] - y[pi]
        total[vi] = g[pi] - y0[pi]
        dy[pi] = v[vi]
        for ps, vs in orn:
            q = y[ps] / np.linalg.norm(y[ps])
            diff[vs] = log_diff(g[ps], q)
            # also between the given times
            largest[0] = max(largest[0], np.linalg.norm(diff[vs]))
            total[vs] = log_diff(g[ps], y0[ps])
            dy[ps] = 0.5 * qmul(np.hstack((0.0, v[vs])), y[ps])
        s = beta * total * z if p["smooth"] else 0.0
        a = alpha * (beta * diff - tau * v - s) + forcing(t, tau, W)
        if coupling is not None:
            a = a + coupling(y, v)
        return np.hstack((dy, a / tau ** 2))

    times = np.asarray(times, dtype=float)
    kw = {} if max_step is None else dict(max_step=max_step)
    sol = solve_ivp(rhs, (0.0, times[-1]), np.hstack((y0, v0)), method="DOP853",
                    t_eval=np.minimum(times, times[-1]), rtol=1e-9, atol=1e-11,
                    **kw)
    Y, V = sol.y[:n].T.copy(), sol.y[n:].T
    for ps, vs in orn:
        Y[:, ps] /= np.linalg.norm(Y[:, ps], axis=1, keepdims=True)
    return Y, V, largest[0]


def align(Y, ref, kind):
    """Choose the signs of quaternions as in a reference."""
    Y = np.array(Y)
    for i in QUATS.get(kind, ()):
        s = np.where(np.sum(Y[:, i:i + 4] * ref[:, i:i + 4], axis=1,
                            keepdims=True) < 0, -1.0, 1.0)
        Y[:, i:i + 4] *= s
    return Y


def romberg(levels):
    """Extrapolate results of step sizes h, h/2, h/4, ... to zero.

    Returns the limit and an estimate of its error (difference between the
    two last extrapolations). The error is a power series in h.
    """
    table = list(levels)
    k = 1
    diagonal = [table[-1]]
    while len(table) > 1:
        f = 2.0 ** k
        table = [(f * b - a) / (f - 1) for a, b in zip(table, table[1:])]
        diagonal.append(table[-1])
        k += 1
    return diagonal[-1], float(np.max(np.abs(diagonal[-1] - diagonal[-2])))
