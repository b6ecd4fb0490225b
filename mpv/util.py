"""Comparisons that report violations, small reference computations."""
import numpy as np

from .core import Violation


def check(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def scale_of(*arrays):
    s = 1.0
    for a in arrays:
        a = np.asarray(a, dtype=float)
        if a.size and np.all(np.isfinite(a)):
            s = max(s, float(np.max(np.abs(a))))
    return s


def close(actual, expected, what, tol=1e-9, scale=None):
    """|actual - expected| <= tol * scale, scale from the expected values."""
    actual = np.asarray(actual)
    expected = np.asarray(expected)
    check(actual.shape == expected.shape, "%s: shape %s instead of %s", what,
          actual.shape, expected.shape)
    check(actual.dtype.kind in "fiub", "%s: not numeric (%s)", what,
          actual.dtype)
    if actual.size == 0:
        return 0.0
    if scale is None:
        scale = scale_of(expected)
    bad = ~np.isfinite(actual.astype(float)) & np.isfinite(
        expected.astype(float))
    check(not bad.any(), "%s: not finite", what)
    err = np.abs(actual.astype(float) - expected.astype(float))
    err = np.where(np.isnan(err), np.inf, err)
    worst = float(err.max())
    check(worst <= tol * scale, "%s: differs by %.3g (allowed %.3g)", what,
          worst, tol * scale)
    return worst


def finite(a, what):
    a = np.asarray(a, dtype=float)
    check(np.all(np.isfinite(a)), "%s: not finite", what)


def raises(fun, what, exceptions=(ValueError, AssertionError, TypeError,
                                  IndexError, KeyError, AttributeError,
                                  np.linalg.LinAlgError)):
    try:
        fun()
    except exceptions:
        return
    check(False, "%s: accepted", what)


# --- quaternions (scalar first), independent of the code under test --------

def qmul(a, b):
    w = a[..., 0] * b[..., 0] - np.sum(a[..., 1:] * b[..., 1:], axis=-1)
    v = (a[..., :1] * b[..., 1:] + b[..., :1] * a[..., 1:]
         + np.cross(a[..., 1:], b[..., 1:]))
    return np.concatenate((np.asarray(w)[..., None], v), axis=-1)


def qconj(q):
    q = np.array(q, dtype=float)
    q[..., 1:] *= -1
    return q


def qexp(v):
    """Quaternion of a rotation vector."""
    v = np.asarray(v, dtype=float)
    angle = np.linalg.norm(v, axis=-1, keepdims=True)
    s = 0.5 * np.sinc(angle / (2 * np.pi))
    return np.concatenate((np.cos(angle / 2), s * v), axis=-1)


def qlog(q):
    """Rotation vector of the shortest rotation."""
    q = np.array(q, dtype=float)
    q = np.where(q[..., :1] < 0, -q, q)
    n = np.linalg.norm(q[..., 1:], axis=-1, keepdims=True)
    angle = 2 * np.arctan2(n, q[..., :1])
    with np.errstate(all="ignore"):
        factor = np.where(n > 1e-300, angle / np.where(n > 0, n, 1), 2.0)
    return factor * q[..., 1:]


def qdist(a, b):
    """Angle between two orientations, accurate for small angles."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    d = np.minimum(np.linalg.norm(a - b, axis=-1),
                   np.linalg.norm(a + b, axis=-1))
    return 4 * np.arcsin(np.clip(d / 2, 0, 1))


def rotmat(q):
    w, x, y, z = np.asarray(q, dtype=float)
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def close_poses(actual, expected, kind, what, tol=1e-9, scale=None):
    """Compare states, orientations up to the sign of the quaternion."""
    from .gen import QUATS
    actual, expected = np.asarray(actual, float), np.asarray(expected, float)
    check(actual.shape == expected.shape, "%s: shape %s instead of %s", what,
          actual.shape, expected.shape)
    finite(actual, what)
    a, e = actual.copy(), expected.copy()
    for i in QUATS.get(kind, ()):
        qa, qe = a[..., i:i + 4], e[..., i:i + 4]
        sign = np.where(np.sum(qa * qe, axis=-1, keepdims=True) < 0, -1., 1.)
        a[..., i:i + 4] = sign * qa
    return close(a, e, what, tol, scale)


def angles_to(Y, goal, kind):
    """Largest angle between orientations and those of a goal state."""
    from .gen import QUATS
    Y, largest = np.atleast_2d(Y), 0.0
    for i in QUATS.get(kind, ()):
        g = np.broadcast_to(np.asarray(goal)[i:i + 4], (len(Y), 4))
        largest = max(largest, np.max(np.linalg.norm(
            qlog(qmul(g, qconj(Y[:, i:i + 4]))), axis=1)))
    return largest


def ambiguous(Y, goal, kind, margin=0.01):
    """Is there an orientation about 180 degrees away from the goal?"""
    return angles_to(Y, goal, kind) > np.pi - margin
