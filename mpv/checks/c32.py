"""C32 Error ellipsoids and point clouds show the given data."""
import numpy as np
from hypothesis import strategies as st

from movement_primitives.visualization import plot_pointcloud, to_ellipsoid

from ..core import sub
from ..gen import dec, mat, raw_quat, quat, vec
from ..util import check, close, rotmat


@sub("C32", st.fixed_dictionaries(dict(
    mean=vec(3, -5, 5, 3), q=raw_quat(),
    radii=st.lists(st.one_of(dec(0, 3, 3), st.sampled_from(
        [0.0, 1e-3, 1.0, 1.0, 50.0])), min_size=3, max_size=3),
    as_list=st.booleans())), "covariance is not diagonal", quick=2000)
def ellipsoids(c):
    R = rotmat(quat(c["q"]))
    r = np.array(c["radii"])
    cov = R.dot(np.diag(r ** 2)).dot(R.T)
    cov = 0.5 * (cov + cov.T)
    mean = np.array(c["mean"])
    args = (mean.copy(), cov.copy())
    H, radii = to_ellipsoid(*([a.tolist() for a in args] if c["as_list"]
                              else args))
    close(args[0], mean, "argument mean", 0)
    close(args[1], cov, "argument cov", 0)
    H, radii = np.asarray(H), np.asarray(radii)
    check(H.shape == (4, 4) and radii.shape == (3,), "shapes %s and %s",
          H.shape, radii.shape)
    close(H[:3, 3], mean, "center", 1e-12)
    close(H[3], [0, 0, 0, 1], "last row", 1e-12)
    close(H[:3, :3].T.dot(H[:3, :3]), np.eye(3), "axes are orthogonal", 1e-9)
    close(np.linalg.det(H[:3, :3]), 1.0, "axes are right-handed", 1e-9)
    check(np.all(radii >= 0), "negative radius %s", radii)
    # one standard deviation along each axis
    scale = max(1.0, np.abs(cov).max())
    close(H[:3, :3].dot(np.diag(radii ** 2)).dot(H[:3, :3].T) / scale,
          cov / scale, "covariance of the ellipsoid", 1e-9)
    return (["singular" if r.min() == 0 else "regular"]
            if np.abs(cov - np.diag(np.diag(cov))).max() > 1e-6 else False)


class Figure:
    def __init__(self):
        self.geometries = []

    def add_geometry(self, geometry):
        self.geometries.append(geometry)


@sub("C32", st.fixed_dictionaries(dict(
    points=st.integers(1, 30).flatmap(lambda n: mat(n, 3, -5, 5, 3)),
    color=vec(3, 0, 1, 2), factor=st.sampled_from([None, 1, 2, 3, 7]),
    as_list=st.booleans())), "points are left out", quick=1000)
def clouds(c):
    points = np.array(c["points"])
    given = points.copy()
    fig = Figure()
    kw = {} if c["factor"] is None else dict(uniform_down_sample=c["factor"])
    pcl = plot_pointcloud(fig, given.tolist() if c["as_list"] else given,
                          c["color"], **kw)
    close(given, points, "argument points", 0)
    check(len(fig.geometries) == 1 and fig.geometries[0] is pcl,
          "the returned point cloud is not what the figure shows")
    expected = points[::c["factor"] or 1]
    shown = np.asarray(pcl.points)
    check(shown.shape == expected.shape, "number of points %d, expected %d",
          len(shown), len(expected))
    close(shown, expected, "points", 1e-12)
    colors = np.asarray(pcl.colors)
    check(colors.shape == shown.shape, "each point has a color")
    close(colors, np.tile(c["color"], (len(shown), 1)), "colors", 1e-12)
    return (["factor %s" % c["factor"]] if len(expected) < len(points)
            else False)
