"""C29 Plots show exactly the given data in the right axes."""
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from movement_primitives.plot import (
    plot_distribution_in_rows, plot_trajectory_in_rows)

from ..core import sub
from ..gen import dec, mat
from ..util import check, close


@st.composite
def cases(draw, distribution):
    n = draw(st.integers(1, 5))
    steps = draw(st.integers(2, 8))
    c = dict(n=n, Y=draw(mat(steps, n)), transpose=draw(st.booleans()),
             given=draw(st.integers(0, 3)) == 0,
             label=draw(st.sampled_from([None, "label", "$y$"])),
             color=draw(st.sampled_from([None, "r", "#00ff00"])),
             titles=["title %d" % i for i in range(draw(
                 st.integers(0, n)))],
             t0=draw(st.one_of(st.none(), dec(-2, 2, 2))),
             tau=draw(dec(0.5, 3, 2)), again=draw(st.booleans()))
    # rows and columns, possibly with unused axes
    h = draw(st.integers(1, n))
    w = -(-n // h)
    c["shape"] = draw(st.sampled_from([None, [h, w], [h, w], [h, w + 1],
                                       [h + 1, w]]))
    if distribution:
        c["S"] = draw(mat(steps, n, 0.01, 2))
        c["factors"] = draw(st.one_of(st.none(), st.lists(
            st.sampled_from([1, 2, 3, 0.5, 1.96]), min_size=0, max_size=3,
            unique=True)))
        c["fill"] = draw(st.booleans())
    return c


def positions(c, axes):
    """Verify the arrangement of new axes in the figure."""
    n = c["n"]
    h, w = c["shape"] if c["shape"] else (n, 1)
    for i, ax in enumerate(axes):
        spec = ax.get_subplotspec()
        close(spec.get_gridspec().get_geometry(), [h, w], "grid", 0)
        row, col = (i % h, i // h) if c["transpose"] else (i // w, i % w)
        check((spec.rowspan.start, spec.colspan.start) == (row, col),
              "dimension %d is in row %d and column %d instead of %d, %d", i,
              spec.rowspan.start, spec.colspan.start, row, col)
        check(len(spec.rowspan) == 1 and len(spec.colspan) == 1,
              "axes span several cells")


def layout(c, axes, t):
    n = c["n"]
    h, w = c["shape"] if c["shape"] else (n, 1)
    xlabel = "Step" if c["t0"] is None else "Time [s]"
    labelled = 0
    for i, ax in enumerate(axes):
        title = c["titles"][i] if i < len(c["titles"]) else (
            "Dimension #%d" % i)
        check(ax.get_title() == title, "title %r of dimension %d",
              ax.get_title(), i)
        check(ax.get_xlabel() in ("", xlabel), "axis label %r",
              ax.get_xlabel())
        row = i % h if c["transpose"] else i // w
        if row == h - 1:
            check(ax.get_xlabel() == xlabel, "no label below dimension %d", i)
        else:
            check(ax.get_xlabel() == "", "label within the figure")
            check(len(ax.get_xticks()) == 0, "ticks within the figure")
        labelled += row == h - 1
        close(ax.get_xlim(), [t[0], t[-1]], "limits of the time axis", 1e-9)
    return labelled


def curve(line, t, y, what):
    close(np.asarray(line.get_xdata(), float), t, what + ": times", 0)
    close(np.asarray(line.get_ydata(), float), y, what + ": values", 1e-12)


def prepare(c):
    plt.close("all")
    Y = np.array(c["Y"])
    if c["t0"] is None:
        t, kw = np.arange(float(len(Y))), {}
    else:
        t = c["t0"] + np.linspace(0, c["tau"], len(Y)) ** 2
        kw = dict(t=t.copy())
    kw.update(label=c["label"], subplot_shape=c["shape"] and tuple(c["shape"]),
              transpose=c["transpose"], axis_titles=list(c["titles"]))
    if c["color"]:
        kw["color"] = c["color"]
    given = None
    if c["given"]:  # in reversed order, so that the order matters
        fig, given = plt.subplots(1, c["n"], squeeze=False)
        given = list(given[0][::-1])
        for i, ax in enumerate(given):
            ax.set_title("own %d" % i)
        kw["axes"] = given
    return Y, t, kw, given


def show(c, draw, verify):
    """Plot once or twice (in the same axes) and verify everything."""
    Y, t, kw, given = prepare(c)
    try:
        axes = draw(Y.copy(), kw)
        if given is None:
            check(len(axes) == c["n"], "%d axes", len(axes))
            check(len(plt.gcf().axes) == c["n"], "%d axes in the figure",
                  len(plt.gcf().axes))
            positions(c, axes)
            layout(c, axes, t)
        else:
            check(len(plt.get_fignums()) == 1 and all(
                a is b for a, b in zip(axes, given)),
                "given axes are not used")
            for i, ax in enumerate(given):
                check(ax.get_title() == "own %d" % i, "title changed")
        verify(axes, t, Y, 0)
        if c["again"]:
            before = [ax.get_title() for ax in axes]
            second = draw(2 * Y, dict(kw, axes=axes))
            check(all(a is b for a, b in zip(axes, second)),
                  "axes are not used again")
            verify(axes, t, Y, 0)
            verify(axes, t, 2 * Y, 1)
            check(before == [ax.get_title() for ax in axes], "titles changed")
    finally:
        plt.close("all")
    return [("given axes" if c["given"] else
             "columns" if c["transpose"] else "rows")] + (
                 ["twice"] if c["again"] else [])


@sub("C29", cases(False), "several dimensions", quick=480, shards=16)
def trajectories(c):
    def verify(axes, t, Y, k):
        for i, ax in enumerate(axes):
            n = 1 + int(c["again"]) if k else None
            check(n is None or len(ax.get_lines()) == n, "%d lines",
                  len(ax.get_lines()))
            line = ax.get_lines()[k]
            curve(line, t, Y[:, i], "dimension %d" % i)
            if c["label"]:
                check(line.get_label() == c["label"], "label %r",
                      line.get_label())
            if c["color"]:
                check(line.get_color() == c["color"], "color")

    tags = show(c, lambda Y, kw: plot_trajectory_in_rows(Y, **kw), verify)
    return tags if c["n"] > 1 else False


def band(collection, t, lower, upper, what):
    """All vertices of the polygon are on the boundary of the band."""
    vertices = np.concatenate([p.vertices for p in collection.get_paths()])
    close([vertices[:, 0].min(), vertices[:, 0].max()], [t[0], t[-1]],
          what + ": times", 1e-12)
    for j in range(len(t)):
        at = vertices[np.abs(vertices[:, 0] - t[j]) < 1e-12][:, 1]
        check(len(at) > 0, "%s: no vertex at %g", what, t[j])
        close(at.min(), lower[j], what + ": lower bound", 1e-9)
        close(at.max(), upper[j], what + ": upper bound", 1e-9)
        rest = np.minimum(np.abs(at - lower[j]), np.abs(at - upper[j]))
        check(rest.max() < 1e-9, "%s: within the band", what)
    check(np.all(np.isin(np.round(vertices[:, 0], 9), np.round(t, 9))),
          "%s: vertices between steps", what)


@sub("C29", cases(True), "several dimensions", quick=480, shards=16)
def distributions(c):
    S = np.array(c["S"])
    factors = c["factors"] if c["factors"] is not None else [1, 2, 3]

    def draw(Y, kw):
        if c["factors"] is not None:
            kw = dict(kw, std_factors=tuple(factors))
        return plot_distribution_in_rows(Y, S.copy(), fill_between=c["fill"],
                                         **kw)

    def verify(axes, t, Y, k):
        for i, ax in enumerate(axes):
            per = 1 if c["fill"] else 1 + 2 * len(factors)
            here = ax.get_lines()[k * per:(k + 1) * per]
            check(len(here) == per, "%d lines", len(here))
            bands = ax.collections
            if c["fill"]:
                check(len(bands) == len(factors) * (
                    2 if len(ax.get_lines()) > 1 else 1), "%d bands",
                    len(bands))
                bands = bands[k * len(factors):]
            else:
                check(len(bands) == 0, "bands although lines are requested")
            means = [x for x in here if np.array_equal(
                np.asarray(x.get_ydata(), float), Y[:, i])]
            check(len(means) == 1, "mean of dimension %d is not drawn", i)
            curve(means[0], t, Y[:, i], "mean")
            check(means[0].get_linestyle() == "-", "style of mean")
            rest = [x for x in here if x is not means[0]]
            labels = [x.get_label() for x in rest + list(bands)]
            for j, f in enumerate(factors):
                lower, upper = Y[:, i] - f * S[:, i], Y[:, i] + f * S[:, i]
                what = "dimension %d, factor %g" % (i, f)
                if c["fill"]:
                    band(bands[j], t, lower, upper, what)
                    continue
                pair = rest[2 * j:2 * j + 2]
                pair.sort(key=lambda x: np.sum(x.get_ydata()))
                curve(pair[0], t, lower, what)
                curve(pair[1], t, upper, what)
            if c["label"] and factors:
                check(labels[:max(1, len(factors))].count(c["label"]) == 1,
                      "label appears %d times",
                      labels.count(c["label"]))

    tags = show(c, draw, verify)
    return tags + (["bands"] if c["fill"] else ["lines"]) \
        if c["n"] > 1 and factors else False
