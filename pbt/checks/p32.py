import io
import math

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.collections import QuadMesh
from mpl_toolkits.mplot3d import Axes3D
from mpl_toolkits.mplot3d.art3d import Poly3DCollection

from zernpy import ZernPol
from zernpy.zernikepol import polar_vectors, zernikes_surface

from .. import oracles as o
from ..core import Check, Discard, note, require
from ..gens import coefficient, orders
from .p13 import expected

CHECK = Check("P32", "generated polynomials (n <= 10) and sums of them, increasing or decreasing vectors of radii and angles (2 to 30 elements, equal and different lengths) or default ones, both projections, figures "
              "which are new or hold the results of previous plots, flags and colour maps, wrong input; non-trivial: lengths of vectors differ or the figure was used before, or wrong input",
              ["3D surfaces are compared by the data handed over to Axes3D.plot_surface; 2D ones by the coloured cells, each of which has to hold the value of its own point",
               "the window is replaced: figures are drawn by the non-interactive backend"])
MAPS = st.sampled_from(["coolwarm", "jet", "turbo", "rainbow", "viridis", "plasma"])
PROJECTION = st.sampled_from(["2d", "2D", "3d", "3D"])
TERMS = st.lists(st.tuples(orders(10), coefficient(3.0)), min_size=1, max_size=5)


def increasing(lo, hi):
    """Different values, sorted, at least 0.002 of the range apart."""
    return st.sets(st.integers(0, 500), min_size=2, max_size=30).map(lambda s: [lo + (hi - lo) * k / 500 for k in sorted(s)])


ANGLES = st.one_of(increasing(0.0, 2 * math.pi), increasing(0.0, 2 * math.pi), increasing(-math.pi, math.pi), increasing(-math.pi / 2, 0.0), increasing(1.0, 2.5), increasing(-7.0, -1.0))
VECTORS = st.tuples(increasing(0.0, 1.0), ANGLES, st.booleans(), st.sampled_from([0, 0, 0, 1, 2, 3]))


def vectors(v):
    r, th, equal, down = v
    if equal:
        k = min(len(r), len(th)); r, th = r[:k], th[:k]
    if down & 1:
        r = r[::-1]
    if down & 2:
        th = th[::-1]
    return np.array(r), np.array(th)


class Watch:
    """Record surfaces handed over to 3D axes."""

    def __enter__(self):
        self.surfaces = []; self.original = original = Axes3D.plot_surface

        def plot_surface(axes, X, Y, Z, *args, **kwargs):
            out = original(axes, X, Y, Z, *args, **kwargs); self.surfaces.append((axes, np.array(X), np.array(Y), np.array(Z), out)); return out
        Axes3D.plot_surface = plot_surface
        return self

    def __exit__(self, *args):
        Axes3D.plot_surface = self.original


def check_2d(figure, want, tol, r, th, cmap, bar, case):
    axes = figure.axes; polar = [a for a in axes if a.name == "polar"]
    require(len(polar) == 1, "number of polar axes", case, [a.name for a in axes])
    require(len(axes) == (2 if bar else 1), "colour bar", case, len(axes))
    mesh = [c for c in polar[0].collections if isinstance(c, QuadMesh)]
    require(len(mesh) == 1, "number of drawn surfaces", case, len(mesh)); mesh = mesh[0]
    values = np.ma.getdata(mesh.get_array()); require(values.size == want.size, "number of drawn values", case, values.shape, want.shape); values = values.reshape(want.shape)
    require(not np.any(np.ma.getmaskarray(mesh.get_array())), "hidden values", case)
    if not np.all(np.abs(values - want) <= tol):
        i, j = np.unravel_index(int(np.argmax(np.abs(values - want) - tol)), want.shape)
        require(False, "drawn value", case, [int(i), int(j)], float(values[i, j]), float(want[i, j]))
    xy = mesh.get_coordinates(); require(xy.shape == (r.size + 1, th.size + 1, 2), "cells", case, xy.shape)
    a, b = xy[:, :, 0], xy[:, :, 1]
    inside = lambda one, x, two: np.all((np.minimum(one, two) < x) & (x < np.maximum(one, two)))
    require(inside(a[:-1, :-1], th[None, :], a[1:, 1:]), "angles of cells", case)
    require(inside(b[:-1, :-1], r[:, None], b[1:, 1:]), "radii of cells", case)
    require(np.allclose(a[:, 1:-1], ((th[1:] + th[:-1]) / 2)[None, :], atol=1e-9, rtol=0) and np.allclose(b[1:-1, :], ((r[1:] + r[:-1]) / 2)[:, None], atol=1e-9, rtol=0),
            "borders between cells aren't in the middle of points", case)
    require(mesh.get_cmap().name == cmap, "colour map", case, mesh.get_cmap().name)
    lo, hi = mesh.get_clim()
    if values.max() - values.min() > 1e-9:  # otherwise expanded for the colour bar
        require(abs(lo - values.min()) <= 1e-12 * (1 + abs(lo)) and abs(hi - values.max()) <= 1e-12 * (1 + abs(hi)), "colour limits", case, lo, hi)


def check_3d(figure, watch, want, tol, r, th, cmap, bar, case):
    axes = [a for a in figure.axes if a.name == "3d"]; require(len(axes) == 1, "number of 3D axes", case, [a.name for a in figure.axes])
    require(len(figure.axes) == (2 if bar else 1), "colour bar", case, len(figure.axes))
    drawn = [c for c in axes[0].collections if isinstance(c, Poly3DCollection)]; require(len(drawn) == 1, "number of drawn surfaces", case, len(drawn))
    mine = [s for s in watch.surfaces if s[4] is drawn[0]]; require(len(mine) == 1, "surface isn't drawn by plot_surface", case)
    _, X, Y, Z, surface = mine[0]
    require(X.shape == Y.shape == Z.shape == want.shape, "shape of 3D surface", case, X.shape, Y.shape, Z.shape)
    require(np.all(np.abs(Z - want) <= tol), "drawn height", case)
    require(np.allclose(X, r[:, None] * np.cos(th)[None, :], atol=1e-9, rtol=0) and np.allclose(Y, r[:, None] * np.sin(th)[None, :], atol=1e-9, rtol=0), "points of 3D surface", case)
    require(surface.get_cmap().name == cmap, "colour map", case)


def used(figure, how):
    """Leave something on the figure."""
    if how == 1:
        figure.add_subplot().plot([0, 1], [1, 0])
    elif how == 2:
        figure.add_subplot(121, projection="polar"); figure.colorbar(figure.add_subplot(122).imshow(np.eye(3)))
    elif how == 3:
        figure.add_subplot(projection="3d"); figure.suptitle("previous"); figure.text(0.5, 0.5, "label")


def check_content(figure, case):
    require(not figure.images and not figure.texts and not figure.lines, "previous content remains", case)


PLOT = st.tuples(TERMS, VECTORS, PROJECTION, st.booleans(), MAPS)


@CHECK.gen("sums_on_figure", st.tuples(st.lists(PLOT, min_size=1, max_size=3), st.integers(0, 3), st.booleans()), quick=110, batch=40, max_shrink=60,
           nontrivial=lambda c: len(c[0]) > 1 or c[1] > 0 or len(c[0][0][1][0]) != len(c[0][0][1][1]))
def on_figure(case):
    plots, how, pyplot = case
    try:
        figure = plt.figure() if pyplot else matplotlib.figure.Figure(); used(figure, how)
        for ts, v, projection, bar, cmap in plots:
            note(projection.lower()); r, th = vectors(v); pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]
            surface = ZernPol.sum_zernikes([c for _, c in ts], pols, r, th, get_surface=True); before = surface.copy(); open_figures = plt.get_fignums()
            want, tol = expected(ts, r, th)
            with Watch() as watch:
                got = ZernPol.plot_sum_zernikes_on_fig(figure, use_defaults=False, zernikes_sum_surface=zernikes_surface(surface, r, th), show_range=bar, color_map=cmap, projection=projection)
            require(got is figure, "another figure is returned", case); require(plt.get_fignums() == open_figures, "windows are opened or closed", case)
            require(np.array_equal(surface, before), "surface is modified", case); check_content(figure, case)
            if projection.lower() == "3d":
                check_3d(figure, watch, want, tol, r, th, cmap, bar, case)
            else:
                check_2d(figure, want, tol, r, th, cmap, bar, case)
        figure.savefig(io.BytesIO(), format="png", dpi=20)
    finally:
        plt.close("all")


@CHECK.gen("sums_with_default_coordinates", st.tuples(TERMS, PROJECTION, st.booleans(), MAPS, st.integers(0, 3), st.booleans()), quick=24, batch=12, max_shrink=30)
def defaults(case):
    ts, projection, bar, cmap, how, explicit = case; pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]; cs = [c for _, c in ts]; d3 = projection.lower() == "3d"; note(projection.lower())
    v = ZernPol.gen_equal_polar_mesh() if d3 else ZernPol.gen_polar_coordinates(); want, tol = expected(ts, v.R, v.Theta)
    try:
        figure = plt.figure(); used(figure, how); kw = dict(color_map=cmap) if explicit else {}; kw.update({} if projection == "2d" else dict(projection=projection)); kw.update({} if bar and explicit else dict(show_range=bar))
        with Watch() as watch:
            got = ZernPol.plot_sum_zernikes_on_fig(figure, cs, pols, **kw)
        require(got is figure, "another figure is returned", case); check_content(figure, case); cmap = cmap if explicit else "coolwarm"
        if d3:
            check_3d(figure, watch, want, tol, v.R, v.Theta, cmap, bar, case)
        else:
            check_2d(figure, want, tol, v.R, v.Theta, cmap, bar, case)
    finally:
        plt.close("all")


@CHECK.gen("profiles", st.tuples(orders(10), VECTORS, PROJECTION, st.booleans(), MAPS, st.sampled_from([False, False, False, True])), quick=80, batch=30, max_shrink=40,
           nontrivial=lambda c: c[5] or len(c[1][0]) != len(c[1][1]))
def profile(case):
    (m, n), v, projection, title, cmap, use_defaults = case; z = ZernPol(m=m, n=n); d3 = projection.lower() == "3d"; shown = []; note(projection.lower())
    show = plt.show; plt.show = lambda *a, **k: shown.append(len(plt.get_fignums()))
    try:
        with Watch() as watch:
            if use_defaults:
                p = ZernPol.gen_equal_polar_mesh() if d3 else ZernPol.gen_polar_coordinates(); r, th = p.R, p.Theta
                ZernPol.plot_profile(z, color_map=cmap, show_title=title, projection=projection)
            else:
                r, th = vectors(v); ZernPol.plot_profile(z, color_map=cmap, show_title=title, use_defaults=False, projection=projection, polar_coordinates=polar_vectors(r, th))
        require(len(plt.get_fignums()) == 1, "number of opened figures", case, plt.get_fignums()); require(shown == [1], "figure isn't shown once", case, shown)
        want, tol = expected([[[m, n], 1.0]], r, th); figure = plt.figure(plt.get_fignums()[0])
        if d3:
            check_3d(figure, watch, want, tol, r, th, cmap, False, case)
        else:
            check_2d(figure, want, tol, r, th, cmap, False, case)
            require(figure.axes[0].get_title() == (z.get_polynomial_name() if title else ""), "title", case, figure.axes[0].get_title())
    finally:
        plt.show = show; plt.close("all")


@CHECK.gen("wrong_input", st.tuples(st.sampled_from(["no terms", "no surface", "pair", "mismatch", "no coordinates", "one vector", "foreign"]), TERMS, PROJECTION, st.booleans()), quick=80)
def wrong(case):
    what, ts, projection, flag = case; pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]; cs = [c for _, c in ts]; figure = matplotlib.figure.Figure(); note(what); r = np.array([0.1, 0.9])
    used(figure, 1)
    try:
        if what == "no terms":
            ZernPol.plot_sum_zernikes_on_fig(figure, projection=projection, show_range=flag) if flag else ZernPol.plot_sum_zernikes_on_fig(figure, [], (), projection=projection)
        elif what == "no surface":
            ZernPol.plot_sum_zernikes_on_fig(figure, cs, pols, use_defaults=False, projection=projection)
        elif what == "pair":
            ZernPol.plot_sum_zernikes_on_fig(figure, cs, pols, use_defaults=False, zernikes_sum_surface=(r, r), projection=projection)
        elif what == "mismatch":
            ZernPol.plot_sum_zernikes_on_fig(figure, cs + [1.0] if flag else [], pols, projection=projection)
        elif what == "foreign":
            ZernPol.plot_sum_zernikes_on_fig(figure, cs, pols[:-1] + ["Tilt" if flag else 3], projection=projection)
        elif what == "no coordinates":
            ZernPol.plot_profile(pols[0], use_defaults=False, projection=projection, show_title=flag)
        else:
            ZernPol.plot_profile(pols[0], use_defaults=False, projection=projection, polar_coordinates=(r,) if flag else (r, r, r))
    except ValueError:
        pass
    else:
        require(False, "wrong input is accepted", case)
    finally:
        plt.close("all")


@CHECK.enum("half_pyramid", lambda tier: [[n] for n in range(1, 7)], nontrivial=lambda c: True)
def pyramid(case):
    """The overview figure: row n holds all polynomials of the order n in the last n + 1 cells, in the order of OSA indices."""
    draw = getattr(ZernPol, "_plot_zernikes_half_pyramid", None)
    if draw is None:
        raise Discard
    n, = case; plt.close("all")
    try:
        draw(); require(len(plt.get_fignums()) == 1, "number of figures", case, plt.get_fignums())
        axes = [a for a in plt.gcf().axes if any(isinstance(c, QuadMesh) for c in a.collections)]
        require(len(axes) == 27, "number of drawn polynomials", case, len(axes)); require(all(a.name == "polar" for a in axes), "axes aren't polar", case)
        rows = sorted({round(a.get_position().y0, 3) for a in axes}, reverse=True); require(len(rows) == 6, "number of rows", case, rows)
        row = sorted((a for a in axes if round(a.get_position().y0, 3) == rows[n - 1]), key=lambda a: a.get_position().x0); require(len(row) == n + 1, "cells of a row", case, len(row))
        for a, m in zip(row, range(-n, n + 1, 2)):
            mesh = [c for c in a.collections if isinstance(c, QuadMesh)]; require(len(mesh) == 1, "surfaces in one cell", case, len(mesh)); values = np.ma.getdata(mesh[0].get_array())
            surface, r, th = ZernPol.gen_zernikes_surface([1.0], [ZernPol(m=m, n=n)]); want, tol = expected([((m, n), 1.0)], r, th)
            require(values.size == want.size and np.all(np.abs(values.reshape(want.shape) - want) <= tol), "drawn polynomial", case, m)
            require(not a.axison, "axes are shown", case, m)
    finally:
        plt.close("all")
