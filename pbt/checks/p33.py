import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF
from zernpy.calculations.calc_psfs import get_bumped_circle

from .. import oracles as o
from ..core import Check, note, require
from ..gens import orders
from .psf_common import calculate, make, odd, physical, terms

CHECK = Check("P33", "generated sequences (1 to 6) of plots, new kernels and convolutions for 1 to 3 PSF objects (1 to 3 polynomials, kernels of sizes 3 to 9, calculated and arbitrary), generated sample disks; "
              "non-trivial: more than one operation, or a disk with a radius which is not an integer or an intensity other than 255",
              ["a figure drawn again under its name is judged by the image on top", "one unit of difference is allowed for the convolved integer image"])
SEED = st.integers(0, 2 ** 32 - 1)
OP = st.one_of(st.tuples(st.just("plot"), st.integers(0, 2), st.sampled_from(["", "A", "B", "name with spaces"])), st.tuples(st.just("kernel"), st.integers(0, 2), st.tuples(odd(1, 9), SEED)),
               st.tuples(st.just("close"), st.just(0), st.just(0)), st.tuples(st.just("convolve"), st.integers(0, 2), st.tuples(st.floats(0.5, 6.0), st.integers(1, 3000))))
OBJECT = st.tuples(terms(8, 1, 3), physical(), odd(3, 5))


def top_image(figure, case):
    axes = [a for a in figure.axes if a.images]; require(len(axes) >= 1, "nothing is drawn", case)
    images = [im for a in axes for im in a.images]; return images[-1]


def check_image(im, want, tol, what, case):
    got = np.ma.getdata(im.get_array()); require(got.shape == want.shape, f"{what}: shape", case, got.shape, want.shape)
    require(np.all(np.abs(got.astype(float) - want.astype(float)) <= tol), f"{what}: values", case)
    left, right, bottom, top = im.get_extent(); h, w = want.shape
    require(im.origin == "upper" and (left, right, bottom, top) == (-0.5, w - 0.5, h - 0.5, -0.5), f"{what}: orientation", case, im.origin, im.get_extent())
    x0, x1 = im.axes.get_xlim(); y0, y1 = im.axes.get_ylim(); require(x0 < x1 and y0 > y1, f"{what}: axes are reversed", case)


def name_parts(psf, ts):
    if len(ts) > 1:
        return [f"({m}, {n})" for (m, n), _ in ts]
    (m, n), _ = ts[0]
    return ["Airy"] if n == 0 else [f"({m}, {n})"]


@CHECK.gen("histories", st.tuples(st.lists(OBJECT, min_size=1, max_size=3), st.lists(OP, min_size=1, max_size=6)), quick=60, batch=30, max_shrink=60, nontrivial=lambda c: len(c[1]) > 1)
def histories(case):
    objects, ops = case; plt.close("all"); psfs = []; interactive = plt.isinteractive()
    try:
        for ts, phys, size in objects:
            psfs.append(make(ts, phys, size, 20, 36)); calculate(psfs[-1], normalized=True)
        for what, k, arg in ops + [["plot", 0, "last"]]:
            k %= len(psfs); psf = psfs[k]; note(what)
            if what == "kernel":
                size, seed = arg; rng = np.random.default_rng(seed); psf.kernel = rng.random((size, size)) * 10.0 ** rng.integers(-6, 7); psf.kernel_size = size
            elif what == "close":
                plt.close("all")
            elif what == "plot":
                before = psf.kernel.copy(); labels = set(plt.get_figlabels()); psf.plot_kernel(arg)
                require(np.array_equal(before, psf.kernel), "kernel is modified by its plot", case)
                require(set(plt.get_figlabels()) >= labels, "other figures are closed", case)
                figure = plt.gcf(); label = figure.get_label(); require(arg in label, "name of the figure", case, label)
                for part in name_parts(psf, objects[k][0]):
                    require(part in label, "name of the figure doesn't contain the polynomial", case, label, part)
                im = top_image(figure, case); check_image(im, psf.kernel, 0, "plotted kernel", case)
                require(im.colorbar is not None, "no colour bar", case)
            else:
                radius, intensity = arg; psf.visualize_convolution(radius, intensity)
                figures = {lab: plt.figure(lab) for lab in plt.get_figlabels()}
                disk = [f for lab, f in figures.items() if "disk" in lab.lower() and "convol" not in lab.lower()]; result = [f for lab, f in figures.items() if "convol" in lab.lower()]
                require(len(disk) == 1 and len(result) == 1, "figures of the convolution", case, list(figures))
                sample = np.ma.getdata(top_image(disk[0], case).get_array()); check_disk(sample, radius, intensity, case)
                want = o.convolve_reflect(sample, psf.kernel); peak = want.max()
                if peak > 0:
                    want = want * (sample.max() / peak)
                check_image(top_image(result[0], case), want, 1.0, "convolved disk", case)
    finally:
        plt.close("all")
        if not interactive:
            plt.ioff()


def check_disk(a, radius, intensity, case):
    radius = max(radius, 1.0); require(isinstance(a, np.ndarray) and a.ndim == 2 and a.shape[0] == a.shape[1] and a.shape[0] % 2 == 1, "shape of the disk", case, np.shape(a))
    require(a.dtype == (np.uint8 if intensity <= 255 else np.uint16), "type of the disk", case, a.dtype)
    c = a.shape[0] // 2; require(c >= 1.25 * radius - 1e-9, "disk doesn't fit to its image", case, a.shape); i, j = np.mgrid[0:a.shape[0], 0:a.shape[1]]; d = np.hypot(i - c, j - c); a = a.astype(float)
    require(np.array_equal(a, a.T) and np.array_equal(a, a[::-1]) and np.array_equal(a, a[:, ::-1]), "disk isn't symmetric", case)
    require(np.all(a[d < 0.25 * radius - 1e-5] == intensity), "intensity of the centre", case); require(a[c, c] == intensity, "central intensity", case, a[c, c])
    require(np.all(a[d <= radius] >= 0.8 * intensity - 0.5), "intensity within the disk", case); require(np.all(a[d > 1.25 * radius + 1e-5] == 0), "intensity outside of the disk", case)
    order = np.argsort(d, axis=None, kind="stable"); require(np.all(np.diff(a.ravel()[order])[np.diff(d.ravel()[order]) > 1e-5] <= 0), "disk gets brighter outwards", case)


@CHECK.gen("sample_disks", st.tuples(st.one_of(st.floats(0.1, 20.0), st.integers(1, 20).map(float), st.integers(1, 40).map(lambda k: k / 2), st.integers(1, 20)),
                                     st.one_of(st.integers(0, 65535), st.sampled_from([255, 256, 254, 1, 0, 65535]))), quick=200, batch=100, nontrivial=lambda c: c[1] != 255 or c[0] != int(c[0]))
def disks(case):
    radius, intensity = case; check_disk(get_bumped_circle(radius, intensity), radius, intensity, case)
    if intensity == 255:
        require(np.array_equal(get_bumped_circle(radius), get_bumped_circle(radius, 255)), "default intensity", case)
