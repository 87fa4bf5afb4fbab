"""C19: convolution spreads each line by a unit-area profile and nothing else."""

import numpy as np
from hypothesis import strategies as st

from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import convolve_spectrum

from rnv import gens, models
from rnv.core import close, need, raises, same, sub


def profile(function, width, x):
    """Return unit-area profile."""
    if function == "gaussian":
        return np.exp(-0.5 * (x / width) ** 2) / (width * np.sqrt(2 * np.pi))
    return (width / 2) / np.pi / (x**2 + (width / 2) ** 2)


def convolved(w, y, function, width, out):
    """Return convolved spectrum and a bound for its rounding errors."""
    shapes = profile(function, width, np.subtract.outer(np.asarray(out, float), w))
    return shapes @ y, shapes @ np.abs(y)


@st.composite
def cases(draw):
    """Strategy for spectra and ways to convolve them."""
    count = draw(st.integers(1, 30))
    rng = gens.rng_of(draw(gens.SEEDS))
    kind = draw(st.sampled_from(["random", "sorted", "integers", "degenerate", "grid", "wide"]))
    if kind == "integers":
        w = rng.integers(-200, 3000, count)
    elif kind == "degenerate":  # or very nearly so
        w = np.repeat(rng.uniform(0, 1000), count)
        w = w * (1 + draw(st.sampled_from([0, 1e-12, 3e-7, 5e-6])) * np.arange(count))
    elif kind == "wide":  # as from molecular dynamics with short timesteps
        w = rng.uniform(-200, rng.choice([6000, 15000, 34000]), min(count, 6))
        count = len(w)
    elif kind == "grid":
        w = np.arange(1, count + 1) * rng.uniform(0.1, 9)
    else:
        w = rng.uniform(-200, 3000, count)
        w = np.sort(w) if kind == "sorted" else w
    signs = draw(st.sampled_from(["positive", "mixed", "integers", "one"]))
    y = rng.uniform(0, 1, count) * draw(st.sampled_from([1.0, 1e-9, 1e6]))
    if signs == "mixed":
        y = y * rng.choice([-1, 0, 1], count)
    elif signs == "integers":
        y = rng.integers(-5, 50, count)
    elif signs == "one":
        y = y * (np.arange(count) == rng.integers(0, count))
    grid = draw(
        st.sampled_from(["none", "fine", "integers", "unsorted", "lines", "one", "zero"])
    )
    out = {
        "none": None,
        "fine": np.linspace(-300, 3200, 701),
        "integers": np.arange(0, 3000, 7),
        "unsorted": rng.uniform(-300, 3300, 50),
        "lines": w.astype(float),
        "one": np.array([float(w[0])]),
        "zero": np.array([], dtype=float),
    }[grid]
    return {
        "w": w,
        "y": y,
        "function": draw(st.sampled_from(["gaussian", "lorentzian"])),
        "width": draw(
            st.one_of(st.sampled_from([5, 1, 5.0, 10, 0.5]), st.floats(0.05, 200))
        ),
        "out": out,
        "seed": draw(gens.SEEDS),
    }


@sub(
    "C19",
    "convolution",
    cases(),
    5000,
    100000,
    "at least two lines of nonzero intensity, convolved onto more than one point",
)
def convolution(case):
    """Compare with the definition and test linearity."""
    w, y, out = case["w"], case["y"], case["out"]
    function, width = case["function"], case["width"]
    rng = gens.rng_of(case["seed"])
    inputs = [None if a is None else a.copy() for a in (w, y, out)]

    def run(ww, yy, grid=out):
        return convolve_spectrum(ww, yy, function, width, grid)

    found_w, found = run(w, y)
    for now, before in zip((w, y, out), inputs):
        if before is not None:
            same(now, before, "an input of the convolution")
            need(now.dtype == before.dtype, "type of an input")
    if out is None:
        need(found_w.ndim == 1 and len(found_w) > 100, "automatic grid")
        close(found_w[0], w.min() - 100, "start of the automatic grid", 1e-12, 1e-9)
        close(found_w[-1], w.max() + 100, "end of the automatic grid", 1e-12, 1e-9)
        steps = np.diff(found_w)
        need(
            np.all(steps > 0.98) and np.all(steps < 1.02),
            "spacing of the automatic grid",
            steps=steps,
        )
        need(np.ptp(steps) < 1e-8, "automatic grid is uniform", steps=steps)
    else:
        same(found_w, out, "output wavenumbers are those requested")
    want, size = convolved(w, y, function, width, found_w)
    need(found.shape == want.shape, "shape of intensities", shape=found.shape)

    def equal(a, b, what, bound=size, rtol=1e-10):
        a = np.asarray(a, dtype=float)
        need(a.shape == b.shape, f"shape ({what})")
        bad = ~(np.abs(a - b) <= rtol * np.abs(b) + 1e-12 * bound + 1e-290)
        need(not bad.any(), what, found=a[bad], expected=b[bad])

    # gaussians far away from their line amplify rounding of the distance
    equal(found, want, "convolved intensities", rtol=1e-8)
    again = run(w, y)
    same(again[1], found, "convolved twice")
    order = rng.permutation(len(w))
    equal(run(w[order], y[order], found_w)[1], found, "order of lines")
    z = rng.normal(size=len(w))
    a, b = rng.normal(size=2)
    left = run(w, a * y + b * z, found_w)[1]
    parts = a * found + b * run(w, z, found_w)[1]
    shape_sum = convolved(w, np.abs(a * y) + np.abs(b * z), function, width, found_w)[0]
    equal(left, parts, "linearity", shape_sum)
    cut = int(rng.integers(0, len(w) + 1))
    pieces = sum(
        (run(w[s], y[s], found_w)[1] for s in (slice(cut), slice(cut, None)) if len(w[s])),
        np.zeros(len(found_w)),
    )
    equal(pieces, found, "sum over parts of the lines")
    delta = float(rng.integers(-50, 50))
    equal(
        run(w + delta, y, np.asarray(found_w, float) + delta)[1],
        found,
        "lines and output wavenumbers moved together",
        rtol=1e-7,
    )

    # total intensity
    lo, hi = w.min(), w.max()
    margin = 12 * width if function == "gaussian" else 400 * width
    step = width / 6
    if (hi - lo + 2 * margin) / step < 40000:
        fine = np.arange(lo - margin, hi + margin, step)
        area = run(w, y, fine)[1].sum() * step
        loss = 1e-6 if function == "gaussian" else 2e-3
        need(
            abs(area - y.sum()) <= loss * np.abs(y).sum() + 1e-290,
            "area under the convolved spectrum",
            area=area,
            expected=y.sum(),
        )
    # mistakes
    for wrong in (0, -1, -0.5):
        with raises(ValueError, f"width {wrong}"):
            convolve_spectrum(w, y, function, wrong, out)
    for wrong in ("Gaussian", "voigt", ""):
        with raises(ValueError, f"function {wrong!r}"):
            convolve_spectrum(w, y, wrong, width, out)
    extra = np.append(y, 1.0)
    for bad in (extra, extra[:, None], y[:, None], np.float64(3.0)):
        if np.shape(bad) != w.shape:
            with raises((ValueError, TypeError), f"intensities with shape {np.shape(bad)}"):
                convolve_spectrum(w, bad, function, width, out)
    with raises((ValueError, TypeError), "output wavenumbers with two dimensions"):
        convolve_spectrum(w, y, function, width, np.ones((4, 1)))
    return np.sum(y != 0) > 1 and len(found_w) > 1


@st.composite
def spectra(draw):
    """Strategy for spectra that are measured."""
    return {
        "md": draw(st.booleans()),
        "count": draw(st.integers(4, 30)),
        "seed": draw(gens.SEEDS),
        "function": draw(st.sampled_from(["gaussian", "lorentzian"])),
    }


@sub("C19", "measured spectra", spectra(), 600, 8000, "always")
def measured(case):
    """Convolving measured spectra does not alter them."""
    rng = gens.rng_of(case["seed"])
    tensors = models.symmetric(rng, (case["count"],))
    if case["md"]:
        spectrum = MDRamanSpectrum(tensors, 5.0)
    else:
        spectrum = PhononRamanSpectrum(rng.uniform(0, 900, case["count"]), tensors)
    w, y = spectrum.measure()
    copies = w.copy(), y.copy()
    out, found = convolve_spectrum(w, y, case["function"])
    want, size = convolved(w, y, case["function"], 5, out)
    close(found, want, "convolved spectrum with default width", 1e-8, 1e-12 * size.max())
    default = convolve_spectrum(w, y)
    want, size = convolved(w, y, "gaussian", 5, default[0])
    close(default[1], want, "default convolution", 1e-8, 1e-12 * size.max())
    same(w, copies[0], "wavenumbers")
    same(y, copies[1], "intensities")
    again = spectrum.measure()
    same(again[0], copies[0], "wavenumbers measured again")
    same(again[1], copies[1], "intensities measured again")
    return True
