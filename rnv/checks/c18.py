"""C18: molecular-dynamics Raman spectra are the spectra of the polarizability series."""

import numpy as np
from hypothesis import strategies as st

from ramannoodle.dynamics import Trajectory
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.spectrum import MDRamanSpectrum
from ramannoodle.structure import ReferenceStructure

from rnv import gens, models
from rnv.checks.c17 import Waves, arguments, settings
from rnv.core import close, need, raises, same, sub
from rnv.oracle import C_CM_S, H_EV_S, K_EV_K

FS_TO_CM = 1e15 / C_CM_S  # wavenumber of an oscillation with a period of 1 fs


def autocorrelation(x):
    """Return autocorrelation at lags 0, 1, ... by its definition."""
    n = len(x)
    return np.array([np.dot(x[: n - lag], x[lag:]) for lag in range(n)])


def power(x):
    """Return real part of the autocorrelation's Fourier transform, k=0,1,...,n-1."""
    n = len(x)
    if n > 500:
        return np.fft.fft(np.correlate(x, x, "full")[n - 1 :]).real
    c = autocorrelation(x)
    k = np.arange(n)
    return np.cos(2 * np.pi * np.outer(k, k) / n) @ c


def raw_spectrum(series, timestep):
    """Return wavenumbers, intensities, and a scale for rounding errors."""
    d = np.diff(series, axis=0)
    n = len(d)
    k = np.arange(1, (n + 1) // 2)
    w = k / (n * timestep) * FS_TO_CM
    trace = np.einsum("sii->s", d)
    isotropic = power(trace) / 9
    anisotropic = np.zeros(n)
    for i, j in ((0, 1), (1, 2), (0, 2)):
        anisotropic = anisotropic + 0.5 * power(d[:, i, i] - d[:, j, j])
        anisotropic = anisotropic + 3 * power(d[:, i, j])
    total = 45 * isotropic + 7 * anisotropic
    scale = 100 * max(1, n) * (d**2).sum() if n else 0
    return w, total[k], scale


def corrections(w, setting):
    """Return factors applied to intensities."""
    result = np.ones(len(w))
    if setting["laser"]:
        result = result * ((1e7 / setting["wavelength"] - w) / 1e4) ** 4 / w
    if setting["bose"]:
        x = H_EV_S * C_CM_S * w / (K_EV_K * setting["temperature"])
        result = result / -np.expm1(-x)
    return result


@st.composite
def series_cases(draw, longest=40, shortest=2):
    """Strategy for polarizability time series."""
    length = draw(st.integers(shortest, longest))
    rng = gens.rng_of(draw(gens.SEEDS))
    kind = draw(st.sampled_from(["noise", "smooth", "walk", "constant", "step"]))
    t = np.arange(length)[:, None, None]
    if kind == "noise":
        series = models.symmetric(rng, (length,))
    elif kind == "smooth":
        series = sum(
            np.cos(rng.uniform(0, np.pi) * t + rng.uniform(0, 6)) * models.symmetric(rng)
            for _ in range(3)
        )
    elif kind == "walk":
        series = np.cumsum(models.symmetric(rng, (length,)), axis=0)
    elif kind == "constant":
        series = np.zeros((length, 3, 3)) + models.symmetric(rng)
    else:
        series = np.where(t < length // 2, 1.0, 0.0) * models.symmetric(rng)
    mask = draw(st.sampled_from(["all", "diagonal", "offdiagonal", "one"]))
    if mask == "diagonal":
        series = series * np.eye(3)
    elif mask == "offdiagonal":
        series = series * (1 - np.eye(3))
    elif mask == "one":
        i, j = rng.integers(0, 3, 2)
        keep = np.zeros((3, 3))
        keep[i, j] = keep[j, i] = 1
        series = series * keep
    return {
        "series": series * draw(st.sampled_from([1.0, 1e-5, 1e3])),
        "timestep": draw(
            st.one_of(st.sampled_from([1, 1.0, 5, 0.5, 2.0]), st.floats(0.01, 50))
        ),
        "settings": draw(st.lists(settings(), min_size=1, max_size=2)),
        "factor": draw(st.sampled_from([-1.0, 3.0, 1e-2])),
        "seed": draw(gens.SEEDS),
    }


def check_measure(series, timestep, setting, spectrum):
    """Compare a measured spectrum with the definition."""
    w, intensities, scale = raw_spectrum(series, timestep)
    factor = corrections(w, setting)
    found = spectrum.measure(**arguments(setting))
    close(found[0], w, "wavenumbers", 1e-9, 0)
    need(found[1].shape == w.shape, "shape of intensities", shape=found[1].shape)
    want = intensities * factor
    tol = 1e-12 * scale * np.abs(factor) + 1e-9 * np.abs(want)
    if setting["bose"]:
        tol = tol + 1e-4 * np.abs(want)
    bad = np.abs(found[1] - want) > tol
    need(
        not bad.any(),
        "intensities",
        found=found[1][bad],
        expected=want[bad],
        at=w[bad],
        setting=setting,
    )
    return found


def run_series(case):
    """Compare with the definition, and test symmetries."""
    series, timestep = case["series"], case["timestep"]
    rng = gens.rng_of(case["seed"])
    spectrum = MDRamanSpectrum(series.copy(), timestep)
    size = np.abs(series).max()
    for setting in case["settings"]:
        w, intensities = check_measure(series, timestep, setting, spectrum)
        kwargs = arguments(setting)
        factor = np.abs(corrections(w, setting))
        _, _, scale = raw_spectrum(series, timestep)

        def other(changed, what, multiple=1.0, slack=0.0):
            got = MDRamanSpectrum(changed, timestep).measure(**kwargs)
            same(got[0], w, f"wavenumbers ({what})")
            tol = 1e-11 * (scale + slack) * factor * abs(multiple)
            tol = tol + 1e-9 * np.abs(intensities * multiple)
            need(
                got[1].shape == intensities.shape
                and np.all(np.abs(got[1] - multiple * intensities) <= tol),
                f"intensities ({what})",
                found=got[1],
                expected=intensities * multiple,
            )

        offset = rng.normal(size=(3, 3)) * size * 3
        # rounding of the differences
        slack = len(series) * size * np.sqrt(scale) * 1e-3
        other(series + offset, "constant offset", slack=slack)
        q = gens.rotation(rng, rng.integers(0, 2))
        rotated = np.einsum("ij,sjk,lk->sil", q, series, q)
        other(rotated, "rotated", slack=slack)
        other(-series, "opposite sign")
        f = case["factor"]
        other(series * f, f"series times {f}", f**2)
        other(series[::-1], "reversed in time")

        slower = MDRamanSpectrum(series, timestep * 4).measure(
            bose_einstein_correction=False
        )
        bare = spectrum.measure()
        close(slower[0] * 4, bare[0], "wavenumbers with another timestep", 1e-12, 0)
        close(
            slower[1],
            bare[1],
            "raw intensities with another timestep",
            1e-9,
            1e-12 * scale,
        )
    same(spectrum.polarizability_ts, series, "series after measuring")
    need(spectrum.timestep == timestep, "timestep after measuring")
    for wrong in ("xx", np.eye(3), np.array([0.0, 0, 1]), None):
        with raises(NotImplementedError, f"orientation {wrong!r}"):
            spectrum.measure(wrong)
    return len(series) > 3 and np.abs(np.diff(series, axis=0)).max() > 0


RULE = "at least four configurations that are not all the same"
sub("C18", "short series", series_cases(), 3000, 50000, RULE)(run_series)
sub("C18", "long series", series_cases(400), 300, 5000, RULE)(run_series)
sub("C18", "very long series", series_cases(3000, 500), 24, 600, RULE)(run_series)


@st.composite
def oscillations(draw):
    """Strategy for a single frequency."""
    length = draw(st.integers(200, 1500))
    n = length - 1
    return {
        "length": length,
        "bin": draw(st.floats(6, n / 2 - 6)),
        "timestep": draw(st.sampled_from([0.5, 1.0, 2.0, 4.0])),
        "phase": draw(st.floats(0, 6.28)),
        "seed": draw(gens.SEEDS),
    }


@sub("C18", "one frequency", oscillations(), 400, 6000, "always")
def one_frequency(case):
    """A series oscillating at one frequency peaks there."""
    rng = gens.rng_of(case["seed"])
    n, dt = case["length"] - 1, case["timestep"]
    frequency = case["bin"] / (n * dt)  # per fs
    t = np.arange(n + 1) * dt
    series = models.symmetric(rng)[None] * 0.1 * np.cos(
        2 * np.pi * frequency * t + case["phase"]
    )[:, None, None] + models.symmetric(rng)
    w, intensities = MDRamanSpectrum(series, dt).measure()
    need(np.all(np.diff(w) > 0), "wavenumbers increase")
    peak = w[np.argmax(intensities)]
    spacing = FS_TO_CM / (n * dt)
    need(
        abs(peak - frequency * FS_TO_CM) <= 2.01 * spacing,
        "position of the peak",
        peak=peak,
        expected=frequency * FS_TO_CM,
        spacing=spacing,
    )
    return True


@st.composite
def trajectories(draw):
    """Strategy for a trajectory and a model."""
    interpolation = draw(st.booleans())
    base = draw(models.model_cases()) if interpolation else None
    return {
        "model": base,
        "atoms": draw(st.integers(1, 5)),
        "length": draw(st.one_of(*[st.integers(2, 30)] * 3, st.integers(90, 330))),
        "timestep": draw(st.one_of(st.sampled_from([1, 0.5, 4]), st.floats(0.1, 9))),
        "settings": draw(settings()),
        "outside": draw(st.booleans()),
        "seed": draw(gens.SEEDS),
    }


@sub("C18", "trajectories", trajectories(), 700, 10000, "at least four configurations")
def trajectory(case):
    """The spectrum is that of the predicted polarizabilities."""
    rng = gens.rng_of(case["seed"])
    length, dt = case["length"], case["timestep"]
    if case["model"] is None:
        n = case["atoms"]
        positions = rng.uniform(0, 1, (1, n, 3)) + 0.1 * np.cumsum(
            rng.normal(size=(length, n, 3)), axis=0
        )
        model = Waves(rng, n)
        tol = 1e-9
    else:
        base = case["model"]
        s = base["structure"]
        n = len(s["numbers"])
        ref = ReferenceStructure(list(s["numbers"]), s["lattice"], s["positions"])
        model = InterpolationModel(ref, base["alpha"])
        if not models.is_general(ref):
            return False
        for dof in base["dofs"]:
            models.add(model, dof)
        positions = s["positions"] + rng.uniform(-0.05, 0.05, (length, n, 3))
        tol = 1e-6
    series = model.calc_polarizabilities(positions)
    moved = positions
    if case["outside"]:
        moved = positions + rng.integers(-3, 4, positions.shape)
    moved_copy = moved.copy()
    path = Trajectory(moved, dt)
    spectrum = path.get_raman_spectrum(model)
    need(isinstance(spectrum, MDRamanSpectrum), "type of spectrum")
    need(spectrum.timestep == dt, "timestep of the spectrum", found=spectrum.timestep)
    found = spectrum.polarizability_ts
    scale = np.abs(series).max()
    close(found, series, "polarizabilities of the configurations", tol, tol * scale)
    check_measure(found, dt, case["settings"], spectrum)
    again = path.get_raman_spectrum(model).measure()
    direct = MDRamanSpectrum(found, dt).measure()
    same(again[0], direct[0], "wavenumbers, twice")
    close(again[1], direct[1], "intensities, twice", 1e-9, 1e-9 * np.abs(direct[1]).max()
          if direct[1].size else 0)
    same(moved, moved_copy, "the caller's positions")
    if case["model"] is not None:
        other = Trajectory(rng.uniform(0, 1, (3, n + 1, 3)), dt)
        with raises(ValueError, "a model of another structure"):
            other.get_raman_spectrum(model)
    return length > 3
