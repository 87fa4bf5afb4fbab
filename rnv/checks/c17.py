"""C17: phonon Raman spectra follow the first-order Raman formula."""

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.abstract import PolarizabilityModel
from ramannoodle.dynamics import Phonons
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.spectrum import PhononRamanSpectrum
from ramannoodle.structure import ReferenceStructure

from rnv import gens, models
from rnv.core import close, need, raises, same, sub
from rnv.oracle import C_CM_S, H_EV_S, K_EV_K

STEP = 0.001


def invariants(tensors):
    """Return mean polarizability squared and anisotropy squared from eigenvalues."""
    values = np.linalg.eigvalsh(tensors)
    alpha = values.mean(axis=1)
    gamma = 1.5 * ((values - alpha[:, None]) ** 2).sum(axis=1)
    return alpha**2, gamma


def expected_intensities(wavenumbers, tensors, settings):
    """Return intensities according to the formula, and their tolerance."""
    alpha, gamma = invariants(tensors)
    result = 45 * alpha + 7 * gamma
    rtol = np.full(len(wavenumbers), 1e-10)
    if settings["laser"]:
        laser = 1e7 / settings["wavelength"]
        result = result * ((laser - wavenumbers) / 1e4) ** 4 / wavenumbers
    if settings["bose"]:
        x = H_EV_S * C_CM_S * wavenumbers / (K_EV_K * settings["temperature"])
        with np.errstate(over="ignore"):
            result = result / -np.expm1(-x)
        rtol += 2e-5 * (1 + np.abs(x)) + 1e-13 / np.abs(x)
    return result, rtol


DEFAULTS = {
    "laser_correction": False,
    "laser_wavelength": 522,
    "bose_einstein_correction": False,
    "temperature": 300,
}


def arguments(settings):
    """Return keyword arguments of measure."""
    result = {
        "laser_correction": settings["laser"],
        "laser_wavelength": settings["wavelength"],
        "bose_einstein_correction": settings["bose"],
        "temperature": settings["temperature"],
    }
    if settings["terse"]:  # leave out what is the default
        result = {k: v for k, v in result.items() if v != DEFAULTS[k]}
    return result


@st.composite
def settings(draw):
    """Strategy for measurement settings."""
    return {
        "terse": draw(st.booleans()),
        "laser": draw(st.booleans()),
        "wavelength": draw(
            st.one_of(st.sampled_from([522, 532.0, 785, 1064]), st.floats(200, 2000))
        ),
        "bose": draw(st.booleans()),
        "temperature": draw(
            st.one_of(st.sampled_from([300, 77, 1.0]), st.floats(20, 3000))
        ),
    }


@st.composite
def line_lists(draw, symmetric=True):
    """Strategy for wavenumbers and Raman tensors."""
    count = draw(st.integers(0, 12))
    rng = gens.rng_of(draw(gens.SEEDS))
    wavenumbers = rng.uniform(0.5, 4000, count)
    kind = draw(st.sampled_from(["positive", "acoustic", "imaginary", "degenerate"]))
    if kind == "acoustic":
        wavenumbers[:3] = rng.choice([1e-4, 1e-3, -1e-3, 0.1], len(wavenumbers[:3]))
    elif kind == "imaginary":
        wavenumbers *= rng.choice([-1, 1], count)
    elif kind == "degenerate":
        wavenumbers = np.repeat(wavenumbers[:1], count)
    scale = draw(st.sampled_from([1.0, 1e-4, 300.0]))
    tensors = models.symmetric(rng, (count,), scale)
    style = draw(st.sampled_from(["full", "sparse", "isotropic", "zero some"]))
    if style == "sparse":
        mask = rng.integers(0, 2, (count, 3, 3))
        tensors = tensors * (mask * np.swapaxes(mask, 1, 2))
    elif style == "isotropic":
        tensors = tensors[:, :1, :1] * np.eye(3)
    elif style == "zero some":
        tensors = tensors * rng.integers(0, 2, (count, 1, 1))
    return {
        "wavenumbers": wavenumbers,
        "tensors": tensors,
        "settings": draw(st.lists(settings(), min_size=1, max_size=3)),
        "factor": draw(st.sampled_from([-1.0, 2.0, 1e-3, -50.0, 0.3])),
        "seed": draw(gens.SEEDS),
    }


@sub(
    "C17",
    "intensities",
    line_lists(),
    3500,
    80000,
    "at least two lines of nonzero intensity, measured with a correction",
)
def intensities(case):
    """Compare with the formula."""
    w, t = case["wavenumbers"], case["tensors"]
    rng = gens.rng_of(case["seed"])
    spectrum = PhononRamanSpectrum(w.copy(), t.copy())
    top = np.abs(t).max() ** 2 * 100 if t.size else 0
    bare = spectrum.measure()[1]
    for setting in case["settings"]:
        kwargs = arguments(setting)
        found_w, found = spectrum.measure("polycrystalline", **kwargs)
        same(found_w, w, "wavenumbers of the spectrum")
        want, rtol = expected_intensities(w, t, setting)
        need(found.shape == want.shape, "shape of intensities", shape=found.shape)
        # cancellation in invariants
        floor = 1e-13 * top * np.abs(want / np.where(bare == 0, 1, bare))
        bad = np.abs(found - want) > rtol * np.abs(want) + floor + 1e-300
        need(
            not bad.any(),
            "intensities",
            found=found[bad],
            expected=want[bad],
            at=w[bad],
            setting=setting,
        )
        again = PhononRamanSpectrum(w.copy(), t.copy()).measure(**kwargs)
        same(again[1], found, "a fresh spectrum measures the same")

        def other(ww, tt, what, expected, kwargs=kwargs):
            got = PhononRamanSpectrum(ww, tt).measure(**kwargs)
            same(got[0], ww, f"wavenumbers ({what})")
            tol = 1e-10 * np.abs(expected)
            with np.errstate(invalid="ignore"):
                ratio = np.abs(expected).max() if expected.size else 0
            tol = tol + 1e-12 * ratio
            need(
                np.all(np.abs(got[1] - expected) <= tol),
                f"intensities ({what})",
                found=got[1],
                expected=expected,
            )

        q = np.array([gens.rotation(rng, rng.integers(0, 2)) for _ in w])
        q = q.reshape(-1, 3, 3)
        one = np.broadcast_to(gens.rotation(rng), q.shape)
        if not np.any(np.abs(w) < 0.4):
            for name, r in (("each tensor rotated", q), ("all tensors rotated", one)):
                rotated = np.einsum("nij,njk,nlk->nil", r, t, r)
                other(w, rotated, name, found)
        other(w, -t, "reversed phonons", found)
        flips = rng.choice([-1, 1], len(w))[:, None, None]
        other(w, t * flips, "some phonons reversed", found)
        factor = case["factor"]
        other(w, t * factor, f"tensors times {factor}", found * factor**2)
        order = rng.permutation(len(w))
        other(w[order], t[order], "permuted", found[order])
        keep = rng.integers(0, 2, len(w)).astype(bool)
        other(w[keep], t[keep], "some phonons", found[keep])
    # measuring does not alter the spectrum
    same(spectrum.phonon_wavenumbers, w, "wavenumbers after measuring")
    same(spectrum.raman_tensors, t, "tensors after measuring")
    same(spectrum.measure()[1], bare, "measuring again")
    for wrong in (0, -5.0):
        if len(w):
            with raises(ValueError, f"temperature {wrong}"):
                spectrum.measure(bose_einstein_correction=True, temperature=wrong)
    for wrong in ("xx", "Polycrystalline", np.eye(3), np.array([1.0, 0, 0]), None):
        with raises(NotImplementedError, f"orientation {wrong!r}"):
            spectrum.measure(wrong)
    busy = np.sum(bare > 0) > 1
    return busy and any(s["laser"] or s["bose"] for s in case["settings"])


class Waves(PolarizabilityModel):
    """A periodic polarizability that is known analytically."""

    def __init__(self, rng, n):
        self.k = rng.integers(-2, 3, (4, n, 3))
        self.phase = rng.uniform(0, 2 * np.pi, 4)
        self.tensors = models.symmetric(rng, (4,))
        self.calls = []

    def calc_polarizabilities(self, positions_batch):
        """Return polarizabilities."""
        self.calls.append(positions_batch.copy())
        angle = 2 * np.pi * np.einsum("anx,snx->sa", self.k, positions_batch)
        return np.einsum("sa,aij->sij", np.sin(angle + self.phase), self.tensors)

    def derivative(self, positions, displacement):
        """Return derivative along a displacement and a bound for its curvature."""
        rate = 2 * np.pi * np.einsum("anx,nx->a", self.k, displacement)
        angle = 2 * np.pi * np.einsum("anx,nx->a", self.k, positions) + self.phase
        slope = np.einsum("a,aij->ij", np.cos(angle) * rate, self.tensors)
        bound = np.einsum("a,aij->ij", np.abs(rate) ** 3, np.abs(self.tensors)).max()
        return slope, bound


@st.composite
def phonon_cases(draw):
    """Strategy for phonons and a polarizability."""
    n = draw(st.integers(1, 6))
    count = draw(st.integers(1, 3 * n))
    rng = gens.rng_of(draw(gens.SEEDS))
    positions = rng.uniform(0, 1, (n, 3))
    if draw(st.booleans()):
        positions = gens.make_positions(rng, (n, 3))
    displacements = rng.normal(size=(count, n, 3))
    displacements *= draw(st.sampled_from([0.02, 0.3, 2.0, 20.0]))
    return {
        "positions": positions,
        "displacements": displacements,
        "wavenumbers": rng.uniform(-50, 2000, count),
        "seed": draw(gens.SEEDS),
        "settings": draw(settings()),
    }


@sub(
    "C17",
    "Raman tensors of a model",
    phonon_cases(),
    2500,
    40000,
    "some displacement exceeds half a cell, more than one phonon",
)
def tensors_of_model(case):
    """Raman tensors are derivatives along the phonons' displacements."""
    rng = gens.rng_of(case["seed"])
    p, d, w = case["positions"], case["displacements"], case["wavenumbers"]
    model = Waves(rng, len(p))
    phonons = Phonons(p.copy(), w.copy(), d.copy())
    spectrum = phonons.get_raman_spectrum(model)
    need(isinstance(spectrum, PhononRamanSpectrum), "type of spectrum")
    found = spectrum.raman_tensors
    need(found.shape == (len(w), 3, 3), "shape of Raman tensors", shape=found.shape)
    same(spectrum.phonon_wavenumbers, w, "wavenumbers of the spectrum")
    for k, one in enumerate(d):
        slope, bound = model.derivative(p, one)
        # central difference over 2 * STEP, divided by STEP
        tol = bound * STEP**2 + 1e-11 / STEP
        close(found[k], 2 * slope, "Raman tensor", 1e-6, tol, phonon=k)
    tensors = np.array(found)
    want, rtol = expected_intensities(w, (tensors + tensors.mT) / 2, case["settings"])
    got = spectrum.measure(**arguments(case["settings"]))[1]
    need(
        np.all(np.abs(got - want) <= rtol * np.abs(want) * 10 + 1e-12 * np.abs(want).max()),
        "intensities",
        found=got,
        expected=want,
    )
    for call in model.calls:
        need(call.ndim == 3 and call.shape[1:] == p.shape, "shape given to the model")
    # reversing phonons, permuting them, or taking each by itself
    order = rng.permutation(len(w))
    flips = rng.choice([-1, 1], len(w))[:, None, None]
    other = Phonons(p, w[order], (flips * d)[order]).get_raman_spectrum(model)
    close(
        other.raman_tensors,
        (flips * found)[order],
        "Raman tensors of reversed and permuted phonons",
        1e-9,
        1e-9 * np.abs(found).max() + 1e-12 / STEP,
    )
    same(phonons.displacements, d, "displacements afterwards")
    same(phonons.ref_positions, p, "positions afterwards")
    same(phonons.wavenumbers, w, "wavenumbers afterwards")
    return len(w) > 1 and np.abs(d).max() > 0.5


@st.composite
def interpolation_cases(draw):
    """Strategy for an interpolation model and phonons."""
    case = draw(models.model_cases())
    n = len(case["structure"]["numbers"])
    count = draw(st.integers(1, 4))
    rng = gens.rng_of(draw(gens.SEEDS))
    return {
        **case,
        "displacements": rng.normal(size=(count, n, 3)),
        "size": draw(st.sampled_from([0.01, 1.0, 30.0])),
        "art": draw(st.booleans()),
        "mask": draw(st.integers(0, 15)),
    }


@sub(
    "C17",
    "Raman tensors of interpolation models",
    interpolation_cases(),
    700,
    10000,
    "more than one degree of freedom",
)
def tensors_of_interpolations(case):
    """Raman tensors are sums over degrees of freedom of slopes times amplitudes."""
    s = case["structure"]
    lattice, alpha = s["lattice"], case["alpha"]
    ref = ReferenceStructure(list(s["numbers"]), lattice, s["positions"].copy())
    assume(models.is_general(ref))
    rng = gens.rng_of(case["seed"])
    n = len(s["numbers"])
    functions, units = [], []
    if case["art"]:
        alpha = models.symmetric(rng)
        model = ARTModel(ref, alpha)
        atoms = rng.permutation(n)[: len(case["dofs"])]
        for atom in atoms:
            direction = rng.normal(size=3)
            unit = np.zeros((n, 3))
            unit[atom] = direction / np.linalg.norm(direction)
            a = np.array([-0.02, 0.013]) * np.abs(lattice).max() / 5
            ys = alpha + models.symmetric(rng, (2,))
            model.add_art(int(atom), direction, a, ys)
            functions.append(models.spline(a, ys - alpha, 1))
            units.append(unit)
    else:
        model = InterpolationModel(ref, alpha)
        for dof in case["dofs"]:
            models.add(model, dof)
            functions.append(models.dof_function(dof, alpha))
            units.append(dof["unit"] * np.sign(dof["scale"]))
            if dof["scale"] < 0:  # amplitudes count along the given displacement
                f = models.dof_function({**dof, "scale": 1.0}, alpha)
                functions[-1] = f
    masked = [i for i in range(len(units)) if case["mask"] >> i & 1]
    model = model.get_masked_model(masked)
    d = case["displacements"]
    d = d * case["size"] / np.abs(d).max()
    w = rng.uniform(10, 1000, len(d))
    spectrum = Phonons(s["positions"].copy(), w, d).get_raman_spectrum(model)
    same(spectrum.phonon_wavenumbers, w, "wavenumbers")
    want = np.zeros((len(d), 3, 3))
    size = 1.0
    for k, one in enumerate(d):
        cart = STEP * one @ lattice
        for i, (unit, f) in enumerate(zip(units, functions)):
            if i in masked:
                continue
            a = np.vdot(unit, cart)
            plus, minus = f(a), f(-a)
            size = max(size, np.abs(plus).max(), np.abs(minus).max())
            want[k] += (plus - minus) / STEP
    scale = max(np.abs(lattice).max(), 1)
    close(
        spectrum.raman_tensors,
        want,
        "Raman tensors",
        1e-7,
        1e-11 * size * scale / STEP,
    )
    # phonons of another structure
    for m in (n + 1, n - 1):
        q = Phonons(rng.uniform(0, 1, (m, 3)), w[:1], rng.normal(size=(1, m, 3)))
        with raises(ValueError, "phonons with another number of atoms", atoms=m, n=n):
            q.get_raman_spectrum(model)
    return len(units) - len(masked) > 1
