"""C32: numbers mean the same however they are stored."""

import contextlib
import os
import tempfile
from pathlib import Path

import numpy as np
import torch
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.io import generic
from ramannoodle.io.vasp import xdatcar
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import calc_signal_spectrum, convolve_spectrum
from ramannoodle.structure import ReferenceStructure, get_ast_displaced_positions

from rnv import gens
from rnv.checks import c26
from rnv.checks.c21 import freeze
from rnv.core import need, sub

LAYOUTS = [
    "reversed",
    "strided",
    "column-major",
    "inner axes swapped",
    "part of an array",
    "read-only",
    "broadcast",
    "unaligned",
    "big-endian",
    "subclass",
]
TYPES = ["int64", "int32", "float32"]


class Special(np.ndarray):
    """Arrays of a derived class."""


def laid_out(array, how):
    """Return the same numbers, stored otherwise."""
    if how == "reversed":
        axes = (slice(None, None, -1),) * array.ndim
        return array[axes].copy()[axes]
    if how == "strided":
        wide = np.full(tuple(2 * s + 1 for s in array.shape), 7, array.dtype)
        axes = tuple(slice(1, None, 2) for _ in array.shape)
        wide[axes] = array
        return wide[axes]
    if how == "column-major":
        return np.asfortranarray(array)
    if how == "inner axes swapped":
        return np.ascontiguousarray(np.swapaxes(array, -1, -2)).swapaxes(-1, -2)
    if how == "part of an array":
        wide = np.full(tuple(s + 2 for s in array.shape), 7, array.dtype)
        axes = tuple(slice(1, -1) for _ in array.shape)
        wide[axes] = array
        return wide[axes]
    if how == "read-only":
        result = array.copy()
        result.flags.writeable = False
        return result
    if how == "broadcast":
        return np.broadcast_to(array[:1], array.shape)
    if how == "unaligned":
        blob = np.zeros(array.nbytes + 1, "uint8")
        result = blob[1:].view(array.dtype).reshape(array.shape)
        result[...] = array
        return result
    if how == "big-endian":
        return array.astype(array.dtype.newbyteorder(">"))
    return array.view(Special)


def whole(array, rng):
    """Return array of similar integers."""
    size = np.abs(array).max() if array.size else 1
    return np.rint(array * (3.4 if size < 2 else 1) / max(min(size, 1), 1e-9))


class Linear:
    """Polarizability model without parameters."""

    def calc_polarizabilities(self, positions_batch):
        """Return something that depends on all positions."""
        n = positions_batch.shape[1]
        weights = np.sin(np.arange(27 * n)).reshape(n, 3, 3, 3)
        return np.einsum("sni,nijk->sjk", positions_batch, weights)


def answers(value):
    """Return what an object says, or that it cannot."""
    try:
        return said_by(value)
    except Exception as exc:  # pylint: disable=broad-except
        return [type(exc).__name__]


def said_by(value):
    """Return what an object says, deeply enough to notice how it understood numbers."""
    if isinstance(value, ReferenceStructure):
        n = value.num_atoms
        rng = gens.rng_of(5)
        displacement = rng.normal(size=(n, 3))
        direction = rng.normal(size=3)
        moved = get_ast_displaced_positions(value, 0, direction, np.array([0.1]))
        model = ARTModel(value, np.eye(3))
        values = rng.normal(size=(2, 3, 3))
        try:
            model.add_art(0, direction, np.array([-0.1, 0.1]), values)
        except InvalidDOFException:  # because of symmetry
            model.add_art(0, direction, np.array([0.1]), values[:1])
        return [
            freeze(value),
            freeze(value.get_equivalent_atom_dict()),
            freeze(value.get_cart_displacement(displacement)),
            freeze(value.get_frac_displacement(displacement)),
            freeze(value.get_equivalent_displacements(displacement)),
            freeze(moved),
            freeze(model),
            freeze(model.calc_polarizabilities(value.positions[None] + 0.01)),
        ]
    if isinstance(value, InterpolationModel):
        rng = gens.rng_of(6)
        ref = value.ref_structure
        batch = ref.positions + rng.uniform(-0.05, 0.05, (3, ref.num_atoms, 3))
        return [freeze(value), freeze(value.calc_polarizabilities(batch))]
    if isinstance(value, PotGNN):
        said = []
        for n in range(1, 6):
            batch = gens.rng_of(7).uniform(0, 1, (2, n, 3))
            with contextlib.suppress(ValueError):  # another number of atoms
                said.append(freeze(value.calc_polarizabilities(batch)))
        need(len(said) == 1, "the number of atoms is ambiguous")
        return said
    if isinstance(value, (Trajectory, Phonons)):
        return [freeze(value), freeze(value.get_raman_spectrum(Linear()))]
    if isinstance(value, (MDRamanSpectrum, PhononRamanSpectrum)):
        settings = {"laser_correction": True, "bose_einstein_correction": True}
        return [freeze(value), freeze(value.measure(**settings))]
    if isinstance(value, PolarizabilityDataset):
        rest = [value.mean_polarizability, value.stddev_polarizability, list(value[0])]
        return [freeze(value), freeze(rest)]
    return [freeze(value)]


def alike(a, b, tol):
    """Return whether two descriptions agree, whatever the types of numbers."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b):
            return False
        a, b = np.asarray(a, "float64"), np.asarray(b, "float64")
        scale = np.abs(b[np.isfinite(b)]).max(initial=0)
        floor = 1e-30 if tol > 1e-6 else 1e-300  # single precision underflows
        return np.allclose(a, b, rtol=tol, atol=tol * scale + floor, equal_nan=True)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        if len(a) == 3 and a[0] in ("array", "tensor") and a[0] == b[0]:
            return alike(a[2], b[2], tol)
        return all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return bool(np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    return a == b


def same_files(a, b):
    """Return whether folders have the same files, up to rounding."""
    if sorted(a) != sorted(b):
        return False
    for name in a:
        if a[name] == b[name]:
            continue
        words, others = a[name].split(), b[name].split()
        if len(words) != len(others):
            return False
        for word, other in zip(words, others):
            if word != other and not np.isclose(float(word), float(other), 1e-9, 1e-9):
                return False
    return True


def outcome(build, case, folder, change):
    """Return what happens, with arguments changed."""
    os.makedirs(folder)
    made = build(gens.rng_of(case["seed"]), case["n"], case["m"], folder)
    given = change(made)
    copies = {k: np.array(v) for k, v in given.items() if isinstance(v, np.ndarray)}
    torch.manual_seed(case["seed"] % 2**31)
    with c26.quiet():
        try:
            result = made.call(**{**made.arguments, **given})
        except Exception as exc:  # pylint: disable=broad-except
            return type(exc), exc
        said = [answers(x) for x in [result, *made.state]]
    for name, array in copies.items():
        need(np.array_equal(array, given[name]), "an argument was modified", name=name)
    return said, c26.listing(folder)


@st.composite
def calls(draw):
    """Strategy for a call and how its numbers are stored."""
    name, argument = draw(st.sampled_from(sorted(c26.TARGETS)))
    kind = draw(st.sampled_from(["layout", "layout", "type"]))
    return {
        "target": name,
        "argument": argument,
        "n": draw(st.sampled_from([1, 1, 2, 3, 4])),
        "m": draw(st.sampled_from([1, 2, 3, 5])),
        "kind": kind,
        "how": draw(st.sampled_from(LAYOUTS if kind == "layout" else TYPES)),
        "all": draw(st.integers(0, 3)) == 0,
        "seed": draw(gens.SEEDS),
    }


def positional(name):
    """Return whether an argument holds fractional positions."""
    return name in ("positions", "positions_ts", "ref_positions", "positions_batch")


def prepare(made, name, case):
    """Return double-precision values of an argument that the other way can store."""
    how = case["how"]
    value = np.array(made.arguments[name], dtype="float64")
    rng = gens.rng_of(case["seed"] + 1)
    if case["kind"] == "layout":
        if how == "broadcast":
            value = np.broadcast_to(value[:1], value.shape).copy()
        return value
    if how.startswith("float"):
        return value.astype(how).astype("float64")
    if name == "lattice":
        return np.rint(value)
    if name == "rotation":
        return value
    value = whole(value, rng)
    if name in ("wavenumbers", "phonon_wavenumbers", "out_wavenumbers"):
        value = np.rint(value / 9)
    if positional(name):
        value = rng.integers(0, 2, value.shape).astype("float64")
    return value


@sub(
    "C32",
    "calls",
    calls(),
    4000,
    80000,
    "the call is accepted",
    examples=[
        {
            "target": "ReferenceStructure",
            "argument": "positions",
            "n": 1,
            "m": 1,
            "kind": "type",
            "how": how,
            "all": False,
            "seed": 3,
        }
        for how in ("int64", "float32")
    ],
)
def stored(case):
    """Arrays of other memory layouts and types of numbers."""
    build, how = c26.TARGETS[(case["target"], case["argument"])], case["how"]

    def chosen(made):
        names = list(made.shapes) if case["all"] else [case["argument"]]
        return [
            k
            for k in names
            if isinstance(made.arguments[k], np.ndarray) and made.arguments[k].dtype != bool
        ]

    def plain(made):
        return {k: prepare(made, k, case) for k in chosen(made)}

    def other(made):
        result = {}
        for k, value in plain(made).items():
            if case["kind"] == "type":
                result[k] = value.astype(how)
                need(np.array_equal(result[k], value), "harness")
            else:
                if how in ("inner axes swapped",) and value.ndim < 2:
                    result[k] = value
                    continue
                result[k] = laid_out(value, how)
                need(np.array_equal(result[k], value), "harness")
        return result

    with tempfile.TemporaryDirectory() as folder:
        made = build(gens.rng_of(case["seed"]), case["n"], case["m"], folder)
        names = chosen(made)
        assume(names)
        want = outcome(build, case, f"{folder}/a", plain)
        found = outcome(build, case, f"{folder}/b", other)
        details = {"target": case["target"], "arguments": names, "how": how}
        if isinstance(want[0], type):
            need(found[0] is want[0], "another outcome", found=found, want=want, **details)
            return False
        need(not isinstance(found[0], type), "refused", error=found[1], **details)
        # computing in the precision given is fine
        tol = {"float32": 1e-3}.get(how, 1e-9)
        need(alike(found[0], want[0], tol), "another answer", found=found[0], want=want[0], **details)
        if case["kind"] == "layout":
            need(same_files(found[1], want[1]), "another file", **details)
        return True


@st.composite
def listed(draw):
    """Strategy for calls with lists."""
    names = []
    for name, argument in sorted(c26.TARGETS):
        if argument in ("atomic_numbers", "filepaths"):
            names.append((name, argument))
    name, argument = draw(st.sampled_from(names))
    return {
        "target": name,
        "argument": argument,
        "n": draw(st.sampled_from([1, 2, 3, 4])),
        "m": draw(st.sampled_from([1, 2, 3])),
        "how": draw(st.sampled_from(["int64", "int32", "uint8"])),
        "seed": draw(gens.SEEDS),
    }


@sub("C32", "lists", listed(), 400, 6000, "always")
def lists(case):
    """Lists of numpy's integers, and of paths."""
    build, argument = c26.TARGETS[(case["target"], case["argument"])], case["argument"]

    def other(made):
        value = made.arguments[argument]
        if argument == "filepaths":
            return {argument: [Path(p) for p in value]}
        return {argument: [np.dtype(case["how"]).type(x) for x in value]}

    with tempfile.TemporaryDirectory() as folder:
        want = outcome(build, case, f"{folder}/a", lambda made: {})
        found = outcome(build, case, f"{folder}/b", other)
        details = {"target": case["target"], "how": case["how"]}
        need(not isinstance(want[0], type), "harness", error=want[1])
        need(not isinstance(found[0], type), "refused", error=found[1], **details)
        need(alike(found[0], want[0], 1e-9), "another answer", **details)
        need(same_files(found[1], want[1]), "another file", **details)
    return True


def _atom(rng, n):
    return int(rng.integers(0, n))


def _structure(rng, n, symprec=1e-5, angle_tolerance=-1.0):
    s = c26.base(rng, n)
    return ReferenceStructure(
        s["numbers"], s["lattice"], s["positions"], symprec, angle_tolerance
    )


def _arts(rng, n, atom):
    model = ARTModel(_structure(rng, n), rng.normal(size=(3, 3)))
    model.add_art(
        atom, rng.normal(size=3), np.array([0.1, 0.2]), rng.normal(size=(2, 3, 3))
    )
    return [model, model.get_dof_indexes(atom), freeze(model.get_specification_tuples())]


def _dof(rng, n, order):
    model = InterpolationModel(_structure(rng, n), rng.normal(size=(3, 3)))
    model.add_dof(
        rng.normal(size=(n, 3)),
        np.array([0.4, 0.2, 0.1, 0.3]),
        rng.normal(size=(4, 3, 3)),
        order,
    )
    return [model]


def _network(rng, n, **given):
    s = c26.base(rng, n)
    arguments = {
        "ref_structure": c26.reference(s),
        "cutoff": 4.0,
        "size_node_embedding": 3,
        "size_edge_embedding": 4,
        "num_message_passes": 1,
        "gaussian_filter_start": 0.0,
        "gaussian_filter_end": 5.0,
        "mean_polarizability": rng.normal(size=(3, 3)),
        "stddev_polarizability": rng.uniform(1, 2, (3, 3)),
    }
    return [PotGNN(**{**arguments, **given})]


def _phonon_spectrum(rng, n):
    waves = np.sort(rng.uniform(50, 900, n))
    return PhononRamanSpectrum(waves, rng.normal(size=(n, 3, 3)))


def _spectrum(rng, n, timestep=1.5):
    return MDRamanSpectrum(rng.normal(size=(n + 1, 3, 3)), timestep)


def _measure(make, **settings):
    return freeze(make.measure(**settings))


def _laser(make, x):
    return _measure(make, laser_correction=True, laser_wavelength=x)


def _cold(make, x):
    return _measure(make, bose_einstein_correction=True, temperature=x)


def _file(rng, n, timestep):
    positions = rng.uniform(0, 1, (n + 1, n, 3))
    with tempfile.TemporaryDirectory() as folder:
        path = Path(folder, "XDATCAR")
        generic.write_trajectory(np.eye(3) * 9, [6] * n, positions, path, "xdatcar")
        return [xdatcar.read_trajectory(path, timestep)]


def _masked(rng, n, index):
    model = InterpolationModel(_structure(rng, n), rng.normal(size=(3, 3)))
    for i in range(2):
        displacement = np.zeros((n, 3))
        displacement[0, i] = 1.0
        model.add_dof(displacement, np.array([0.1]), rng.normal(size=(1, 3, 3)), 1)
    return [model.get_masked_model([index])]


def _wave(rng, n, rate):
    return freeze(calc_signal_spectrum(rng.normal(size=n + 1), rate))


def _smooth(rng, n, width):
    x = np.sort(rng.uniform(0, 100, n))
    return freeze(convolve_spectrum(x, rng.normal(size=n), "lorentzian", width))


def _bell(rng, n, width):
    x = np.sort(rng.uniform(0, 100, n))
    return freeze(convolve_spectrum(x, rng.normal(size=n), "gaussian", width))


def _moved(rng, n, atom):
    ref = _structure(rng, n)
    amplitudes = np.array([0.1, -0.2])
    return freeze(get_ast_displaced_positions(ref, atom, rng.normal(size=3), amplitudes))


def _whole(rng, n):
    return int(rng.integers(1, 6))


def _large(rng, n):
    return int(rng.integers(100, 900))


# call with a number, how to choose it, and whether it counts something
SCALARS = {
    "Trajectory.timestep": (
        lambda rng, n, x: [Trajectory(rng.uniform(0, 1, (n + 1, n, 3)), x)],
        _whole,
        False,
    ),
    "MDRamanSpectrum.timestep": (
        lambda rng, n, x: [_spectrum(rng, n, x)],
        _whole,
        False,
    ),
    "xdatcar.timestep": (_file, _whole, False),
    "MDRamanSpectrum.laser_wavelength": (
        lambda rng, n, x: _laser(_spectrum(rng, n), x),
        _large,
        False,
    ),
    "MDRamanSpectrum.temperature": (
        lambda rng, n, x: _cold(_spectrum(rng, n), x),
        _large,
        False,
    ),
    "PhononRamanSpectrum.laser_wavelength": (
        lambda rng, n, x: _laser(_phonon_spectrum(rng, n), x),
        _large,
        False,
    ),
    "PhononRamanSpectrum.temperature": (
        lambda rng, n, x: _cold(_phonon_spectrum(rng, n), x),
        _large,
        False,
    ),
    "calc_signal_spectrum": (_wave, _whole, False),
    "convolve_spectrum.lorentzian": (_smooth, _whole, False),
    "convolve_spectrum.gaussian": (_bell, _whole, False),
    "ReferenceStructure.symprec": (
        lambda rng, n, x: [_structure(rng, n, symprec=x)],
        lambda rng, n: 2.0**-16,
        False,
    ),
    "ReferenceStructure.angle_tolerance": (
        lambda rng, n, x: [_structure(rng, n, angle_tolerance=x)],
        lambda rng, n: int(rng.integers(-1, 4)),
        False,
    ),
    "PotGNN.cutoff": (
        lambda rng, n, x: _network(rng, n, cutoff=x),
        lambda rng, n: int(rng.integers(3, 6)),
        False,
    ),
    "PotGNN.gaussian_filter_start": (
        lambda rng, n, x: _network(rng, n, gaussian_filter_start=x),
        lambda rng, n: int(rng.integers(0, 3)),
        False,
    ),
    "PotGNN.gaussian_filter_end": (
        lambda rng, n, x: _network(rng, n, gaussian_filter_end=x),
        lambda rng, n: int(rng.integers(3, 7)),
        False,
    ),
    "PotGNN.size_node_embedding": (
        lambda rng, n, x: _network(rng, n, size_node_embedding=x),
        lambda rng, n: int(rng.integers(1, 5)),
        True,
    ),
    "PotGNN.size_edge_embedding": (
        lambda rng, n, x: _network(rng, n, size_edge_embedding=x),
        lambda rng, n: int(rng.integers(2, 5)),
        True,
    ),
    "PotGNN.num_message_passes": (
        lambda rng, n, x: _network(rng, n, num_message_passes=x),
        lambda rng, n: int(rng.integers(0, 3)),
        True,
    ),
    "ARTModel.atom_index": (_arts, _atom, True),
    "get_ast_displaced_positions.atom_index": (_moved, _atom, True),
    "add_dof.interpolation_order": (_dof, lambda rng, n: int(rng.integers(1, 4)), True),
    "get_masked_model.index": (_masked, lambda rng, n: int(rng.integers(0, 2)), True),
}


class Raised:
    """What a call raised."""

    def __init__(self, error):
        self.error = error


@st.composite
def single(draw):
    """Strategy for a call with one number in another form."""
    name = draw(st.sampled_from(sorted(SCALARS)))
    forms = ["int64", "int32", "uint8", "uint16"]
    if not SCALARS[name][2]:
        forms = ["int", "float64", "float32", "int64", "int32"]
    return {
        "name": name,
        "n": draw(st.sampled_from([1, 2, 3, 5])),
        "how": draw(st.sampled_from(forms)),
        "seed": draw(gens.SEEDS),
    }


@sub("C32", "scalars", single(), 1500, 30000, "the call is accepted")
def scalars(case):
    """Single numbers as integers, and as numbers of numpy."""
    call, choose, counts = SCALARS[case["name"]]
    value = choose(gens.rng_of(case["seed"] + 1), case["n"])
    how = case["how"]
    if how == "int":
        other = int(value)
    else:
        other = np.dtype(how).type(value)
    assume(other == value)

    def found(x):
        torch.manual_seed(case["seed"] % 2**31)
        with c26.quiet():
            try:
                result = call(gens.rng_of(case["seed"]), case["n"], x)
                return [answers(y) for y in result] if isinstance(result, list) else result
            except Exception as exc:  # pylint: disable=broad-except
                return Raised(exc)

    want, got = found(value if counts else float(value)), found(other)
    details = {"call": case["name"], "value": value, "how": how}
    if isinstance(want, Raised):
        need(isinstance(got, Raised), "another outcome", want=want.error, **details)
        return False
    if isinstance(got, Raised):  # integers of numpy may be refused
        allowed = counts and isinstance(got.error, TypeError)
        need(allowed, "refused", error=got.error, **details)
        return False
    tol = 1e-3 if how == "float32" else 1e-9
    need(alike(got, want, tol), "another answer", found=got, want=want, **details)
    return True
