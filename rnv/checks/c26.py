"""C26: arguments of the wrong shape or kind are rejected, never broadcast."""

import contextlib
import io
import os
import tempfile
import warnings

import numpy as np
import torch
from hypothesis import assume
from hypothesis import strategies as st

import ramannoodle.io.pymatgen as rn_pymatgen
from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dataset.torch.utils import (
    polarizability_tensors_to_vectors,
    polarizability_vectors_to_tensors,
)
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.exceptions import InvalidDOFException, SymmetryException
from ramannoodle.io import generic
from ramannoodle.io.vasp import poscar, xdatcar
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum._raman import (
    get_bose_einstein_correction,
    get_laser_correction,
)
from ramannoodle.spectrum.utils import calc_signal_spectrum, convolve_spectrum
from ramannoodle.structure import (
    ReferenceStructure,
    get_ast_displaced_positions,
    get_displaced_positions,
    utils,
    write_ast_displaced_structures,
    write_displaced_structures,
)

from rnv import gens
from rnv.checks.c21 import equal, freeze
from rnv.checks.c25 import to_pymatgen
from rnv.core import need, sub


class Target:
    """A call with valid arguments, of which one array is to be perturbed.

    ``shapes`` maps arguments to their shapes, in which free dimensions are None, and
    Ellipsis stands for any number of axes.
    """

    def __init__(self, call, arguments, shapes, state=(), lists=()):
        self.call = call
        self.arguments = arguments
        self.shapes = shapes
        self.state = state
        self.lists = lists


def base(rng, n):
    """Return structure without symmetry."""
    lattice = gens.make_lattice("triclinic", rng)
    if n > 20:
        positions = rng.uniform(0, 1, (n, 3))
    else:
        positions = gens.separated_positions(rng, lattice, n, 0.05)
    numbers = [int(x) for x in np.sort(rng.integers(1, 90, n))]
    return {"lattice": lattice, "numbers": numbers, "positions": positions}


def reference(structure):
    """Return reference structure."""
    return ReferenceStructure(
        list(structure["numbers"]), structure["lattice"], structure["positions"]
    )


TARGETS = {}


def target(name, *arguments):
    """Register a call and the arrays that may be perturbed."""

    def wrap(function):
        for argument in arguments:
            TARGETS[(name, argument)] = function
        return function

    return wrap


@target("ReferenceStructure", "lattice", "positions", "atomic_numbers")
def _reference(rng, n, m, folder):
    s = base(rng, n)
    return Target(
        ReferenceStructure,
        {
            "atomic_numbers": s["numbers"],
            "lattice": s["lattice"],
            "positions": s["positions"],
        },
        {"lattice": (3, 3), "positions": (n, 3), "atomic_numbers": (n,)},
        lists=("atomic_numbers",),
    )


def method(name, argument, shape, value):
    """Register a method of reference structures."""

    @target(f"ReferenceStructure.{name}", argument)
    def build(rng, n, m, folder):
        ref = reference(base(rng, n))
        dims = tuple({"n": n, "m": None}.get(d, d) for d in shape)
        size = tuple({"n": n, "m": m, ...: m}.get(d, d) for d in shape)
        return Target(
            getattr(ref, name), {argument: value(rng, size)}, {argument: dims}, [ref]
        )

    return build


def small(rng, size):
    """Return small random array."""
    return rng.uniform(-0.1, 0.1, size)


method("get_equivalent_displacements", "displacement", ("n", 3), small)
method("get_cart_direction", "direction", (3,), small)
method("get_frac_direction", "cart_direction", (3,), small)
method("get_cart_displacement", "displacement", (..., "n", 3), small)
method("get_frac_displacement", "cart_displacement", ("n", 3), small)


@target("get_displaced_positions", "cart_displacement", "amplitudes")
def _displaced(rng, n, m, folder):
    ref = reference(base(rng, n))
    return Target(
        get_displaced_positions,
        {
            "ref_structure": ref,
            "cart_displacement": small(rng, (n, 3)),
            "amplitudes": small(rng, m),
        },
        {"cart_displacement": (n, 3), "amplitudes": (None,)},
        [ref],
    )


@target("get_ast_displaced_positions", "cart_direction", "amplitudes")
def _ast_displaced(rng, n, m, folder):
    ref = reference(base(rng, n))
    return Target(
        get_ast_displaced_positions,
        {
            "ref_structure": ref,
            "atom_index": int(rng.integers(0, n)),
            "cart_direction": small(rng, 3),
            "amplitudes": small(rng, m),
        },
        {"cart_direction": (3,), "amplitudes": (None,)},
        [ref],
    )


@target("write_displaced_structures", "cart_displacement", "amplitudes", "filepaths")
def _write_displaced(rng, n, m, folder):
    m = min(m, 4)
    ref = reference(base(rng, n))
    return Target(
        write_displaced_structures,
        {
            "ref_structure": ref,
            "cart_displacement": small(rng, (n, 3)),
            "amplitudes": small(rng, m),
            "filepaths": [os.path.join(folder, f"P{k}") for k in range(m)],
            "file_format": "poscar",
        },
        {"cart_displacement": (n, 3), "amplitudes": (m,), "filepaths": (m,)},
        [ref],
        lists=("filepaths",),
    )


@target("write_ast_displaced_structures", "cart_direction", "amplitudes", "filepaths")
def _write_ast(rng, n, m, folder):
    m = min(m, 4)
    ref = reference(base(rng, n))
    return Target(
        write_ast_displaced_structures,
        {
            "ref_structure": ref,
            "atom_index": int(rng.integers(0, n)),
            "cart_direction": small(rng, 3),
            "amplitudes": small(rng, m),
            "filepaths": [os.path.join(folder, f"P{k}") for k in range(m)],
            "file_format": "poscar",
        },
        {"cart_direction": (3,), "amplitudes": (m,), "filepaths": (m,)},
        [ref],
        lists=("filepaths",),
    )


def writer(name, function, **extra):
    """Register a writer of structures."""

    @target(name, "lattice", "positions", "atomic_numbers")
    def build(rng, n, m, folder):
        s = base(rng, n)
        return Target(
            function,
            {
                "lattice": s["lattice"],
                "atomic_numbers": s["numbers"],
                "positions": s["positions"],
                "filepath": os.path.join(folder, "file"),
                **extra,
            },
            {"lattice": (3, 3), "positions": (n, 3), "atomic_numbers": (n,)},
            lists=("atomic_numbers",),
        )

    return build


def trajectory_writer(name, function, **extra):
    """Register a writer of trajectories."""

    @target(name, "lattice", "positions_ts", "atomic_numbers")
    def build(rng, n, m, folder):
        s = base(rng, n)
        return Target(
            function,
            {
                "lattice": s["lattice"],
                "atomic_numbers": s["numbers"],
                "positions_ts": rng.uniform(0, 1, (m, n, 3)),
                "filepath": os.path.join(folder, "file"),
                **extra,
            },
            {"lattice": (3, 3), "positions_ts": (None, n, 3), "atomic_numbers": (n,)},
            lists=("atomic_numbers",),
        )

    return build


writer("poscar.write_structure", poscar.write_structure)
writer("generic.write_structure", generic.write_structure, file_format="poscar")
trajectory_writer("xdatcar.write_trajectory", xdatcar.write_trajectory)
trajectory_writer(
    "generic.write_trajectory", generic.write_trajectory, file_format="xdatcar"
)


def model_of(kind, rng, n):
    """Return model with a few degrees of freedom."""
    ref = reference(base(rng, n))
    model = kind(ref, np.eye(3) + small(rng, (3, 3)))
    for atom in range(min(n, 2)):
        direction = np.eye(3)[rng.integers(0, 3)]
        amplitudes = np.array([-0.05, 0.05])
        if kind is ARTModel:
            model.add_art(atom, direction, amplitudes, small(rng, (2, 3, 3)))
        else:
            displacement = np.zeros((n, 3))
            displacement[atom] = direction
            model.add_dof(displacement, amplitudes, small(rng, (2, 3, 3)), 1)
    return model


@target("InterpolationModel", "ref_polarizability")
def _model(rng, n, m, folder):
    n = max(n, 3)  # fewer atoms always are symmetric
    return Target(
        InterpolationModel,
        {"ref_structure": reference(base(rng, n)), "ref_polarizability": np.eye(3)},
        {"ref_polarizability": (3, 3)},
    )


@target("ARTModel", "ref_polarizability")
def _art_model(rng, n, m, folder):
    n = max(n, 3)  # fewer atoms always are symmetric
    return Target(
        ARTModel,
        {"ref_structure": reference(base(rng, n)), "ref_polarizability": np.eye(3)},
        {"ref_polarizability": (3, 3)},
    )


@target(
    "InterpolationModel.add_dof", "cart_displacement", "amplitudes", "polarizabilities"
)
def _add_dof(rng, n, m, folder):
    n = max(n, 3)  # fewer atoms always are symmetric
    model = model_of(InterpolationModel, rng, n)
    m = min(m, 9)
    displacement = np.zeros((n, 3))
    displacement[-1] = small(rng, 3)
    for vector in model.cart_basis_vectors:
        displacement -= np.sum(displacement * vector) * vector
    amplitudes = np.linspace(-0.1, 0.1, 2 * m + 1)[rng.permutation(2 * m)]
    amplitudes = amplitudes[np.abs(amplitudes) > 1e-9]
    return Target(
        model.add_dof,
        {
            "cart_displacement": displacement,
            "amplitudes": amplitudes,
            "polarizabilities": small(rng, (len(amplitudes), 3, 3)),
            "interpolation_order": 1,
        },
        {
            "cart_displacement": (n, 3),
            "amplitudes": (len(amplitudes),),
            "polarizabilities": (len(amplitudes), 3, 3),
        },
        [model],
    )


@target("InterpolationModel.add_dof_from_pymatgen", "polarizabilities")
def _add_pymatgen(rng, n, m, folder):
    n = max(n, 3)  # fewer atoms always are symmetric
    s = base(rng, n)
    model = InterpolationModel(reference(s), np.eye(3))
    step = np.zeros((n, 3))
    step[-1] = [0.01, 0.004, -0.003]
    members = [
        to_pymatgen({**s, "positions": s["positions"] + k * step}) for k in (-1, 1, 2)
    ]
    return Target(
        model.add_dof_from_pymatgen,
        {
            "pymatgen_structures": members,
            "polarizabilities": small(rng, (3, 3, 3)),
            "interpolation_order": 1,
        },
        {"polarizabilities": (3, 3, 3)},
        [model],
    )


@target("ARTModel.add_art_from_pymatgen", "polarizabilities")
def _art_pymatgen(rng, n, m, folder):
    n = max(n, 3)  # fewer atoms always are symmetric
    s = base(rng, n)
    model = ARTModel(reference(s), np.eye(3))
    step = np.zeros((n, 3))
    step[-1] = [0.01, 0.004, -0.003]
    members = [
        to_pymatgen({**s, "positions": s["positions"] + k * step}) for k in (-1, 1)
    ]
    return Target(
        model.add_art_from_pymatgen,
        {"pymatgen_structures": members, "polarizabilities": small(rng, (2, 3, 3))},
        {"polarizabilities": (2, 3, 3)},
        [model],
    )


@target("ARTModel.add_art", "cart_direction", "amplitudes", "polarizabilities")
def _add_art(rng, n, m, folder):
    n = max(n, 3)  # fewer atoms always are symmetric
    model = model_of(ARTModel, rng, n)
    used = [v[-1] for v in model.cart_basis_vectors if np.any(v[-1])]
    direction = np.cross(used[0], [0.3, 0.5, 0.8]) if used else small(rng, 3)
    return Target(
        model.add_art,
        {
            "atom_index": n - 1,
            "cart_direction": direction,
            "amplitudes": np.array([-0.1, 0.1]),
            "polarizabilities": small(rng, (2, 3, 3)),
        },
        {"cart_direction": (3,), "amplitudes": (2,), "polarizabilities": (2, 3, 3)},
        [model],
    )


def predictor(kind):
    """Register predictions and masks of a model."""

    @target(f"{kind.__name__}.calc_polarizabilities", "positions_batch")
    def build(rng, n, m, folder):
        n = max(n, 3)
        model = model_of(kind, rng, n)
        return Target(
            model.calc_polarizabilities,
            {"positions_batch": rng.uniform(0, 1, (m, n, 3))},
            {"positions_batch": (None, n, 3)},
            [model],
        )

    @target(f"{kind.__name__}.mask", "mask")
    def mask(rng, n, m, folder):
        model = model_of(kind, rng, max(n, 3))
        count = len(model.mask)
        return Target(
            lambda mask: setattr(model, "mask", mask),
            {"mask": rng.integers(0, 2, count).astype(bool)},
            {"mask": (count,)},
            [model],
        )

    return build, mask


predictor(InterpolationModel)
predictor(ARTModel)


@target("Phonons", "ref_positions", "wavenumbers", "displacements")
def _phonons(rng, n, m, folder):
    return Target(
        Phonons,
        {
            "ref_positions": rng.uniform(0, 1, (n, 3)),
            "wavenumbers": rng.uniform(1, 900, m),
            "displacements": rng.normal(size=(m, n, 3)),
        },
        {"ref_positions": (n, 3), "wavenumbers": (m,), "displacements": (m, n, 3)},
    )


@target("Trajectory", "positions_ts")
def _trajectory(rng, n, m, folder):
    return Target(
        Trajectory,
        {"positions_ts": rng.uniform(0, 1, (m, n, 3)), "timestep": 1.0},
        {"positions_ts": (None, None, 3)},
    )


@target("PhononRamanSpectrum", "phonon_wavenumbers", "raman_tensors")
def _phonon_spectrum(rng, n, m, folder):
    return Target(
        PhononRamanSpectrum,
        {
            "phonon_wavenumbers": rng.uniform(1, 900, m),
            "raman_tensors": rng.normal(size=(m, 3, 3)),
        },
        {"phonon_wavenumbers": (m,), "raman_tensors": (m, 3, 3)},
    )


@target("MDRamanSpectrum", "polarizability_ts")
def _md_spectrum(rng, n, m, folder):
    return Target(
        MDRamanSpectrum,
        {"polarizability_ts": rng.normal(size=(m + 1, 3, 3)), "timestep": 1.0},
        {"polarizability_ts": (None, 3, 3)},
    )


def convolution(name, out):
    """Register convolution with or without given output wavenumbers."""

    @target(name, "wavenumbers", "intensities", *(["out_wavenumbers"] if out else []))
    def build(rng, n, m, folder):
        arguments = {
            "wavenumbers": rng.uniform(1, 900, m),
            "intensities": rng.uniform(0, 1, m),
            "function": str(rng.choice(["gaussian", "lorentzian"])),
        }
        shapes = {"wavenumbers": (m,), "intensities": (m,)}
        if out:
            # as many as there are lines, which is when broadcasting goes unnoticed
            arguments["out_wavenumbers"] = np.linspace(0, 900, m)
            shapes["out_wavenumbers"] = (None,)
        return Target(convolve_spectrum, arguments, shapes)

    return build


convolution("convolve_spectrum", True)
convolution("convolve_spectrum (automatic)", False)


@target("calc_signal_spectrum", "signal")
def _signal(rng, n, m, folder):
    return Target(
        calc_signal_spectrum,
        {"signal": rng.normal(size=m + 1), "sampling_rate": 1.0},
        {"signal": (None,)},
    )


@target("PolarizabilityDataset", "lattice", "positions", "polarizabilities", "atomic_numbers")
def _dataset(rng, n, m, folder):
    s = base(rng, n)
    return Target(
        PolarizabilityDataset,
        {
            "lattice": s["lattice"],
            "atomic_numbers": s["numbers"],
            "positions": rng.uniform(0, 1, (m, n, 3)),
            "polarizabilities": rng.normal(size=(m, 3, 3)),
        },
        {
            "lattice": (3, 3),
            "atomic_numbers": (n,),
            "positions": (m, n, 3),
            "polarizabilities": (m, 3, 3),
        },
        lists=("atomic_numbers",),
    )


@target("PolarizabilityDataset.scale_polarizabilities", "mean", "stddev")
def _scale(rng, n, m, folder):
    built = _dataset(rng, n, m, folder)
    dataset = PolarizabilityDataset(**built.arguments)
    return Target(
        dataset.scale_polarizabilities,
        {"mean": rng.normal(size=(3, 3)), "stddev": rng.uniform(1, 2, (3, 3))},
        {"mean": (3, 3), "stddev": (3, 3)},
        [dataset],
    )


@target("construct_polarizability_dataset", "polarizabilities")
def _construct(rng, n, m, folder):
    m = min(m, 5)
    s = base(rng, n)
    members = [
        to_pymatgen({**s, "positions": rng.uniform(0, 1, (n, 3))}) for _ in range(m)
    ]
    return Target(
        rn_pymatgen.construct_polarizability_dataset,
        {"pymatgen_structures": members, "polarizabilities": rng.normal(size=(m, 3, 3))},
        {"polarizabilities": (m, 3, 3)},
    )


@target("transform_positions", "positions", "rotation", "translation")
def _transform(rng, n, m, folder):
    return Target(
        utils.transform_positions,
        {
            "positions": rng.uniform(0, 1, (n, 3)),
            "rotation": np.diag([1, -1, 1]),
            "translation": rng.uniform(0, 1, 3),
        },
        {"positions": (None, 3), "rotation": (3, 3), "translation": (3,)},
    )


NETWORKS = {}


def network(n):
    """Return network (kept, as it is slow to make)."""
    if n not in NETWORKS:
        rng = gens.rng_of(n)
        s = base(rng, n)
        s["lattice"] = np.diag([5.0, 5.5, 6.0])
        torch.manual_seed(3)
        NETWORKS[n] = PotGNN(
            reference(s), 20.0, 4, 4, 1, 0.0, 9.0, np.zeros((3, 3)), np.ones((3, 3))
        )
    return NETWORKS[n]


@target("PotGNN.calc_polarizabilities", "positions_batch")
def _network(rng, n, m, folder):
    n, m = min(max(n, 2), 4), min(m, 5)
    return Target(
        network(n).calc_polarizabilities,
        {"positions_batch": rng.uniform(0, 1, (m, n, 3))},
        {"positions_batch": (None, n, 3)},
    )


@target("PotGNN", "mean_polarizability", "stddev_polarizability")
def _make_network(rng, n, m, folder):
    ref = reference(base(rng, min(max(n, 2), 4)))
    return Target(
        PotGNN,
        {
            "ref_structure": ref,
            "cutoff": 20.0,
            "size_node_embedding": 2,
            "size_edge_embedding": 2,
            "num_message_passes": 1,
            "gaussian_filter_start": 0.0,
            "gaussian_filter_end": 4.0,
            "mean_polarizability": rng.normal(size=(3, 3)),
            "stddev_polarizability": rng.uniform(0.5, 2, (3, 3)),
        },
        {"mean_polarizability": (3, 3), "stddev_polarizability": (3, 3)},
    )


@target("polarizability_vectors_to_tensors", "polarizability_vectors")
def _vectors(rng, n, m, folder):
    return Target(
        polarizability_vectors_to_tensors,
        {"polarizability_vectors": torch.tensor(rng.normal(size=(m, 6)))},
        {"polarizability_vectors": (None, 6)},
    )


@target("polarizability_tensors_to_vectors", "polarizability_tensors")
def _tensors(rng, n, m, folder):
    return Target(
        polarizability_tensors_to_vectors,
        {"polarizability_tensors": torch.tensor(rng.normal(size=(m, 3, 3)))},
        {"polarizability_tensors": (None, 3, 3)},
    )


# ------------------------------------------------------------------ the check

CHEAP = [
    "poscar.write_structure",
    "generic.write_structure",
    "Phonons",
    "Trajectory",
    "PolarizabilityDataset",
    "PolarizabilityDataset.scale_polarizabilities",
    "transform_positions",
]

MUTATIONS = [
    "new first axis",
    "new last axis",
    "new middle axis",
    "first of first axis",
    "first of last axis",
    "flat",
    "scalar",
    "transposed",
    "more",
    "less",
    "one",
    "none",
    "twice",
    "stacked",
]
KINDS = {
    "None": None,
    "text": "polycrystal",
    "number": 1.5,
    "dictionary": {},
    "list": "list",
    "tuple": "tuple",
    "set": set(),
}


def mutate(array, dims, how, axis):
    """Return array of another shape, or None if it would be valid."""
    shape = array.shape
    if how == "new first axis":
        result = array[None]
    elif how == "new last axis":
        result = array[..., None]
    elif how == "new middle axis":
        if array.ndim < 2:
            return None
        result = array[:, None]
    elif how == "first of first axis":
        result = array[0] if shape[0] else None
    elif how == "first of last axis":
        result = array[..., 0] if shape[-1] else None
    elif how == "flat":
        result = array.reshape(-1)
    elif how == "scalar":
        result = np.array(0.5)
    elif how == "transposed":
        result = array.T
    elif how == "stacked":
        result = np.stack([array, array])
    else:
        size = shape[axis]
        wanted = {
            "more": size + 1,
            "less": size - 1,
            "one": 1,
            "none": 0,
            "twice": 2 * size,
        }[how]
        if wanted < 0:
            return None
        index = np.arange(wanted) % max(size, 1)
        result = np.take(array, index, axis=axis) if size else None
    if result is None:
        return None
    if dims[0] is Ellipsis:
        return None if result.shape[-len(dims) + 1 :] == dims[1:] else result
    if result.ndim == len(dims) and all(
        d is None or d == s for d, s in zip(dims, result.shape)
    ):
        return None
    return result


@st.composite
def shapes(draw):
    """Strategy for calls with an array of the wrong shape."""
    name, argument = draw(st.sampled_from(sorted(TARGETS)))
    sizes = [1, 2, 3, 3, 4, 5, 6, 9] + ([257, 300] if name in CHEAP else [])
    return {
        "target": name,
        "argument": argument,
        "n": draw(st.sampled_from(sizes)),
        "m": draw(st.sampled_from([1, 2, 3, 3, 4, 6, 9, 257, 300])),
        "how": draw(st.sampled_from(MUTATIONS)),
        "axis": draw(st.integers(0, 2)),
        "seed": draw(gens.SEEDS),
    }


def listing(folder):
    """Return contents of a folder."""
    result = {}
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name), "rb") as file:
            result[name] = file.read()
    return result


@contextlib.contextmanager
def quiet():
    """Silence warnings and progress bars."""
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def attempt(made, argument, value, folder):
    """Call with one argument replaced. Return exception, and whether state changed."""
    before = [freeze(x) for x in made.state], listing(folder)
    error = None
    with quiet():
        try:
            made.call(**{**made.arguments, argument: value})
        except Exception as exc:  # pylint: disable=broad-except
            error = exc
    after = [freeze(x) for x in made.state], listing(folder)
    return error, not (equal(before[0], after[0]) and before[1] == after[1])


@sub("C26", "shapes", shapes(), 4000, 100000, "the wrong shape could be broadcast")
def wrong_shapes(case):
    """Arrays of other shapes are rejected and leave everything as it was."""
    build = TARGETS[(case["target"], case["argument"])]
    with tempfile.TemporaryDirectory() as folder:
        made = build(gens.rng_of(case["seed"]), case["n"], case["m"], folder)
        argument = case["argument"]
        valid, dims = made.arguments[argument], made.shapes[argument]
        tensor = isinstance(valid, torch.Tensor)
        is_list = argument in made.lists
        array = np.asarray(valid)
        how = case["how"]
        if is_list:  # lists may be too long or too short
            assume(how in ("more", "less", "none", "twice", "one"))
        wrong = mutate(array, dims, how, case["axis"] % max(array.ndim, 1))
        assume(wrong is not None)
        given = wrong
        if is_list:
            given = wrong.tolist()
        elif tensor:
            given = torch.tensor(wrong)
        error, changed = attempt(made, argument, given, folder)
        details = {
            "target": case["target"],
            "argument": argument,
            "shape": wrong.shape,
            "documented": dims,
        }
        need(error is not None, "accepted an array of the wrong shape", **details)
        need(
            isinstance(error, (ValueError, InvalidDOFException)),
            "wrong error for an array of the wrong shape",
            error=error,
            **details,
        )
        need(not changed, "the rejected call left something behind", **details)
        # and what is documented is accepted
        with quiet():
            made.call(**made.arguments)
    return wrong.size in (1, array.size) or 1 in wrong.shape


# None is a default; text that is no number; scalars and lists that numpy can make
# arrays of
LENIENT = {
    ("convolve_spectrum", "out_wavenumbers", "None"): None,
    ("write_displaced_structures", "filepaths", "text"): None,
    ("write_ast_displaced_structures", "filepaths", "text"): None,
    ("ReferenceStructure.get_cart_displacement", "displacement", "number"): (
        ValueError,
        AttributeError,
    ),
    ("InterpolationModel.add_dof", "cart_displacement", "text"): ValueError,
    ("InterpolationModel.add_dof", "cart_displacement", "number"): ValueError,
    ("InterpolationModel.add_dof", "cart_displacement", "list"): None,
    ("InterpolationModel.add_dof", "cart_displacement", "tuple"): None,
    ("get_displaced_positions", "cart_displacement", "text"): ValueError,
    ("get_displaced_positions", "cart_displacement", "number"): ValueError,
    ("get_ast_displaced_positions", "cart_direction", "text"): ValueError,
    ("get_ast_displaced_positions", "cart_direction", "number"): ValueError,
    ("write_displaced_structures", "cart_displacement", "text"): ValueError,
    ("write_displaced_structures", "cart_displacement", "number"): ValueError,
    ("write_ast_displaced_structures", "cart_direction", "text"): ValueError,
    ("write_ast_displaced_structures", "cart_direction", "number"): ValueError,
}


@st.composite
def kinds(draw):
    """Strategy for calls with something that is no array (or list)."""
    name, argument = draw(st.sampled_from(sorted(TARGETS)))
    return {
        "target": name,
        "argument": argument,
        "n": draw(st.sampled_from([1, 2, 3, 4])),
        "m": draw(st.sampled_from([1, 2, 3, 300])),
        "kind": draw(st.sampled_from(sorted(KINDS))),
        "seed": draw(gens.SEEDS),
    }


@sub("C26", "kinds", kinds(), 3000, 50000, "a list or tuple of numbers is given")
def wrong_kinds(case):
    """Values of the wrong kind are rejected with a type error."""
    build = TARGETS[(case["target"], case["argument"])]
    with tempfile.TemporaryDirectory() as folder:
        made = build(gens.rng_of(case["seed"]), case["n"], case["m"], folder)
        argument, kind = case["argument"], case["kind"]
        valid = made.arguments[argument]
        assume(not (argument in made.lists and kind == "list"))
        lenient = LENIENT.get((case["target"], argument, kind), TypeError)
        assume(lenient is not None)
        given = KINDS[kind]
        if kind in ("list", "tuple"):
            given = np.asarray(valid).tolist()
            given = tuple(given) if kind == "tuple" else given
        error, changed = attempt(made, argument, given, folder)
        details = {"target": case["target"], "argument": argument, "kind": kind}
        need(error is not None, "accepted a value of the wrong kind", **details)
        need(
            isinstance(error, (TypeError, lenient)),
            "wrong error for a value of the wrong kind",
            error=error,
            **details,
        )
        need(not changed, "the rejected call left something behind", **details)
    return kind in ("list", "tuple")




# ------------------------------------------------------------------- scalars

NOT_NUMBERS = [None, "text", [1.0], {}, (1,)]
NOT_POSITIVE = [0, -1, 0.0, -1e-9, -300.0, np.float64(-2), np.int64(0), -np.inf]
NOT_INTEGERS = [1.0, "1", None, [1], 2.5, np.float64(1), (1,), {}]
SCALARS = {}
TEXT_FORMATS = ("read_positions", "read_ref_structure")


def _trajectory_timestep(rng, value):
    return None, lambda: Trajectory(rng.uniform(0, 1, (2, 2, 3)), value)


def _phonon_spectrum_of(rng):
    return PhononRamanSpectrum(rng.uniform(1, 900, 3), rng.normal(size=(3, 3, 3)))


def _temperature(rng, value):
    spectrum = _phonon_spectrum_of(rng)
    return spectrum, lambda: spectrum.measure(
        bose_einstein_correction=True, temperature=value
    )


def _bose(rng, value):
    return None, lambda: get_bose_einstein_correction(rng.uniform(1, 900, 3), value)


def _laser(rng, value):
    return None, lambda: get_laser_correction(rng.uniform(1, 900, 3), value)


def _orientation(rng, value):
    if rng.integers(0, 2):
        spectrum = _phonon_spectrum_of(rng)
    else:
        spectrum = MDRamanSpectrum(rng.normal(size=(5, 3, 3)), 1.0)
    return spectrum, lambda: spectrum.measure(orientation=value)


def _width(rng, value):
    function = str(rng.choice(["gaussian", "lorentzian"]))
    return None, lambda: convolve_spectrum(
        rng.uniform(1, 900, 3), rng.uniform(0, 1, 3), function, value
    )


def _function(rng, value):
    return None, lambda: convolve_spectrum(
        rng.uniform(1, 900, 3), rng.uniform(0, 1, 3), value
    )


def _order(rng, value):
    model = model_of(InterpolationModel, rng, 3)
    displacement = np.zeros((3, 3))
    displacement[2, 1] = 1
    return model, lambda: model.add_dof(
        displacement, np.array([-0.1, 0.1, 0.2]), small(rng, (3, 3, 3)), value
    )


def _atom_index(rng, value):
    model = model_of(ARTModel, rng, 3)
    return model, lambda: model.add_art(
        value, np.array([0.0, 0, 1]), np.array([-0.1, 0.1]), small(rng, (2, 3, 3))
    )


def _displaced_atom(rng, value):
    ref = reference(base(rng, 3))
    return ref, lambda: get_ast_displaced_positions(
        ref, value, np.array([0.0, 0, 1]), np.array([0.1])
    )


def _masked(rng, value):
    model = model_of(InterpolationModel, rng, 3)
    return model, lambda: model.get_masked_model([value])


def _written_number(rng, value):
    s = base(rng, 3)
    folder = tempfile.mkdtemp(dir=".")
    path = os.path.join(folder, "file")

    def call():
        try:
            if rng.integers(0, 2):
                poscar.write_structure(
                    s["lattice"], [1, value, 2], s["positions"], path
                )
            else:
                xdatcar.write_trajectory(
                    s["lattice"], [1, value, 2], s["positions"][None], path
                )
        finally:
            need(not os.path.exists(path), "a file was written", number=value)

    return None, call


def _symbols(rng, value):
    ref = reference(base(rng, 3))
    return ref, lambda: ref.get_atom_indexes(value)


def _outside(rng, value):
    positions = rng.uniform(0, 1, (4, 3))
    positions[tuple(rng.integers(0, 3, 2))] = value
    return None, lambda: utils.transform_positions(positions, np.eye(3), np.zeros(3))


def _network_parameter(name):
    def build(rng, value):
        made = _make_network(rng, 3, 3, None)
        return None, lambda: PotGNN(**{**made.arguments, name: value})

    return build


READERS = [
    lambda p: generic.read_positions(p, "poscar"),
    lambda p: generic.read_ref_structure(p, "outcar"),
    lambda p: generic.read_phonons(p, "outcar"),
    lambda p: generic.read_trajectory(p, "vasprun.xml"),
    lambda p: generic.read_polarizability_dataset(p, "outcar"),
    lambda p: generic.read_structure_and_polarizability(p, "vasprun.xml"),
    xdatcar.read_positions_ts,
    poscar.read_structure,
]


def _path(rng, value):
    return None, lambda: READERS[rng.integers(0, len(READERS))](value)


def _format(name):
    def build(rng, value):
        s = base(rng, 2)
        path = os.path.join(tempfile.mkdtemp(dir="."), "file")
        poscar.write_structure(s["lattice"], s["numbers"], s["positions"] % 1, path)
        model = model_of(ARTModel if "art" in name else InterpolationModel, rng, 3)
        if name == "add_dof_from_files":
            return model, lambda: model.add_dof_from_files([path], value, 1)
        if name == "add_art_from_files":
            return model, lambda: model.add_art_from_files([path], value)
        return None, lambda: getattr(generic, name)(path, value)

    return build


def _coinciding(rng, value):
    s = base(rng, 3)
    s["numbers"] = [8, 8, 22]
    s["positions"][1] = s["positions"][0] + value
    return None, lambda: reference(s)


for _name in (
    "read_positions",
    "read_ref_structure",
    "read_phonons",
    "read_trajectory",
    "read_polarizability_dataset",
    "read_positions_and_polarizability",
    "read_structure_and_polarizability",
    "add_dof_from_files",
    "add_art_from_files",
):
    SCALARS[f"format of {_name}"] = (
        _format(_name),
        ["", "OUTCAR", "vasprun", "cif", "POSCAR", "outcar ", "xdatcar.", 3, None]
        + (["xdatcar", "poscar"] if _name not in TEXT_FORMATS else []),
        ValueError,
    )

for _name, _function_, _bad, _errors in [
    (
        "coinciding atoms",
        _coinciding,
        [0, np.array([1, 0, -2]), 1e-9, np.array([0, 1e-8, 1])],
        SymmetryException,
    ),
    ("timestep (kind)", _trajectory_timestep, [None, [1.0], {}, (1,)], TypeError),
    ("timestep", _trajectory_timestep, NOT_POSITIVE + ["text"], ValueError),
    ("temperature (kind)", _bose, NOT_NUMBERS, TypeError),
    ("temperature", _bose, NOT_POSITIVE, ValueError),
    ("temperature of a spectrum", _temperature, NOT_POSITIVE, ValueError),
    ("laser wavenumber (kind)", _laser, NOT_NUMBERS, TypeError),
    ("laser wavenumber", _laser, NOT_POSITIVE, ValueError),
    (
        "orientation",
        _orientation,
        ["", "Polycrystalline", "single", None, 3, np.zeros(3), np.eye(3)],
        NotImplementedError,
    ),
    ("width (kind)", _width, NOT_NUMBERS, TypeError),
    ("width", _width, NOT_POSITIVE, ValueError),
    ("function", _function, ["", "Gaussian", "box", None, 3], ValueError),
    ("interpolation order (kind)", _order, NOT_INTEGERS, TypeError),
    ("interpolation order", _order, [0, -1, -5], ValueError),
    ("interpolation order (points)", _order, [4, 5, 50], InvalidDOFException),
    ("atom index (kind)", _atom_index, NOT_INTEGERS + [np.int64(1)], TypeError),
    ("atom index", _atom_index, [3, 4, 100, -4, -100], IndexError),
    ("index of displaced atom", _displaced_atom, [3, 100, -4], IndexError),
    ("index to mask", _masked, [2, 5, 100, -3], IndexError),
    (
        "atomic number",
        _written_number,
        [0, 119, -1, 1000, "O", None, 1.5],
        ValueError,
    ),
    ("atom symbols", _symbols, [3, None, 1.5], TypeError),
    ("positions", _outside, [-1e-9, 1 + 1e-9, 2, -5], ValueError),
    ("cutoff", _network_parameter("cutoff"), NOT_POSITIVE, ValueError),
    (
        "size of node embedding",
        _network_parameter("size_node_embedding"),
        [0, -1, -10],
        ValueError,
    ),
    (
        "size of edge embedding",
        _network_parameter("size_edge_embedding"),
        [0, -1, -10],
        ValueError,
    ),
    (
        "message passes",
        _network_parameter("num_message_passes"),
        [0, -1, -10],
        ValueError,
    ),
    (
        "start of filter",
        _network_parameter("gaussian_filter_start"),
        [-1e-9, -1, 4.0, 5],
        ValueError,
    ),
    (
        "end of filter",
        _network_parameter("gaussian_filter_end"),
        [0.0, -1, -1e-9],
        ValueError,
    ),
    ("path", _path, [None, 3.5, {}, np.zeros(2), b"file" * 0], TypeError),
]:
    SCALARS[_name] = (_function_, _bad, _errors)


@st.composite
def values(draw):
    """Strategy for values that are not allowed."""
    name = draw(st.sampled_from(sorted(SCALARS)))
    return {
        "parameter": name,
        "value": draw(st.integers(0, len(SCALARS[name][1]) - 1)),
        "seed": draw(gens.SEEDS),
    }


@sub("C26", "values", values(), 3000, 30000, "the object could have been changed")
def wrong_values(case):
    """Scalars that are not allowed are rejected."""
    build, bad, errors = SCALARS[case["parameter"]]
    value = bad[case["value"]]
    state, call = build(gens.rng_of(case["seed"]), value)
    before = freeze(state)
    error = None
    with quiet():
        try:
            call()
        except Exception as exc:  # pylint: disable=broad-except
            error = exc
    details = {"parameter": case["parameter"], "value": value}
    need(error is not None, "accepted a value that is not allowed", **details)
    need(
        isinstance(error, errors),
        "wrong error for a value that is not allowed",
        error=error,
        **details,
    )
    need(equal(before, freeze(state)), "the rejected call changed its object", **details)
    return state is not None
