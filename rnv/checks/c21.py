"""C21: results and arguments are never shared, so no caller can corrupt an object."""

import copy
import tempfile

import numpy as np
import pymatgen.core
import torch
from hypothesis import strategies as st
from scipy.interpolate import BSpline

from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dataset.torch import utils as torch_utils
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.io import generic
from ramannoodle.io import pymatgen as pymatgen_io
from ramannoodle.io.vasp import poscar, xdatcar
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import convolve_spectrum
from ramannoodle.structure import (
    ReferenceStructure,
    get_ast_displaced_positions,
    get_displaced_positions,
    utils,
    write_ast_displaced_structures,
    write_displaced_structures,
)

from rnv import gens, models, vasp
from rnv.core import need, sub


def freeze(value):
    """Return an independent description of a result that can be compared."""
    if isinstance(value, torch.Tensor):
        return ("tensor", str(value.dtype), value.detach().clone().numpy())
    if isinstance(value, np.ndarray):
        return ("array", str(value.dtype), value.copy())
    if isinstance(value, BSpline):
        return ("spline", value.k, freeze(value.t), freeze(value.c))
    if isinstance(value, dict):
        return ("dict", [(k, freeze(v)) for k, v in value.items()])
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [freeze(v) for v in value])
    if isinstance(value, ReferenceStructure):
        return (
            "structure",
            freeze([value.lattice, value.positions, value.atomic_numbers]),
        )
    if isinstance(value, Trajectory):
        return ("trajectory", freeze([value.positions_ts, value.timestep]))
    if isinstance(value, Phonons):
        return (
            "phonons",
            freeze([value.ref_positions, value.wavenumbers, value.displacements]),
        )
    if isinstance(value, PhononRamanSpectrum):
        return (
            "phonon spectrum",
            freeze([value.phonon_wavenumbers, value.raman_tensors, value.measure()]),
        )
    if isinstance(value, MDRamanSpectrum):
        return ("spectrum", freeze([value.polarizability_ts, value.measure()]))
    if isinstance(value, InterpolationModel):
        return (
            "model",
            freeze([value.cart_basis_vectors, value.interpolations, value.mask]),
        )
    if isinstance(value, PolarizabilityDataset):
        return (
            "dataset",
            freeze([value.positions, value.polarizabilities, value.scaled_polarizabilities]),
        )
    if isinstance(value, pymatgen.core.Structure):
        return ("pymatgen", freeze([value.lattice.matrix, value.frac_coords]))
    if value is None or isinstance(value, (int, float, str, np.generic)):
        return ("value", value)
    raise TypeError(type(value))


def equal(a, b, tol=0.0):
    """Return whether two descriptions agree."""
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind == "f":
            if tol:
                return np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
            return np.array_equal(a, b, equal_nan=True)
        return np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return (
            type(a) is type(b)
            and len(a) == len(b)
            and all(equal(x, y, tol) for x, y in zip(a, b))
        )
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def corrupt(value, seen=None):
    """Modify everything mutable in a result. Returns whether something was."""
    seen = set() if seen is None else seen
    if id(value) in seen:
        return False
    seen.add(id(value))
    if isinstance(value, torch.Tensor):
        with torch.no_grad():
            if value.numel() and not value.is_inference():
                value += 1
        return value.numel() > 0
    if isinstance(value, np.ndarray):
        if not value.flags.writeable or not value.size:
            return False
        if value.dtype == bool:
            value[...] = ~value
        elif value.dtype.kind in "iuf":
            value[...] = value * 3 + 7
        else:
            return False
        return True
    if isinstance(value, BSpline):
        a = corrupt(value.c, seen)
        return corrupt(value.t, seen) or a
    if isinstance(value, dict):
        done = [corrupt(v, seen) for v in list(value.values())]
        value.clear()
        return True or any(done)
    if isinstance(value, list):
        for v in list(value):
            corrupt(v, seen)
        if value:
            value.pop()
        value.append(91)
        return True
    if isinstance(value, tuple):
        return any([corrupt(v, seen) for v in value])
    if isinstance(value, InterpolationModel):
        value.mask = ~value.mask
        n = value.ref_structure.num_atoms
        try:
            if isinstance(value, ARTModel):
                value.add_art(
                    0, np.array([1.0, 0.3, 0.2]), np.array([-0.1, 0.1]), np.ones((2, 3, 3))
                )
            else:
                value.add_dof(
                    np.random.default_rng(1).normal(size=(n, 3)),
                    np.array([-0.1, 0.1]),
                    np.ones((2, 3, 3)),
                    1,
                )
        except Exception:  # pylint: disable=broad-except
            pass
        value.unmask()
        return True
    if isinstance(value, PolarizabilityDataset):
        value.scale_polarizabilities(np.ones((3, 3)), np.full((3, 3), 2.0))
        return True
    return False


class World:
    """Objects and the queries that can be made of them."""

    def __init__(self, case):
        rng = gens.rng_of(case["seed"])
        crystal = case["crystal"]
        numbers = [int(n) for n in crystal["numbers"]]
        n = len(numbers)
        lattice = crystal["lattice"].copy()
        inverse = np.linalg.inv(lattice)
        positions = crystal["positions"].copy()
        alpha = models.symmetric(rng)
        self.directory = case["directory"]
        self.given = []  # everything passed to constructors and setters
        self.queries = []  # (name, function, arguments)
        self.tolerance = {}

        def give(value):
            self.given.append(value)
            return value

        def shape(kind, *size):
            return np.array(kind(size=size))

        ref = ReferenceStructure(
            give(list(numbers)), give(lattice.copy()), give(positions.copy())
        )
        symbol = pymatgen.core.Element.from_Z(numbers[0]).symbol
        displacement = 0.1 * rng.normal(size=(n, 3))
        if case["atomic"]:
            displacement[1:] = 0
            displacement[0] = [0.1, 0, 0]
        for name in (
            "atomic_numbers num_atoms lattice positions num_nonequivalent_atoms".split()
        ):
            self.attribute("structure", ref, name)
        self.add("get_equivalent_atom_dict", ref.get_equivalent_atom_dict)
        self.add(
            "get_equivalent_displacements", ref.get_equivalent_displacements, displacement
        )
        self.add("get_cart_displacement", ref.get_cart_displacement, displacement)
        self.add("get_frac_displacement", ref.get_frac_displacement, displacement)
        self.add("get_cart_direction", ref.get_cart_direction, rng.normal(size=3))
        self.add("get_frac_direction", ref.get_frac_direction, rng.normal(size=3))
        self.add("get_atom_indexes", ref.get_atom_indexes, [symbol, "Og"])
        amplitudes = rng.uniform(-0.3, 0.3, 3)
        self.add(
            "get_displaced_positions",
            lambda d, a: get_displaced_positions(ref, d, a),
            displacement,
            amplitudes,
        )
        self.add(
            "get_ast_displaced_positions",
            lambda d, a: get_ast_displaced_positions(ref, n - 1, d, a),
            rng.normal(size=3),
            amplitudes,
        )

        # models
        batch = positions + 0.03 * rng.normal(size=(4, n, 3)) @ inverse
        art = case["art"]
        cls = ARTModel if art else InterpolationModel
        model = cls(ref, give(alpha.copy()))
        direction = give(np.array(case["direction"], dtype=float))
        order = case["order"]
        try:
            if art:
                model.add_art(
                    0,
                    direction,
                    give(np.array([-0.1, 0.12])),
                    give(alpha + 0.1 * models.symmetric(rng, (2,))),
                )
            else:
                d = give(np.zeros((n, 3)))
                d[0] = direction
                if not case["atomic"]:
                    d[...] = rng.normal(size=(n, 3))
                a = give(np.linspace(-0.2, 0.23, order + 1))
                model.add_dof(
                    d, a, give(alpha + 0.1 * models.symmetric(rng, (order + 1,))), order
                )
        except Exception:  # symmetry makes some amplitudes redundant
            try:
                if art:
                    model.add_art(
                        0,
                        direction,
                        give(np.array([0.1])),
                        give(alpha + 0.1 * models.symmetric(rng, (1,))),
                    )
                else:
                    model.add_dof(d, give(np.array([0.1])), give(alpha[None] * 1.1), 1)
            except Exception:  # pylint: disable=broad-except
                pass
        count = len(model.cart_basis_vectors)
        self.busy = count > 0
        if case["masked"] and count:
            model.mask = give(rng.integers(0, 2, count).astype(bool))
        for name in "ref_structure ref_polarizability is_dummy_model mask".split():
            self.attribute("model", model, name)
        self.attribute("model", model, "cart_basis_vectors")
        self.attribute("model", model, "interpolations")
        self.add("calc_polarizabilities", model.calc_polarizabilities, batch)
        self.add("get_masked_model", model.get_masked_model, list(range(count))[:1])
        self.add("repr", lambda: repr(model))
        if art:
            self.add("get_specification_tuples", model.get_specification_tuples)
            self.add("get_dof_indexes", model.get_dof_indexes, [0, symbol])
            symbols = [vasp.symbol_of(z) for z in dict.fromkeys(numbers)]
            self.add("get_dof_indexes of all", model.get_dof_indexes, symbols)

        # dynamics and spectra
        path = Trajectory(give(batch.copy()), 2.0)
        self.attribute("trajectory", path, "positions_ts")
        self.attribute("trajectory", path, "timestep")
        self.add("trajectory[i]", lambda: path[-1])
        self.add("trajectory[i:j]", lambda: path[1:])
        self.add("list(trajectory)", lambda: list(path))
        self.add("trajectory.get_raman_spectrum", lambda: path.get_raman_spectrum(model))
        modes = shape(rng.normal, 3, n, 3)
        phonons = Phonons(
            give(positions.copy()), give(rng.uniform(50, 900, 3)), give(modes)
        )
        for name in "ref_positions wavenumbers displacements".split():
            self.attribute("phonons", phonons, name)
        self.add("phonons.get_raman_spectrum", lambda: phonons.get_raman_spectrum(model))
        tensors = models.symmetric(rng, (6,))
        lines = PhononRamanSpectrum(give(rng.uniform(50, 900, 6)), give(tensors.copy()))
        series = MDRamanSpectrum(give(models.symmetric(rng, (9,))), 1.5)
        self.attribute("phonon spectrum", lines, "phonon_wavenumbers")
        self.attribute("phonon spectrum", lines, "raman_tensors")
        self.attribute("MD spectrum", series, "polarizability_ts")
        for spectrum, label in ((lines, "phonon"), (series, "MD")):
            for laser in (False, True):
                for bose in (False, True):
                    self.add(
                        f"{label} measure laser={laser} bose={bose}",
                        lambda s=spectrum, a=laser, b=bose: s.measure(
                            laser_correction=a, bose_einstein_correction=b
                        ),
                    )
        w, y = rng.uniform(0, 900, 5), rng.normal(size=5)
        self.add("convolve_spectrum", convolve_spectrum, w, y)
        self.add(
            "convolve_spectrum onto integers",
            lambda *a: convolve_spectrum(*a[:2], "lorentzian", 7, a[2]),
            w,
            y,
            np.arange(0, 900, 50),
        )

        # utilities
        self.add("apply_pbc", utils.apply_pbc, positions + 0.7)
        self.add("apply_pbc_displacement", utils.apply_pbc_displacement, modes[0])
        self.add("displace_positions", utils.displace_positions, positions, modes[0])
        self.add("calc_displacement", utils.calc_displacement, positions, batch[0])
        self.add(
            "transform_positions",
            utils.transform_positions,
            positions,
            np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]),
            np.array([0.5, 0.1, -3.0]),
        )

        # datasets
        dataset = PolarizabilityDataset(
            give(lattice.copy()),
            give(list(numbers)),
            give(rng.uniform(0, 1, (5, n, 3))),
            give(models.symmetric(rng, (5,))),
        )
        if case["rescaled"]:
            dataset.scale_polarizabilities(
                give(rng.normal(size=(3, 3))), give(rng.uniform(0.5, 2, (3, 3)))
            )
        for name in (
            "num_atoms num_samples atomic_numbers positions polarizabilities "
            "scaled_polarizabilities mean_polarizability stddev_polarizability"
        ).split():
            self.attribute("dataset", dataset, name)
        self.add(
            "polarizability_vectors_to_tensors",
            torch_utils.polarizability_vectors_to_tensors,
            torch.tensor(rng.normal(size=(4, 6))),
        )
        self.add(
            "polarizability_tensors_to_vectors",
            torch_utils.polarizability_tensors_to_vectors,
            torch.tensor(models.symmetric(rng, (4,))),
        )

        # files
        self.add(
            "poscar.write_structure",
            lambda *a: self.written(poscar.write_structure, *a),
            lattice,
            list(numbers),
            positions,
        )
        self.add(
            "xdatcar.write_trajectory",
            lambda *a: self.written(xdatcar.write_trajectory, *a),
            lattice,
            list(numbers),
            batch,
        )
        for file_format in ("poscar", "xdatcar"):
            self.add(
                f"write_displaced_structures {file_format}",
                lambda d, a, f=file_format: self.displaced(ref, d, a, f),
                displacement,
                amplitudes,
            )
        self.add(
            "write_ast_displaced_structures",
            lambda d, a: self.displaced(ref, d, a, "poscar", True),
            rng.normal(size=3),
            amplitudes,
        )
        calc = {
            "lattice": lattice,
            "numbers": numbers,
            "positions": batch[0] % 1,
            "polarizability": alpha,
        }
        for file_format, text in (
            ("outcar", vasp.render_outcar(calc, vasp.PLAIN_OUTCAR)),
            ("vasprun.xml", vasp.render_vasprun(calc, vasp.PLAIN_VASPRUN)),
        ):
            name = f"{self.directory}/calc_{file_format}"
            vasp.write(name, text)
            for reader in (
                generic.read_positions,
                generic.read_positions_and_polarizability,
                generic.read_structure_and_polarizability,
                generic.read_ref_structure,
            ):
                self.add(
                    f"{reader.__name__} {file_format}",
                    lambda r=reader, p=name, f=file_format: r(p, f),
                )
            self.add(
                f"read_polarizability_dataset {file_format}",
                lambda names, f=file_format: generic.read_polarizability_dataset(names, f),
                [name, name],
            )
        name = f"{self.directory}/path"
        xdatcar.write_trajectory(lattice, numbers, batch % 1, name, overwrite=True)
        self.add("read_trajectory", lambda: xdatcar.read_trajectory(name, 2.0))

        # pymatgen
        structure = pymatgen.core.Structure(lattice, numbers, positions)
        for function in (
            pymatgen_io.get_structure,
            pymatgen_io.get_positions,
            pymatgen_io.construct_ref_structure,
        ):
            self.add(f"pymatgen {function.__name__}", function, structure)
        self.add(
            "pymatgen dataset",
            pymatgen_io.construct_polarizability_dataset,
            [structure, structure],
            models.symmetric(rng, (2,)),
        )

        if case["gnn"]:
            torch.manual_seed(5)
            gnn = PotGNN(
                ref, 4.0, 4, 4, 1, 0.0, 5.0, give(alpha.copy()), give(np.abs(alpha) + 1)
            )
            self.add("GNN", gnn.calc_polarizabilities, batch)
            self.tolerance["GNN"] = 1e-5

    def attribute(self, label, obj, name):
        """Register a property."""
        self.queries.append((f"{label}.{name}", lambda: getattr(obj, name), []))

    def add(self, name, function, *arguments):
        """Register a function."""
        self.queries.append((name, function, [copy.deepcopy(a) for a in arguments]))

    def written(self, writer, *arguments):
        """Return text written to a file."""
        path = f"{self.directory}/written"
        writer(*arguments, path, overwrite=True, label="\u00e9 \u03b1-TiO\u2082")
        with open(path, encoding="utf-8") as file:
            return file.read()

    def displaced(self, ref, direction, amplitudes, file_format, atomic=False):
        """Return texts of displaced structures."""
        paths = [f"{self.directory}/displaced{i}" for i in range(len(amplitudes))]
        given = list(paths) if file_format == "poscar" else paths[0]
        before = copy.copy(given)
        if atomic:
            write_ast_displaced_structures(
                ref, 0, direction, amplitudes, given, file_format, overwrite=True
            )
        else:
            write_displaced_structures(
                ref, direction, amplitudes, given, file_format, overwrite=True
            )
        need(given == before, "list of paths was modified")
        texts = []
        for path in paths if file_format == "poscar" else paths[:1]:
            with open(path, encoding="utf-8") as file:
                texts.append(file.read())
        return texts

    def ask(self, index, spoil):
        """Return (frozen result, whether something was corrupted)."""
        name, function, arguments = self.queries[index]
        passed = [copy.deepcopy(a) for a in arguments]
        before = [freeze(a) for a in arguments]
        try:
            result = function(*passed)
        except ValueError as exc:
            return ("raised", str(exc)), False
        for argument, frozen in zip(passed, before):
            need(equal(freeze(argument), frozen), f"an argument of {name} was modified")
        answer = freeze(result)
        spoiled = False
        if spoil:
            spoiled = corrupt(result)
            for argument in passed:
                corrupt(argument)
        return answer, spoiled


@st.composite
def cases(draw):
    """Strategy for worlds and histories."""
    if draw(st.booleans()):
        crystal = draw(gens.crystals(max_atoms=6))
    else:
        crystal = draw(models.low_symmetry(max_types=2, max_count=3))
    # files list atoms by species
    crystal = gens.permute(crystal, np.argsort(crystal["numbers"], kind="stable"))
    return {
        "crystal": crystal,
        "art": draw(st.booleans()),
        "atomic": draw(st.booleans()),
        "masked": draw(st.booleans()),
        "rescaled": draw(st.booleans()),
        "gnn": draw(st.integers(0, 3)) == 0,
        "order": draw(st.integers(1, 3)),
        "direction": draw(st.sampled_from([[1, 0, 0], [0, 0, 1], [1, 1, 0], [0.3, 1, 2]])),
        "steps": draw(st.lists(st.integers(0, 200), min_size=6, max_size=25)),
        "seed": draw(gens.SEEDS),
    }


@sub(
    "C21",
    "histories",
    cases(),
    200,
    5000,
    "the model has a degree of freedom and at least five results were modified",
)
def histories(case):
    """Corrupt results and arguments, and repeat queries."""
    with tempfile.TemporaryDirectory() as directory:
        world = World({**case, "directory": directory})
        count = len(world.queries)
        answers = [world.ask(i, False)[0] for i in range(count)]

        def check(indexes, after):
            for i in indexes:
                name = world.queries[i][0]
                need(
                    equal(world.ask(i, False)[0], answers[i], world.tolerance.get(name, 0)),
                    f"{name} answers differently",
                    after=after,
                    before=answers[i],
                    now=world.ask(i, False)[0],
                )

        check(range(count), "asking everything once")
        for value in world.given:
            corrupt(value)
        check(range(count), "modifying arguments of constructors")
        spoiled = 0
        rng = gens.rng_of(case["seed"])
        for step in case["steps"]:
            i = step % count
            name = world.queries[i][0]
            answer, done = world.ask(i, True)
            spoiled += done
            need(equal(answer, answers[i], world.tolerance.get(name, 0)), f"{name} changed")
            check([i, *rng.integers(0, count, 4)], f"modifying the result of {name}")
        check(range(count), "modifying results")
        for i in range(count):
            world.ask(i, True)
        check(range(count), "modifying all results")
    return world.busy and spoiled >= 5


@sub("C21", "twins", cases(), 120, 2000, "the model has a degree of freedom")
def twins(case):
    """Objects made from the same arrays do not influence each other."""
    with tempfile.TemporaryDirectory() as one, tempfile.TemporaryDirectory() as two:
        first = World({**case, "directory": one})
        second = World({**case, "directory": two})
        need(len(first.queries) == len(second.queries), "number of queries")
        for i in range(len(first.queries)):
            first.ask(i, True)
        for value in first.given:
            corrupt(value)
        for i, (name, _, _) in enumerate(first.queries):
            a, b = first.ask(i, False)[0], second.ask(i, False)[0]
            need(
                equal(a, b, world_tolerance(first, name)),
                f"{name}: an object differs from its twin",
                ours=a,
                twin=b,
            )
    return first.busy


def world_tolerance(world, name):
    """Return tolerance of a query."""
    return world.tolerance.get(name, 0)
