"""C29: objects can be copied, stored, and used by several threads at once."""

import copy
import os
import pickle
import tempfile
import threading

import numpy as np
import torch
from hypothesis import strategies as st

from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.io import generic
from ramannoodle.io.vasp import poscar, xdatcar
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import convolve_spectrum
from ramannoodle.structure import (
    ReferenceStructure,
    get_displaced_positions,
    write_displaced_structures,
)

from rnv import gens, models, threads, vasp
from rnv.checks import c21, c23, c28
from rnv.checks.c21 import World, equal, freeze
from rnv.core import need, sub

# --------------------------------------------------------------------------
# threads
# --------------------------------------------------------------------------


def bursts(low=1):
    """Strategy for the numbers of lines that threads execute in turn."""
    return st.lists(
        st.one_of(st.integers(low, 6), st.integers(low, 60), st.integers(low, 400)),
        min_size=1,
        max_size=12,
    )


class SharedWorld(World):
    """Objects used by several threads, each of which writes to its own directory."""

    place = threading.local()

    @property
    def directory(self):
        """Directory of this thread."""
        return getattr(self.place, "directory", self.base)

    @directory.setter
    def directory(self, value):
        self.base = value


@st.composite
def shared(draw):
    """Strategy for objects and what threads ask."""
    case = draw(c21.cases())
    case["gnn"] = draw(st.integers(0, 9)) == 0
    ask = st.lists(st.integers(0, 200), min_size=1, max_size=7)
    return {
        **case,
        "asked": draw(st.lists(ask, min_size=2, max_size=3)),
        "same": draw(st.booleans()),
        "bursts": draw(bursts()),
    }


def finished(results, what):
    """Return values of programs."""
    for _, exc in results:
        if exc is not None:
            raise AssertionError(f"{what}: {type(exc).__name__}: {exc}") from exc
    return [value for value, _ in results]


@sub("C29", "shared objects", shared(), 250, 8000, "threads took turns at least five times")
def shared_objects(case):
    """Threads that query the same objects."""
    c28.warm_up()
    with tempfile.TemporaryDirectory() as directory:
        world = SharedWorld({**case, "directory": directory})
        count = len(world.queries)
        asked = [[i % count for i in some] for some in case["asked"]]
        if case["same"]:
            asked[1] = asked[0]
        once = {i: world.ask(i, False)[0] for some in asked for i in some}

        def program(k):
            os.mkdir(f"{directory}/{k}")

            def run():
                world.place.directory = f"{directory}/{k}"
                return [world.ask(i, False)[0] for i in asked[k]]

            return run

        programs = [program(k) for k in range(len(asked))]
        results, switches = threads.run(programs, case["bursts"])
        for some, found in zip(asked, finished(results, "a query fails among threads")):
            for i, answer in zip(some, found):
                name = world.queries[i][0]
                need(
                    equal(answer, once[i], max(1e-12, world.tolerance.get(name, 0))),
                    f"{name} answers differently when threads take turns",
                    alone=once[i],
                    among_threads=answer,
                )
        for i, answer in once.items():
            name = world.queries[i][0]
            need(
                equal(
                    world.ask(i, False)[0],
                    answer,
                    max(1e-12, world.tolerance.get(name, 0)),
                ),
                f"{name} answers differently afterwards",
            )
    return switches >= 5


class Common:
    """What programs share but do not change."""

    def __init__(self, crystal, seed, art):
        rng = gens.rng_of(seed)
        self.crystal = crystal
        self.n = len(crystal["numbers"])
        self.numbers = [int(x) for x in crystal["numbers"]]
        self.lattice = crystal["lattice"].copy()
        self.positions = crystal["positions"].copy()
        self.inverse = np.linalg.inv(self.lattice)
        self.alpha = models.symmetric(rng)
        self.ref = ReferenceStructure(
            list(self.numbers), self.lattice.copy(), self.positions.copy()
        )
        self.batch = self.positions + 0.03 * rng.normal(size=(4, self.n, 3)) @ self.inverse
        self.cls = ARTModel if art else InterpolationModel
        self.model = self.cls(self.ref, self.alpha)
        grow(self.model, rng, 2)
        self.tensors = models.symmetric(rng, (9,))
        self.modes = rng.normal(size=(3, self.n, 3))
        self.wavenumbers = rng.uniform(50, 900, 3)
        self.calc = {
            "lattice": self.lattice,
            "numbers": self.numbers,
            "positions": self.batch[0] % 1,
            "polarizability": self.alpha,
        }


def grow(model, rng, count):
    """Try to add degrees of freedom. Returns what happened."""
    ref = model.ref_structure
    n = ref.num_atoms
    log = []
    for _ in range(count):
        amplitudes = np.array([[-0.1, 0.12], [0.1], [0.07]][rng.integers(0, 3)])
        values = model.ref_polarizability + 0.1 * models.symmetric(rng, (len(amplitudes),))
        atom = int(rng.integers(0, n))
        direction = [np.array([1.0, 0, 0]), rng.normal(size=3)][rng.integers(0, 2)]
        try:
            if isinstance(model, ARTModel):
                model.add_art(atom, direction, amplitudes, values)
            else:
                displacement = np.zeros((n, 3))
                displacement[atom] = direction
                if rng.integers(0, 2):
                    displacement = rng.normal(size=(n, 3))
                model.add_dof(displacement, amplitudes, values, 1)
            log.append("added")
        except InvalidDOFException as exc:
            log.append(str(exc))
    return log


def make_model(common, rng, _directory):
    """Make a model, add to it, mask it, and predict."""
    model = common.cls(common.ref, common.alpha)
    log = grow(model, rng, 2)
    count = len(model.cart_basis_vectors)
    result = [log, freeze(model), freeze(model.calc_polarizabilities(common.batch))]
    masked = model.get_masked_model([int(i) for i in rng.integers(0, count, min(1, count))])
    result.append(freeze(masked.calc_polarizabilities(common.batch)))
    model.mask = np.ones(count, dtype=bool)
    result.append(freeze(model.calc_polarizabilities(common.batch)))
    model.unmask()
    return [*result, freeze(model), freeze(masked), freeze(common.model)]


def extend_copy(common, rng, _directory):
    """Add to a copy of the common model."""
    model = common.model.get_masked_model([])
    log = grow(model, rng, 3)
    return [log, freeze(model), freeze(model.calc_polarizabilities(common.batch))]


def predict(common, rng, _directory):
    """Use the common model."""
    size = int(rng.integers(1, 5))
    found = common.model.calc_polarizabilities(common.batch[:size])
    phonons = Phonons(common.positions, common.wavenumbers, common.modes)
    spectrum = phonons.get_raman_spectrum(common.model)
    path = Trajectory(common.batch[:2], float(size))
    return [
        freeze(found),
        freeze(spectrum),
        freeze(path.get_raman_spectrum(common.model)),
        freeze(spectrum.measure(laser_correction=True, laser_wavelength=400.0 + size)),
    ]


def spectra(common, rng, _directory):
    """Make spectra and convolve them."""
    width = float(rng.uniform(2, 9))
    series = MDRamanSpectrum(common.tensors, float(rng.uniform(0.5, 3)))
    wavenumbers, intensities = series.measure(
        bose_einstein_correction=True, temperature=float(rng.uniform(10, 900))
    )
    kind = ["gaussian", "lorentzian"][rng.integers(0, 2)]
    grid = np.linspace(0, 900, int(rng.integers(5, 40)))
    return [
        freeze([wavenumbers, intensities]),
        freeze(convolve_spectrum(wavenumbers, intensities, kind, width, grid)),
        freeze(convolve_spectrum(common.wavenumbers, common.wavenumbers, kind, width)),
    ]


def structures(common, rng, directory):
    """Make a structure and displace it."""
    order = np.argsort(common.numbers, kind="stable")
    ref = ReferenceStructure(
        [common.numbers[i] for i in order], common.lattice, common.positions[order]
    )
    displacement = 0.1 * rng.normal(size=(common.n, 3))
    amplitudes = rng.uniform(-0.3, 0.3, 2)
    paths = [f"{directory}/d{i}" for i in range(2)]
    write_displaced_structures(ref, displacement, amplitudes, paths, "poscar")
    return [
        freeze(ref.get_equivalent_atom_dict()),
        freeze(ref.get_equivalent_displacements(displacement)),
        freeze(get_displaced_positions(ref, displacement, amplitudes)),
        freeze([poscar.read_positions(p) for p in paths]),
    ]


def files(common, rng, directory):
    """Write and read files."""
    path = f"{directory}/x{rng.integers(0, 99)}"
    label = "label " * int(rng.integers(0, 5))
    poscar.write_structure(common.lattice, common.numbers, common.positions % 1, path, label=label)
    result = [freeze(poscar.read_structure(path)), freeze(generic.read_ref_structure(path, "poscar"))]
    xdatcar.write_trajectory(common.lattice, common.numbers, common.batch % 1, path, overwrite=True)
    result.append(freeze(xdatcar.read_positions_ts(path)))
    for file_format, text in (
        ("outcar", vasp.render_outcar(common.calc, vasp.PLAIN_OUTCAR)),
        ("vasprun.xml", vasp.render_vasprun(common.calc, vasp.PLAIN_VASPRUN)),
    ):
        vasp.write(path, text)
        result.append(freeze(generic.read_structure_and_polarizability(path, file_format)))
        result.append(freeze(generic.read_polarizability_dataset([path, path], file_format)))
    return result


def datasets(common, rng, _directory):
    """Make, rescale, and read a dataset."""
    dataset = PolarizabilityDataset(
        common.lattice, common.numbers, common.batch, common.tensors[: len(common.batch)]
    )
    result = [freeze(dataset)]
    dataset.scale_polarizabilities(rng.normal(size=(3, 3)), rng.uniform(0.5, 2, (3, 3)))
    return [*result, freeze(dataset), [freeze(dataset[i]) for i in range(len(dataset))]]


PROGRAMS = {
    "make a model": make_model,
    "extend a copy": extend_copy,
    "predict": predict,
    "spectra": spectra,
    "structures": structures,
    "files": files,
    "datasets": datasets,
}


@st.composite
def separate(draw):
    """Strategy for programs that work on objects of their own."""
    crystal = (
        draw(gens.crystals(max_atoms=6))
        if draw(st.booleans())
        else draw(models.low_symmetry(max_types=2, max_count=2))
    )
    crystal = gens.permute(crystal, np.argsort(crystal["numbers"], kind="stable"))
    return {
        "crystal": crystal,
        "art": draw(st.booleans()),
        "programs": draw(
            st.lists(
                st.tuples(st.sampled_from(sorted(PROGRAMS)), gens.SEEDS),
                min_size=2,
                max_size=3,
            )
        ),
        "bursts": draw(bursts()),
        "seed": draw(gens.SEEDS),
    }


@sub("C29", "separate objects", separate(), 300, 10000, "threads took turns at least ten times")
def separate_objects(case):
    """Threads that make and change objects of their own, made from the same things."""
    c28.warm_up()
    common = Common(case["crystal"], case["seed"], case["art"])
    with tempfile.TemporaryDirectory() as directory:

        def program(k, name, seed, place):
            folder = f"{directory}/{place}{k}"
            os.mkdir(folder)
            return lambda: PROGRAMS[name](common, gens.rng_of(seed), folder)

        alone = [program(k, *p, "alone")() for k, p in enumerate(case["programs"])]
        programs = [program(k, *p, "thread") for k, p in enumerate(case["programs"])]
        results, switches = threads.run(programs, case["bursts"])
        found = finished(results, "a program fails among threads")
        for (name, _), one, two in zip(case["programs"], alone, found):
            need(
                equal(one, two, 1e-12),
                f"'{name}' gives other results when threads take turns",
                alone=one,
                among_threads=two,
            )
    return switches >= 10


@st.composite
def predictions(draw):
    """Strategy for a network and batches."""
    return {
        **draw(c23.networks(max_count=2)),
        "passes": 1,
        "sizes": draw(
            st.lists(
                st.lists(st.integers(1, 5), min_size=1, max_size=3),
                min_size=2,
                max_size=3,
            )
        ),
        "bursts": draw(bursts()),
    }


@sub("C29", "networks", predictions(), 120, 4000, "batches of different sizes, in turn")
def networks(case):
    """Threads that predict with one network."""
    c28.warm_up()
    with c23.precision(case["double"]):
        rng = gens.rng_of(case["seed"])
        model = c23.build(case)
        configs = c23.configurations(case, rng, 5)
        reference = c23.Reference(case, model, configs, rng)

        def program(sizes):
            return lambda: [model.calc_polarizabilities(configs[:size]) for size in sizes]

        results, switches = threads.run([program(s) for s in case["sizes"]], case["bursts"])
        found = finished(results, "a prediction fails among threads")
        for sizes, batches in zip(case["sizes"], found):
            for size, batch in zip(sizes, batches):
                reference.check(batch, range(size), "among threads")
        reference.check(c23.predict(model, configs), range(5), "afterwards")
    return switches > 2 and len(set(map(tuple, case["sizes"]))) > 1


# --------------------------------------------------------------------------
# copies
# --------------------------------------------------------------------------

WAYS = ["deepcopy", 2, 3, 4, 5]


def duplicate(value, way):
    """Return a copy."""
    if way == "deepcopy":
        return copy.deepcopy(value)
    return pickle.loads(pickle.dumps(value, protocol=way))


def everything(objects, common):
    """Return answers of objects."""
    answers = {}

    def add(name, value):
        answers[name] = freeze(value)

    ref = objects["structure"]
    add("structure", ref)
    add("equivalent atoms", ref.get_equivalent_atom_dict())
    add("equivalent displacements", ref.get_equivalent_displacements(common.modes[0] * 0.1))
    add("Cartesian displacement", ref.get_cart_displacement(common.modes))
    add("number of nonequivalent atoms", ref.num_nonequivalent_atoms)
    for name in ("model", "masked", "dummy"):
        model = objects[name]
        add(name, model)
        add(f"{name}: structure", model.ref_structure)
        add(f"{name}: polarizability", model.ref_polarizability)
        add(f"{name}: dummy", model.is_dummy_model)
        add(f"{name}: text", repr(model))
        if isinstance(model, ARTModel):
            add(f"{name}: specification", model.get_specification_tuples())
            add(f"{name}: indexes", model.get_dof_indexes([0]))
        if not model.is_dummy_model:
            add(f"{name}: prediction", model.calc_polarizabilities(common.batch))
            add(f"{name}: spectrum", objects["phonons"].get_raman_spectrum(model))
            add(f"{name}: series", objects["trajectory"].get_raman_spectrum(model))
    for name in ("trajectory", "phonons", "phonon spectrum", "spectrum", "dataset"):
        add(name, objects[name])
    add("configurations", list(objects["trajectory"]))
    dataset = objects["dataset"]
    add("samples", [dataset[i] for i in range(len(dataset))])
    add("mean", [dataset.mean_polarizability, dataset.stddev_polarizability])
    add("loader", [list(b) for b in torch.utils.data.DataLoader(dataset, batch_size=2)])
    return answers


def change(objects, common, seed):
    """Change everything that can be changed."""
    rng = gens.rng_of(seed)
    log = []
    for name in ("model", "masked"):
        log.append(grow(objects[name], rng, 2))
        count = len(objects[name].mask)
        objects[name].mask = rng.integers(0, 2, count).astype(bool)
    objects["dataset"].scale_polarizabilities(
        rng.normal(size=(3, 3)), rng.uniform(0.5, 2, (3, 3))
    )
    c21.corrupt(list(objects["trajectory"]))
    for name in ("positions_ts",):
        c21.corrupt(getattr(objects["trajectory"], name))
    for value in (objects["structure"].lattice, objects["model"].cart_basis_vectors):
        c21.corrupt(value)
    return log


@st.composite
def copied(draw):
    """Strategy for objects and copies of them."""
    case = draw(separate())
    return {
        "crystal": case["crystal"],
        "art": case["art"],
        "seed": case["seed"],
        "ways": draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3)),
        "together": draw(st.booleans()),
        "rescaled": draw(st.booleans()),
        "who": draw(st.sampled_from(["original", "copy"])),
    }


@sub("C29", "copies", copied(), 300, 8000, "the model has a degree of freedom")
def copies(case):
    """Copies act as the original, and changing one does not change the other."""
    common = Common(case["crystal"], case["seed"], case["art"])
    rng = gens.rng_of(case["seed"])
    count = len(common.model.cart_basis_vectors)
    dummy = common.cls(common.ref, common.alpha, is_dummy_model=True)
    phonons = Phonons(common.positions, common.wavenumbers, common.modes)
    dataset = PolarizabilityDataset(
        common.lattice, common.numbers, common.batch, common.tensors[: len(common.batch)]
    )
    if case["rescaled"]:
        dataset.scale_polarizabilities(rng.normal(size=(3, 3)), rng.uniform(0.5, 2, (3, 3)))
    originals = {
        "structure": common.ref,
        "model": common.model,
        "masked": common.model.get_masked_model(list(range(count))[::2]),
        "dummy": dummy,
        "trajectory": Trajectory(common.batch, 1.5),
        "phonons": phonons,
        "phonon spectrum": PhononRamanSpectrum(common.wavenumbers, common.tensors[:3]),
        "spectrum": MDRamanSpectrum(common.tensors, 2.0),
        "dataset": dataset,
    }
    before = everything(originals, common)
    made = originals
    for way in case["ways"]:
        if case["together"]:
            made = duplicate(made, way)
        else:
            made = {name: duplicate(value, way) for name, value in made.items()}
    for name, value in everything(made, common).items():
        need(
            equal(value, before[name], 1e-12),
            f"{name} of a copy differs",
            ways=case["ways"],
            original=before[name],
            copy=value,
        )
    one, two = (originals, made) if case["who"] == "original" else (made, originals)
    log = change(one, common, case["seed"])
    for name, value in everything(two, common).items():
        need(
            equal(value, before[name], 1e-12),
            f"{name} changed with its {case['who']}",
            ways=case["ways"],
            before=before[name],
            after=value,
        )
    need(change(two, common, case["seed"]) == log, "copies accept different additions")
    first, second = everything(one, common), everything(two, common)
    for name, value in first.items():
        need(
            equal(value, second[name], 1e-12),
            f"{name} of a copy differs after the same changes",
            ways=case["ways"],
            original=value,
            copy=second[name],
        )
    return count > 0


@st.composite
def copied_networks(draw):
    """Strategy for networks and copies of them."""
    return {
        **draw(c23.networks(max_count=2)),
        "ways": draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=2)),
        "who": draw(st.booleans()),
    }


@sub("C29", "copied networks", copied_networks(), 150, 3000, "several configurations")
def network_copies(case):
    """Copies of networks predict the same, and can be trained separately."""
    with c23.precision(case["double"]):
        rng = gens.rng_of(case["seed"])
        model = c23.build(case)
        configs = c23.configurations(case, rng, 3)
        reference = c23.Reference(case, model, configs, rng)
        c23.predict(model, configs[:2])
        made = model
        for way in case["ways"]:
            made = duplicate(made, way)
        reference.check(c23.predict(made, configs), range(3), "a copy")
        one, two = (model, made) if case["who"] else (made, model)
        with torch.no_grad():
            for value in one.state_dict().values():
                value += 1
        reference.check(c23.predict(two, configs), range(3), "the other network changed")
        one.load_state_dict(two.state_dict())
        reference.check(c23.predict(one, configs), range(3), "parameters restored")
    return True
