"""C25: third-party structures convert without loss or distortion."""

import copy
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st
from pymatgen.core import Element, Lattice, Molecule, Species, Structure
from pymatgen.core.trajectory import Trajectory as PymatgenTrajectory
from pymatgen.io.vasp import Xdatcar

import ramannoodle.io.generic as generic
import ramannoodle.io.pymatgen as rn_pymatgen
from ramannoodle.constants import ATOM_SYMBOLS
from ramannoodle.exceptions import IncompatibleStructureException
from ramannoodle.io.vasp import xdatcar
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure

from rnv import gens, vasp
from rnv.checks.c09 import clear_cut, make_displacement
from rnv.checks.c12 import is_even, images_of, true_alpha
from rnv.core import close, need, raises, same, sub
from rnv.oracle import close_mod1, cosine, crystal_operations

WRONG = [
    None,
    3,
    "POSCAR",
    [1.0],
    np.zeros((2, 3)),
    {},
    Lattice.cubic(3),
    Molecule(["O", "H"], [[0, 0, 0], [0, 0, 1]]),
]


def elements(numbers, kind, rng):
    """Return species of a pymatgen structure."""
    if kind == "numbers":
        return [int(z) for z in numbers]
    if kind == "symbols":
        return [ATOM_SYMBOLS[z] for z in numbers]
    if kind == "elements":
        return [Element.from_Z(int(z)) for z in numbers]
    return [Species(ATOM_SYMBOLS[z], float(rng.integers(-2, 4))) for z in numbers]


def to_pymatgen(structure, kind="elements", cartesian=False, seed=0):
    """Return pymatgen structure."""
    rng = gens.rng_of(seed)
    lattice = structure["lattice"]
    positions = np.asarray(structure["positions"], dtype=float)
    return Structure(
        Lattice(lattice.copy()),
        elements(structure["numbers"], kind, rng),
        positions @ lattice if cartesian else positions.copy(),
        coords_are_cartesian=cartesian,
    )


# ---------------------------------------------------------------- structures


@st.composite
def plain(draw):
    """Strategy for structures given to pymatgen."""
    structure = draw(gens.structures())
    n = len(structure["numbers"])
    rng = gens.rng_of(draw(gens.SEEDS))
    order = rng.permutation(n) if draw(st.booleans()) else np.arange(n)
    structure = gens.permute(structure, order)
    if draw(st.integers(0, 2)) == 0:
        structure["positions"] = structure["positions"] + rng.integers(-2, 3, (n, 3))
    return {
        "structure": structure,
        "kind": draw(st.sampled_from(["numbers", "symbols", "elements", "species"])),
        "cartesian": draw(st.booleans()),
        "wrong": draw(st.integers(0, len(WRONG) - 1)),
        "seed": draw(gens.SEEDS),
    }


@sub(
    "C25",
    "structures",
    plain(),
    2500,
    40000,
    "at least two species, or atoms outside of the cell",
)
def structures(case):
    """Lattice, species and positions are those given to pymatgen."""
    structure = case["structure"]
    lattice, numbers = structure["lattice"], structure["numbers"]
    crystal = to_pymatgen(structure, case["kind"], case["cartesian"], case["seed"])
    before = crystal.copy()
    found = rn_pymatgen.get_structure(crystal)
    need(len(found) == 3, "parts of a structure")
    same(found[0], lattice, "lattice")
    need(list(found[1]) == list(numbers), "atomic numbers", found=found[1])
    need(isinstance(found[1], list), "atomic numbers are a list")
    size = np.linalg.cond(lattice) * (1 + np.abs(structure["positions"]).max())
    tolerance = 1e-15 * size * 10 if case["cartesian"] else 0
    close(found[2], structure["positions"], "positions", 0, tolerance)
    same(rn_pymatgen.get_positions(crystal), found[2], "positions alone")
    need(crystal == before, "the structure was changed")
    wrong = WRONG[case["wrong"]]
    for function in (
        rn_pymatgen.get_structure,
        rn_pymatgen.get_positions,
        rn_pymatgen.construct_ref_structure,
        lambda x: rn_pymatgen.construct_trajectory(x, 1.0),
        lambda x: rn_pymatgen.construct_polarizability_dataset(x, np.zeros((1, 3, 3))),
    ):
        with raises(TypeError, "no structure at all", given=wrong):
            if function is rn_pymatgen.get_positions and isinstance(wrong, Molecule):
                raise TypeError
            if isinstance(wrong, list):
                # a list is what a dataset is made from: its members are wrong
                function(wrong)
            function(wrong)
    outside = (structure["positions"] < 0).any() or (structure["positions"] > 1).any()
    return len(set(numbers)) > 1 or bool(outside)


# ------------------------------------------------------ reference structures


@st.composite
def symmetric(draw):
    """Strategy for crystals, a displacement and how they are handed over."""
    return {
        "crystal": draw(gens.crystals(max_atoms=10)),
        "kind": draw(st.sampled_from(["axis", "direction", "pair", "random"])),
        "direction": draw(gens.directions()),
        "species": draw(st.sampled_from(["numbers", "symbols", "elements"])),
        "cartesian": draw(st.booleans()),
        "source": draw(
            st.sampled_from(["poscar", "outcar", "vasprun.xml", "xdatcar writer"])
        ),
        "outside": draw(st.booleans()),
        "seed": draw(gens.SEEDS),
    }


def grouped(crystal):
    """Return crystal with atoms of a species next to one another."""
    order = np.argsort(crystal["numbers"], kind="stable")
    return gens.permute(crystal, order)


def from_file(crystal, source):
    """Return reference structure read from a file."""
    with tempfile.TemporaryDirectory() as folder:
        path = Path(folder) / "file"
        if source in ("poscar", "xdatcar writer"):
            generic.write_structure(
                crystal["lattice"], crystal["numbers"], crystal["positions"], path, "poscar"
            )
            return generic.read_ref_structure(path, "poscar")
        calc = {
            "lattice": crystal["lattice"],
            "numbers": list(crystal["numbers"]),
            "positions": crystal["positions"],
            "polarizability": np.eye(3),
        }
        if source == "outcar":
            vasp.write(path, vasp.render_outcar(calc, vasp.PLAIN_OUTCAR))
        else:
            vasp.write(path, vasp.render_vasprun(calc, vasp.PLAIN_VASPRUN))
        return generic.read_ref_structure(path, source)


def compare(a, b, tolerance, what):
    """Compare two reference structures."""
    need(a.atomic_numbers == b.atomic_numbers, f"atomic numbers: {what}")
    close(a.lattice, b.lattice, f"lattice: {what}", tolerance, tolerance)
    close_mod1(a.positions, b.positions, f"positions: {what}", 10 * tolerance)
    need(
        a.num_nonequivalent_atoms == b.num_nonequivalent_atoms,
        f"number of nonequivalent atoms: {what}",
        a=a.num_nonequivalent_atoms,
        b=b.num_nonequivalent_atoms,
    )
    need(
        a.get_equivalent_atom_dict() == b.get_equivalent_atom_dict(),
        f"equivalent atoms: {what}",
    )


@sub(
    "C25",
    "reference structures",
    symmetric(),
    300,
    8000,
    "some atoms or displacements are equivalent",
)
def references(case):
    """Reference structures have the same symmetry and predict the same."""
    crystal = grouped(case["crystal"])
    rng = gens.rng_of(case["seed"])
    lattice = crystal["lattice"]
    operations = crystal_operations(crystal)
    assume(operations is not None)
    if case["outside"]:
        moved = {
            **crystal,
            "positions": crystal["positions"]
            + rng.integers(-1, 2, crystal["positions"].shape),
        }
    else:
        moved = crystal
    raw = ReferenceStructure(
        list(crystal["numbers"]), lattice.copy(), crystal["positions"].copy()
    )
    third = to_pymatgen(moved, case["species"], case["cartesian"], case["seed"])
    before = third.copy()
    converted = rn_pymatgen.construct_ref_structure(third)
    need(third == before, "the structure was changed")
    compare(converted, raw, 1e-12, "pymatgen and arrays")
    refs = {"arrays": raw, "pymatgen": converted}
    if case["source"] == "poscar":
        refs["poscar"] = from_file(crystal, case["source"])
        compare(refs["poscar"], raw, 1e-9, "poscar and arrays")
    elif case["source"] != "xdatcar writer":
        # these files have few digits, so pymatgen is given the digits in the file
        read = from_file(crystal, case["source"])
        again = rn_pymatgen.construct_ref_structure(
            to_pymatgen(
                {
                    "lattice": read.lattice,
                    "numbers": read.atomic_numbers,
                    "positions": read.positions,
                }
            )
        )
        compare(again, read, 1e-12, f"pymatgen and {case['source']}")
        close(read.lattice, lattice, "lattice in the file", 0, 1e-6)
        close_mod1(read.positions, crystal["positions"], "positions in the file", 1e-6)

    frac = make_displacement(case, operations)
    assume(clear_cut(crystal, operations, frac))
    cart = frac @ lattice
    unit = cart / np.linalg.norm(cart)
    images = images_of(crystal, operations, unit)
    groups = [ref.get_equivalent_displacements(frac) for ref in refs.values()]
    counts = [[len(group["displacements"]) for group in g] for g in groups]
    need(all(sorted(c) == sorted(counts[0]) for c in counts), "equivalent displacements",
         counts=counts)
    amplitudes = np.array([0.05]) if is_even(images, unit) else np.array([-0.06, 0.05])
    alpha = true_alpha(crystal)
    polarizabilities = np.array([true_alpha(crystal, a * unit) for a in amplitudes])
    predictions, bases = {}, {}
    probe = crystal["positions"] + rng.normal(size=(4, *frac.shape)) * 0.01
    for name, ref in refs.items():
        model = InterpolationModel(ref, alpha)
        model.add_dof(cart, amplitudes, polarizabilities, 1)
        predictions[name] = model.calc_polarizabilities(probe)
        bases[name] = model.cart_basis_vectors
    # the same from displaced pymatgen structures
    displaced = [
        to_pymatgen(
            {**moved, "positions": moved["positions"] + a * unit @ np.linalg.inv(lattice)},
            case["species"],
        )
        for a in amplitudes
    ]
    model = InterpolationModel(converted, alpha)
    copies = copy.deepcopy(displaced)
    model.add_dof_from_pymatgen(displaced, polarizabilities, 1)
    need(displaced == copies, "displaced structures were changed")
    predictions["displaced structures"] = model.calc_polarizabilities(probe)
    bases["displaced structures"] = model.cart_basis_vectors
    # of images that are not orthogonal to one another, those found first are chosen,
    # and tiny differences may change the order
    cosines = [abs(cosine(a, b)) for _, a in images for _, b in images]
    ambiguous = any(1e-6 < c < 1 - 1e-9 for c in cosines)
    scale = np.abs(polarizabilities - alpha).max() + 1e-3
    for name, prediction in predictions.items():
        chosen = all(
            any(abs(cosine(a, b)) > 1 - 1e-6 for b in bases["arrays"])
            for a in bases[name]
        )
        if ambiguous and not chosen:
            continue
        need(
            chosen and len(bases[name]) == len(bases["arrays"]),
            f"degrees of freedom: {name} and arrays",
        )
        close(
            prediction,
            predictions["arrays"],
            f"predictions: {name} and arrays",
            0,
            1e-6 * scale + 1e-9 * np.abs(alpha).max(),
        )
    return len(images) > 1


# -------------------------------------------------------------- trajectories


@st.composite
def paths(draw):
    """Strategy for pymatgen trajectories."""
    structure = draw(gens.structures(max_types=3, max_count=3))
    n = len(structure["numbers"])
    length = draw(st.integers(1, 8))
    rng = gens.rng_of(draw(gens.SEEDS))
    kind = draw(st.sampled_from(["walk", "jumps", "inside"]))
    if kind == "walk":
        steps = rng.normal(size=(length, n, 3)) * 0.05
    elif kind == "jumps":
        steps = rng.uniform(-0.499, 0.499, (length, n, 3))
    else:
        steps = None
    if steps is None:
        frames = gens.make_positions(rng, (length, n, 3))
    else:
        steps[0] = 0
        frames = structure["positions"] + np.cumsum(steps, axis=0)
        if draw(st.booleans()):
            frames = frames % 1.0
    return {
        "structure": structure,
        "frames": frames,
        "mode": draw(
            st.sampled_from(
                ["positions", "displacements", "given displacements", "structures",
                 "sliced", "sliced displacements", "file"]
            )
        ),
        "timestep": draw(st.sampled_from([1, 0.5, 2.0, 17.5, np.float64(3.0)])),
        "own timestep": draw(st.sampled_from([None, 1.0, 7.0])),
        "calls": draw(st.integers(1, 3)),
        "seed": draw(gens.SEEDS),
    }


@sub(
    "C25",
    "trajectories",
    paths(),
    1800,
    30000,
    "stored as displacements, at least two frames",
)
def trajectories(case):
    """Trajectories have the frames of the pymatgen trajectory."""
    structure, frames = case["structure"], case["frames"]
    lattice, mode = structure["lattice"], case["mode"]
    symbols = elements(structure["numbers"], "symbols", None)
    rng = gens.rng_of(case["seed"])
    keywords = {"species": symbols, "lattice": lattice.copy(), "constant_lattice": True}
    if case["own timestep"]:
        keywords["time_step"] = case["own timestep"]
    if mode == "given displacements":
        steps = np.diff(frames, axis=0, prepend=frames[:1])
        path = PymatgenTrajectory(
            coords=steps,
            coords_are_displacement=True,
            base_positions=frames[0].copy(),
            **keywords,
        )
    elif mode == "structures":
        path = PymatgenTrajectory.from_structures(
            [to_pymatgen({**structure, "positions": f}) for f in frames],
            constant_lattice=True,
        )
    elif mode == "file":
        order = np.argsort(structure["numbers"], kind="stable")
        frames = frames[:, order]
        sorted_structure = gens.permute(structure, order)
        with tempfile.TemporaryDirectory() as folder:
            name = Path(folder) / "XDATCAR"
            generic.write_trajectory(
                lattice, sorted_structure["numbers"], frames % 1.0, name, "xdatcar"
            )
            direct = xdatcar.read_trajectory(name, case["timestep"])
            path = PymatgenTrajectory.from_file(name)
            need(len(Xdatcar(name).structures) == len(frames), "frames in the file")
        found = rn_pymatgen.construct_trajectory(path, case["timestep"])
        close_mod1(
            found.positions_ts, direct.positions_ts, "read by pymatgen or directly", 1e-9
        )
        return len(frames) > 1
    else:
        path = PymatgenTrajectory(coords=frames.copy(), **keywords)
        if mode in ("displacements", "sliced displacements"):
            path.to_displacements()
    expected = frames
    if mode == "sliced":
        start = int(rng.integers(0, len(frames)))
        path, expected = path[start:], frames[start:]
    elif mode == "sliced displacements":
        path = path[: int(rng.integers(1, len(frames) + 1))]
        expected = frames[: len(path)]
    coords = np.array(path.coords).copy()
    displacement_mode = path.coords_are_displacement
    base = None if path.base_positions is None else np.array(path.base_positions).copy()
    for _ in range(case["calls"]):
        found = rn_pymatgen.construct_trajectory(path, case["timestep"])
        need(found.timestep == case["timestep"], "timestep", found=found.timestep)
        need(len(found) == len(expected), "number of frames", found=len(found))
        close_mod1(found.positions_ts, expected, "frames", 1e-12)
        same(path.coords, coords, "the coordinates of the trajectory given")
        need(path.coords_are_displacement == displacement_mode, "mode of the trajectory")
        if base is not None:
            same(path.base_positions, base, "base positions of the trajectory")
        found.positions_ts[...] = 0
    # variable cells
    lattices = np.array([lattice * (1 + 0.01 * k) for k in range(len(frames))])
    variable = PymatgenTrajectory(
        species=symbols, coords=frames, lattice=lattices, constant_lattice=False
    )
    with raises(ValueError, "a trajectory with variable cell"):
        rn_pymatgen.construct_trajectory(variable, case["timestep"])
    for timestep in (0, -1.0):
        with raises(ValueError, "timestep that is not positive"):
            rn_pymatgen.construct_trajectory(path, timestep)
    return displacement_mode and len(expected) > 1


# ------------------------------------------------------------------ datasets


@st.composite
def collections(draw):
    """Strategy for structures of a dataset."""
    structure = draw(gens.structures(max_types=3, max_count=3))
    n = len(structure["numbers"])
    count = draw(st.integers(1, 6))
    rng = gens.rng_of(draw(gens.SEEDS))
    return {
        "structure": gens.permute(structure, rng.permutation(n)),
        "positions": rng.uniform(-0.2, 1.2, (count, n, 3)),
        "polarizabilities": rng.normal(size=(count, 3, 3)),
        "flaw": draw(
            st.sampled_from([None, "lattice", "numbers", "order", "more", "less"])
        ),
        "where": draw(st.integers(0, count - 1)),
        "species": draw(st.sampled_from(["numbers", "symbols", "elements", "species"])),
        "seed": draw(gens.SEEDS),
    }


@sub(
    "C25",
    "datasets",
    collections(),
    1500,
    20000,
    "an incompatible structure, or three samples",
)
def datasets(case):
    """Datasets hold the samples in order, and members must fit."""
    structure, positions = case["structure"], case["positions"]
    flaw, where = case["flaw"], case["where"]
    members = [
        to_pymatgen({**structure, "positions": p}, case["species"]) for p in positions
    ]
    if flaw and len(members) > 1:
        bad = {**structure, "positions": positions[where]}
        numbers = list(structure["numbers"])
        if flaw == "lattice":
            bad["lattice"] = structure["lattice"] * 1.003
        elif flaw == "numbers":
            bad["numbers"] = [1 + z % 117 for z in numbers]
        elif flaw == "order":
            bad["numbers"] = numbers[::-1]
            assume(bad["numbers"] != numbers)
        elif flaw == "more":
            bad["numbers"] = numbers + numbers[-1:]
            bad["positions"] = np.vstack([positions[where], [[0.1, 0.2, 0.3]]])
        else:
            assume(len(numbers) > 1)
            bad["numbers"] = numbers[:-1]
            bad["positions"] = positions[where][:-1]
        members[where] = to_pymatgen(bad, case["species"])
        with raises(IncompatibleStructureException, "incompatible member", flaw=flaw):
            rn_pymatgen.construct_polarizability_dataset(
                members, case["polarizabilities"]
            )
        return True
    dataset = rn_pymatgen.construct_polarizability_dataset(
        members, case["polarizabilities"]
    )
    need(dataset.num_samples == len(members), "number of samples")
    need(dataset.atomic_numbers == list(structure["numbers"]), "atomic numbers")
    close(dataset.positions, positions, "positions", 1e-6, 1e-6)
    close(dataset.polarizabilities, case["polarizabilities"], "polarizabilities", 1e-6,
          1e-6)
    close(dataset[0][0].numpy(), structure["lattice"], "lattice", 1e-6, 1e-6)
    for wrong in (
        case["polarizabilities"][:-1],
        np.vstack([case["polarizabilities"], np.zeros((1, 3, 3))]),
        case["polarizabilities"][:, :2],
    ):
        with raises(ValueError, "polarizabilities of wrong shape", shape=wrong.shape):
            rn_pymatgen.construct_polarizability_dataset(members, wrong)
    return len(members) > 2
