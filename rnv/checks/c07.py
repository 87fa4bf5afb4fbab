"""C07: polarizability datasets are assembled faithfully."""

from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import ramannoodle.io.generic as generic
import ramannoodle.io.pymatgen as rn_pymatgen
from ramannoodle.exceptions import IncompatibleStructureException, InvalidFileException
from ramannoodle.io.vasp import outcar, vasprun

from rnv import gens, vasp
from rnv.core import close, need, raises, same, sub

FLAWS = [
    None,
    None,
    "lattice",
    "lattice permuted",
    "lattice sign",
    "species",
    "species order",
    "one atom more",
    "one atom less",
    "counts",
]


@st.composite
def collections(draw, files):
    """Strategy for sources of samples, one of which may not fit."""
    calc = draw(vasp.calculations(phonons=False, md=False, max_types=3, max_count=3))
    count = draw(st.integers(1, 6))
    rng = gens.rng_of(draw(gens.SEEDS))
    n = len(calc["numbers"])
    calcs = []
    for _ in range(count):
        calcs.append(
            {
                "lattice": calc["lattice"],
                "numbers": calc["numbers"],
                "positions": np.round(rng.uniform(0, 0.99, (n, 3)), 8),
                "polarizability": np.round(
                    np.eye(3) * 4 + rng.normal(size=(3, 3)), 6
                ),
            }
        )
    if count > 1 and draw(st.integers(0, 3)) == 0:  # a source given twice
        calcs[-1] = calcs[0]
    flaw = draw(st.sampled_from(FLAWS))
    where = None
    if flaw and count > 1:
        where = draw(st.integers(0, count - 1))
        calcs[where] = spoil(calcs[where], flaw, rng)
        if calcs[where] is None:
            calcs[where], where = calcs[(where + 1) % count], None
    case = {"calcs": calcs, "where": where, "flaw": flaw if where is not None else None}
    if files:
        case["format"] = draw(st.sampled_from(["outcar", "vasprun.xml"]))
        case["entry"] = draw(st.sampled_from(["specific", "generic"]))
        case["paths"] = draw(st.sampled_from(["str", "Path"]))
        case["noise"] = draw(vasp.outcar_options())
        case["xml"] = draw(vasp.vasprun_options())
    return case


def spoil(calc, flaw, rng):
    """Return a calculation that is incompatible, or None."""
    calc = {**calc}
    numbers = list(calc["numbers"])
    n = len(numbers)
    if flaw == "lattice":
        lattice = calc["lattice"].copy()
        i, j = rng.integers(0, 3, 2)
        lattice[i, j] += 0.02 * rng.choice([1, -1]) * (1 + abs(lattice[i, j]))
        calc["lattice"] = np.round(lattice, 9)
    elif flaw == "lattice permuted":
        lattice = calc["lattice"][[1, 2, 0]]
        if np.allclose(lattice, calc["lattice"], atol=1e-2, rtol=1e-2):
            return None
        calc["lattice"] = lattice
    elif flaw == "lattice sign":
        calc["lattice"] = -calc["lattice"]
    elif flaw == "species":
        old = numbers[0]
        new = next(z for z in (5, 6, 7, 9, 10) if z not in numbers)
        calc["numbers"] = [new if z == old else z for z in numbers]
    elif flaw == "species order":
        if len(set(numbers)) < 2:
            return None
        groups = vasp.groups_of(numbers)[::-1]
        calc["numbers"] = sum([[z] * c for z, c in groups], [])
    elif flaw == "one atom more":
        calc["numbers"] = numbers + [numbers[-1]]
        calc["positions"] = np.vstack([calc["positions"], [[0.1, 0.2, 0.3]]])
    elif flaw == "one atom less":
        if n < 2:
            return None
        calc["numbers"] = numbers[:-1]
        calc["positions"] = calc["positions"][:-1]
    elif flaw == "counts":
        groups = vasp.groups_of(numbers)
        if len(groups) < 2 or groups[0][1] < 2:
            return None
        groups = [(groups[0][0], groups[0][1] - 1), (groups[1][0], groups[1][1] + 1)]
        groups += vasp.groups_of(numbers)[2:]
        calc["numbers"] = sum([[z] * c for z, c in groups], [])
    return calc


def check_dataset(dataset, calcs):
    """Compare a dataset with its sources."""
    need(len(dataset) == dataset.num_samples == len(calcs), "number of samples")
    need(dataset.num_atoms == len(calcs[0]["numbers"]), "number of atoms")
    need(list(dataset.atomic_numbers) == calcs[0]["numbers"], "atomic numbers")
    positions = np.array([c["positions"] for c in calcs])
    same(dataset.positions, positions.astype(np.float32), "positions in order")
    close(
        dataset.polarizabilities,
        np.array([c["polarizability"] for c in calcs]),
        "polarizabilities in order",
        1e-14,
        1e-15,
    )
    for index, calc in enumerate(calcs):
        lattice, numbers, pos, _ = dataset[index]
        close(lattice.numpy(), calc["lattice"], "lattice of sample", 1e-6, 1e-6)
        need(numbers.tolist() == calc["numbers"], "atomic numbers of sample")
        same(pos.numpy(), positions[index].astype(np.float32), "positions of sample")


@sub(
    "C07",
    "files",
    collections(True),
    500,
    5000,
    "at least two sources",
)
def files(case):
    """Datasets read from files."""
    paths = []
    for index, calc in enumerate(case["calcs"]):
        path = f"F{index}"
        if case["format"] == "outcar":
            vasp.write(path, vasp.render_outcar(calc, case["noise"]))
        else:
            vasp.write(path, vasp.render_vasprun(calc, case["xml"]))
        paths.append(Path(path) if case["paths"] == "Path" else path)
    if case["entry"] == "generic":
        read = lambda p: generic.read_polarizability_dataset(p, case["format"])
    elif case["format"] == "outcar":
        read = outcar.read_polarizability_dataset
    else:
        read = vasprun.read_polarizability_dataset
    if case["flaw"]:
        with raises(
            IncompatibleStructureException,
            f"source {case['where']} of {len(paths)} has a different {case['flaw']}",
        ):
            read(paths)
        read(paths[case["where"]])  # on its own it is fine
        return True
    given = list(paths)
    check_dataset(read(paths), case["calcs"])
    need(paths == given, "the list of paths was modified")
    check_dataset(read(paths[0]), case["calcs"][:1])
    check_dataset(read(paths[::-1]), case["calcs"][::-1])
    check_dataset(read(paths + paths[:1]), case["calcs"] + case["calcs"][:1])
    vasp.write("BAD", "nothing")
    with raises(InvalidFileException, "a file that is none"):
        read(paths + ["BAD" if case["paths"] == "str" else Path("BAD")])
    with raises(FileNotFoundError, "a missing file"):
        read(paths + ["MISSING"])
    return len(paths) > 1


@sub(
    "C07",
    "pymatgen",
    collections(False),
    400,
    4000,
    "at least two sources",
)
def pymatgen_structures(case):
    """Datasets built from third-party structures."""
    from pymatgen.core import Structure  # pylint: disable=import-outside-toplevel

    structures = [
        Structure(c["lattice"], c["numbers"], c["positions"]) for c in case["calcs"]
    ]
    alphas = np.array([c["polarizability"] for c in case["calcs"]])
    if case["flaw"]:
        with raises(
            IncompatibleStructureException,
            f"structure {case['where']} of {len(structures)} has a different {case['flaw']}",
        ):
            rn_pymatgen.construct_polarizability_dataset(structures, alphas)
        return True
    check_dataset(
        rn_pymatgen.construct_polarizability_dataset(structures, alphas), case["calcs"]
    )
    check_dataset(
        rn_pymatgen.construct_polarizability_dataset(
            structures + structures[:1], np.concatenate([alphas, alphas[:1]])
        ),
        case["calcs"] + case["calcs"][:1],
    )
    for wrong in (alphas[:-1], np.concatenate([alphas, alphas[:1]]), alphas[:, :2], alphas[0]):
        if wrong.shape != alphas.shape:
            with raises(ValueError, "wrong number of polarizabilities", shape=wrong.shape):
                rn_pymatgen.construct_polarizability_dataset(structures, wrong)
    return len(structures) > 1
