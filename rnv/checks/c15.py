"""C15: ART models agree with the interpolation models they restrict."""

import tempfile

import numpy as np
import pymatgen.core
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

from rnv import gens, models, vasp
from rnv.checks.c13 import Driver
from rnv.core import close, need, raises, same, sub

ROUTES = ["memory", "memory", "files", "pymatgen"]


@st.composite
def cases(draw):
    """Strategy for ARTs of a crystal and ways to add them."""
    if draw(st.booleans()):
        crystal = draw(gens.crystals(max_atoms=8))
    else:
        crystal = draw(models.low_symmetry(max_types=4, max_count=3))
        crystal["positions"] = crystal["positions"] % 1
    return {
        "crystal": crystal,
        "kind": "art",
        "dummy": False,
        "routes": draw(
            st.lists(st.sampled_from(ROUTES), min_size=1, max_size=6)
        ),
        "format": draw(st.sampled_from(["outcar", "vasprun.xml"])),
        "linear": draw(st.booleans()),
        "seed": draw(gens.SEEDS),
    }


def write(driver, positions, polarizabilities, file_format):
    """Write calculations."""
    paths = []
    for k, (p, polarizability) in enumerate(zip(positions, polarizabilities)):
        calc = {
            "lattice": driver.lattice,
            "numbers": list(driver.crystal["numbers"]),
            "positions": p,
            "polarizability": polarizability,
        }
        if file_format == "outcar":
            text = vasp.render_outcar(calc, vasp.PLAIN_OUTCAR)
        else:
            text = vasp.render_vasprun(calc, vasp.PLAIN_VASPRUN)
        path = f"{driver.directory}/{k}"
        vasp.write(path, text)
        paths.append(path)
    return paths


@sub(
    "C15",
    "agreement",
    cases(),
    450,
    6000,
    "at least two ARTs were given or symmetry added some",
)
def agreement(case):
    """Both kinds of model given the same data."""
    rng = gens.rng_of(case["seed"])
    with tempfile.TemporaryDirectory() as directory:
        driver = Driver(case, directory)
        art = driver.model
        ref = ReferenceStructure(
            list(driver.crystal["numbers"]),
            driver.lattice.copy(),
            driver.crystal["positions"].copy(),
        )
        model = InterpolationModel(ref, driver.alpha.copy())
        given = 0
        for route in case["routes"]:
            unit = driver.free(rng)
            if unit is None:
                break
            atom = int(np.abs(unit).sum(axis=1).argmax())
            h = driver.size(unit)
            if route != "memory":
                # files have 8 digits
                assume(h > 0.02 and np.abs(driver.lattice).max() < 30)
            amplitudes = np.array([h])
            if not driver.even(unit):
                amplitudes = np.array([-h, h * rng.uniform(0.5, 1.5)])
            polarizabilities = np.round(
                driver.alpha + 0.1 * rng.normal(size=(len(amplitudes), 3, 3)), 6
            )
            order = rng.permutation(len(amplitudes))
            factor = rng.choice([1.0, 1e-3, 50.0])
            if route == "memory":
                art.add_art(
                    atom, unit[atom] * factor, amplitudes[order], polarizabilities[order]
                )
            else:
                positions = driver.positions(unit, amplitudes[order])
                if route == "files":
                    paths = write(
                        driver, positions, polarizabilities[order], case["format"]
                    )
                    if len(paths) == 1:
                        paths = paths[0]
                    art.add_art_from_files(paths, case["format"])
                else:
                    structures = [
                        pymatgen.core.Structure(
                            driver.lattice, driver.crystal["numbers"], p
                        )
                        for p in positions
                    ]
                    art.add_art_from_pymatgen(structures, polarizabilities[order])
            model.add_dof(
                unit * rng.choice([1.0, 1e-3, 50.0]),
                amplitudes,
                polarizabilities,
                1,
                include_ref_polarizability=False,
            )
            given += 1
        ours, theirs = art.cart_basis_vectors, model.cart_basis_vectors
        need(len(ours) == len(theirs), "number of degrees of freedom")
        for a, b in zip(ours, theirs):
            close(abs(np.vdot(a, b)), 1.0, "degrees of freedom", 0, 1e-5)
            moving = np.linalg.norm(a, axis=1) > 1e-4
            need(moving.sum() == 1, "an ART moves one atom")
        rows = rng.normal(size=(3, driver.n, 3))
        rows = rows * 0.3 / np.abs(rows @ driver.inverse).max()
        batch = driver.crystal["positions"] + rows @ driver.inverse
        found, want = art.calc_polarizabilities(batch), model.calc_polarizabilities(batch)
        scale = max(1, np.abs(want).max())
        close(found, want, "prediction of the ART model", 1e-4, 2e-4 * scale)
        if all(route == "memory" for route in case["routes"]):
            close(found, want, "prediction of the ART model", 1e-9, 1e-9 * scale)
        check_queries(driver, art, rng)
    return given > 1 or len(ours) > given


def check_queries(driver, art, rng):
    """Check what the model reports about itself."""
    numbers = driver.crystal["numbers"]
    n = driver.n
    basis = art.cart_basis_vectors
    owner = [int(np.linalg.norm(b, axis=1).argmax()) for b in basis]
    symbols = [vasp.symbol_of(number) for number in numbers]
    for atom in range(n):
        want = [k for k, o in enumerate(owner) if o == atom]
        need(sorted(art.get_dof_indexes(atom)) == want, "indexes of an atom", atom=atom)
        need(sorted(art.get_dof_indexes([atom])) == want, "indexes of [atom]")
    for symbol in set(symbols):
        want = [k for k, o in enumerate(owner) if symbols[o] == symbol]
        need(sorted(art.get_dof_indexes(symbol)) == want, "indexes of a symbol")
        atoms = art.ref_structure.get_atom_indexes(symbol)
        need(
            list(atoms) == [i for i in range(n) if symbols[i] == symbol],
            "atoms of a symbol",
        )
    query = []
    for _ in range(rng.integers(0, 4)):
        if rng.integers(0, 2):
            query.append(int(rng.integers(0, n)))
        else:
            query.append(symbols[rng.integers(0, n)])
    if rng.integers(0, 4) == 0:
        query.append("Xx")
    atoms = {i for i in range(n) for q in query if i == q or symbols[i] == q}
    copy = list(query)
    found = art.get_dof_indexes(query)
    need(query == copy, "the query was modified")
    need(
        sorted(found) == [k for k, o in enumerate(owner) if o in atoms],
        "indexes of a mixed query",
        query=query,
        found=found,
    )
    orbits = {
        frozenset(int(image[i]) for _, _, image in driver.operations) for i in range(n)
    }
    reported = set()
    for atom, others, directions in art.get_specification_tuples():
        reported.add(frozenset([int(atom), *map(int, others)]))
        mine = [basis[k][atom] for k, o in enumerate(owner) if o == atom]
        need(len(directions) == len(mine) <= 3, "number of directions", atom=atom)
        for d, m in zip(directions, mine):
            same(d, m, "direction", atom=atom)
    need(reported == orbits, "equivalent atoms", reported=reported, orbits=orbits)
    for row in repr(art).splitlines():
        if row.startswith("│") and "Atom index" not in row:
            cells = [c.strip() for c in row.strip("│").split("│")]
            atom = int(cells[0])
            count = sum(o == atom for o in owner)
            need(f"{count}/3" in cells[2], "the table's count", row=row)


@sub(
    "C15",
    "rejections",
    cases(),
    150,
    2000,
    "the structure has at least two atoms",
)
def rejections(case):
    """Displacements of several atoms and wrong numbers of amplitudes."""
    rng = gens.rng_of(case["seed"])
    with tempfile.TemporaryDirectory() as directory:
        driver = Driver(case, directory)
        unit = driver.free(rng)
        h = driver.size(unit)
        assume(h > 0.02)
        atom = int(np.abs(unit).sum(axis=1).argmax())
        even = driver.even(unit)
        bad = (InvalidDOFException, ValueError)

        def attempts(displacement, amplitudes, direct=True):
            m = len(amplitudes)
            polarizabilities = rng.normal(size=(m, 3, 3))
            positions = driver.positions(displacement, amplitudes)
            structures = [
                pymatgen.core.Structure(driver.lattice, driver.crystal["numbers"], p)
                for p in positions
            ]
            paths = write(driver, positions, polarizabilities, case["format"])
            if direct:
                with raises(bad, "memory"):
                    driver.model.add_art(
                        atom, displacement[atom], amplitudes, polarizabilities
                    )
            with raises(bad, "files"):
                driver.model.add_art_from_files(paths, case["format"])
            with raises(bad, "pymatgen"):
                driver.model.add_art_from_pymatgen(structures, polarizabilities)

        attempts(unit, np.array([-h, 0.4 * h, h]))
        attempts(unit, np.array([-h, h]) if even else np.array([h]))
        if not even:
            attempts(unit, np.array([h, h]))
        if driver.n > 1:
            other = unit.copy()
            second = rng.normal(size=3)
            a = rng.choice([h, 0.02])
            # in cells, and beyond what files can tell
            shift = rng.choice([5e-6, 5e-6, 1e-4, 5e-3])
            second *= shift / a / np.abs(second @ driver.inverse).max()
            other[(atom + rng.integers(1, driver.n)) % driver.n] = second
            attempts(other, np.array([-a, a]) / np.linalg.norm(other), direct=False)
        need(len(driver.model.cart_basis_vectors) == 0, "something was added")
        need(driver.model.mask.shape == (0,), "mask")
    return driver.n > 1


@st.composite
def large_cells(draw):
    """Strategy for ARTs of a large cell without symmetry."""
    n = draw(st.integers(90, 140))
    atoms = draw(
        st.lists(
            st.one_of(st.integers(0, n - 1), st.integers(n - 12, n - 1)),
            min_size=2,
            max_size=draw(st.sampled_from([4, 20])),
            unique=True,
        )
    )
    return {
        "n": n,
        "atoms": atoms,
        "axes": draw(st.integers(1, 3)),
        "cut": draw(st.integers(1, n - 1)),
        "seed": draw(gens.SEEDS),
    }


@sub("C15", "large cells", large_cells(), 14, 150, "an atom is beyond the hundredth")
def large(case):
    """Cells with many atoms, and models with many degrees of freedom."""
    rng = gens.rng_of(case["seed"])
    n, lattice = case["n"], np.diag([14.0, 15.0, 16.0]) + rng.uniform(0, 1, (3, 3))
    numbers = [1] * case["cut"] + [8] * (n - case["cut"])
    positions = rng.uniform(0, 1, (n, 3))
    ref = ReferenceStructure(list(numbers), lattice, positions)
    alpha = np.eye(3) * 5 + rng.normal(size=(3, 3))
    art, model = ARTModel(ref, alpha), InterpolationModel(ref, alpha)
    slopes, basis, owner = [], [], []
    for atom in case["atoms"]:
        for direction in gens.rotation(rng)[: case["axes"]]:
            slope = rng.normal(size=(3, 3))
            data = np.array([alpha - 0.1 * slope, alpha + 0.1 * slope])
            art.add_art(atom, direction, np.array([-0.1, 0.1]), data)
            unit = np.zeros((n, 3))
            unit[atom] = direction
            model.add_dof(unit, np.array([-0.1, 0.1]), data, 1)
            slopes.append(slope)
            basis.append(unit)
            owner.append(atom)
    slopes, basis = np.array(slopes), np.array(basis)
    close(np.array(art.cart_basis_vectors), basis, "degrees of freedom", 0, 1e-9)
    for k in {0, len(owner) // 2, len(owner) - 1}:  # not orthogonal to one of many
        again = basis[k] + 0.1 * np.roll(basis[k], 1, axis=1)
        data = rng.normal(size=(2, 3, 3))
        with raises(InvalidDOFException, "a degree of freedom given again", k=k):
            art.add_art(owner[k], again[owner[k]], np.array([-0.1, 0.1]), data)
        again[(owner[k] + 1) % n] = rng.normal(size=3)
        with raises(InvalidDOFException, "a degree of freedom given again", k=k):
            model.add_dof(again, np.array([-0.1, 0.1]), data, 1)
    rows = rng.uniform(-0.3, 0.3, (4, n, 3))
    batch = positions + rows @ np.linalg.inv(lattice)
    want = alpha + np.einsum("sax,kax,kij->sij", rows, basis, slopes)
    close(art.calc_polarizabilities(batch), want, "prediction", 1e-8, 1e-8)
    close(model.calc_polarizabilities(batch), want, "interpolation model", 1e-8, 1e-8)
    need(
        sorted(art.get_dof_indexes([1, "O"]))
        == [k for k, a in enumerate(owner) if a == 1 or numbers[a] == 8],
        "indexes of a mixed query",
    )
    for atom in {*case["atoms"], 0, n - 1}:
        mine = [k for k, a in enumerate(owner) if a == atom]
        need(sorted(art.get_dof_indexes(atom)) == mine, "indexes of an atom", atom=atom)
        masked = art.get_masked_model(mine)
        left = np.array([a != atom for a in owner])
        part = alpha + np.einsum(
            "sax,kax,kij->sij", rows, basis[left], slopes[left]
        )
        close(masked.calc_polarizabilities(batch), part, "masked", 1e-8, 1e-8)
    return max(case["atoms"]) >= 100
