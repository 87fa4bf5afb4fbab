"""C10: displaced structures lie at the requested amplitude along the direction."""

import tempfile
from pathlib import Path

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.io.vasp import poscar
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import (
    ReferenceStructure,
    get_ast_displaced_positions,
    get_displaced_positions,
    utils,
    write_ast_displaced_structures,
    write_displaced_structures,
)

from rnv import gens
from rnv.core import close, need, raises, same, sub
from rnv.oracle import close_mod1, in_unit_interval

SCALES = [1.0, 1e-3, 0.07, 3.0, 25.0, 1e4]


@st.composite
def cases(draw, files=False):
    """Strategy for a structure, a displacement, and amplitudes."""
    structure = draw(gens.structures(max_types=3, max_count=3))
    lattice = structure["lattice"]
    n = len(structure["numbers"])
    rng = gens.rng_of(draw(gens.SEEDS))
    length = np.linalg.norm(lattice, axis=1).min()
    positions = gens.separated_positions(rng, lattice, n, 0.05)
    if draw(st.booleans()):  # atoms at the boundary move across it
        flat = rng.integers(0, positions.size)
        positions.ravel()[flat] = draw(st.sampled_from([0.0, 1e-9, 1 - 1e-9, 1.0]))
    assume(gens.well_separated(lattice, positions % 1, 0.02 * length))
    kind = draw(st.sampled_from(["random", "sparse", "along", "single", "uniform"]))
    cart = rng.normal(size=(n, 3))
    if kind == "sparse":
        cart = cart * (rng.uniform(size=cart.shape) < 0.4)
    elif kind == "along":
        cart = rng.normal(size=(n, 1)) * lattice[rng.integers(0, 3)]
    elif kind == "single":
        keep = rng.integers(0, n)
        cart = cart * (np.arange(n) == keep)[:, None]
    elif kind == "uniform":
        cart = np.ones((n, 1)) * cart[:1]
    if not np.abs(cart).max() > 0:
        cart[0] = [0, 0, 1.0]
    if draw(st.integers(0, 2)) == 0:  # almost normalised
        off = draw(st.sampled_from([0.0, 1e-9, -1e-6, 3e-5, 6e-4, -6e-4, 4e-3]))
        cart = cart * (1 + off) / np.linalg.norm(cart)
    else:
        cart = cart * draw(st.sampled_from(SCALES)) / np.abs(cart).max()
    count = draw(st.integers(1 if files else 0, 5))
    if draw(st.booleans()):
        amplitudes = np.array(
            draw(
                st.lists(
                    st.sampled_from([-0.1, 0.1, 0.0, 0.05, -0.05, 0.01, 0.5, -0.02]),
                    min_size=count,
                    max_size=count,
                )
            ),
            dtype=float,
        )
    else:
        amplitudes = rng.normal(size=count) * draw(st.sampled_from([0.1, 0.01, 1.0]))
        if rng.uniform() < 0.2:
            amplitudes = amplitudes * length * 3
    return {
        **structure,
        "positions": positions,
        "cart": cart,
        "direction": draw(gens.directions()),
        "atom": draw(st.integers(0, n - 1)),
        "amplitudes": amplitudes,
        "integers": draw(st.integers(0, 9)) == 0,
        "seed": draw(gens.SEEDS),
    }


def reference(case):
    """Return reference structure."""
    return ReferenceStructure(
        list(case["numbers"]), case["lattice"].copy(), case["positions"].copy()
    )


def check_positions(case, found, unit):
    """Check displaced positions along a unit displacement."""
    lattice, positions = case["lattice"], case["positions"]
    inverse = np.linalg.inv(lattice)
    amplitudes = case["amplitudes"]
    need(len(found) == len(amplitudes), "number of configurations")
    crossed = False
    for amplitude, one in zip(amplitudes, found):
        need(one.shape == positions.shape, "shape", shape=one.shape)
        in_unit_interval(one, "positions outside of [0,1]")
        frac = amplitude * unit @ inverse
        tol = 1e-12 * (1 + np.abs(frac).max() + np.abs(amplitude) * np.abs(inverse).max())
        close_mod1(one, positions + frac, "displaced positions", tol)
        crossed = crossed or np.any((positions + frac < 0) | (positions + frac > 1))
        if np.abs(frac).max() < 0.49:
            # what models see
            d = utils.calc_displacement(positions, one) @ lattice
            scale = np.abs(lattice).max()
            close(d, amplitude * unit, "minimum-image displacement", 1e-9, 1e-12 * scale)
            close(
                np.vdot(d, unit), amplitude, "recovered amplitude", 1e-9, 3e-12 * scale
            )
    return bool(crossed)


@sub("C10", "displacements", cases(), 900, 12000, "an atom crosses a cell boundary")
def displacements(case):
    """Displacement of all atoms."""
    ref = reference(case)
    cart, amplitudes = case["cart"], case["amplitudes"]
    copies = cart.copy(), amplitudes.copy()
    unit = cart / np.linalg.norm(cart)
    found = get_displaced_positions(ref, cart, amplitudes)
    crossed = check_positions(case, found, unit)
    same(cart, copies[0], "displacement was modified")
    same(amplitudes, copies[1], "amplitudes were modified")
    same(ref.positions, case["positions"], "reference was modified")
    for factor in (1e-4, 1e5):
        again = get_displaced_positions(ref, cart * factor, amplitudes)
        for a, b in zip(again, found):
            close_mod1(a, b, "the displacement's magnitude matters", 1e-10)
    again = get_displaced_positions(ref, -cart, -amplitudes)
    for a, b in zip(again, found):
        close_mod1(a, b, "displacement and amplitude reversed", 1e-12)
    for one in found:  # results are not shared
        one += 0.1
    for a, b in zip(get_displaced_positions(ref, cart, amplitudes), found):
        close_mod1(a + 0.1, b, "results are shared", 1e-12)
    return crossed


@sub("C10", "single atoms", cases(), 900, 12000, "an atom crosses a cell boundary")
def single(case):
    """Displacement of one atom."""
    ref = reference(case)
    direction, amplitudes, atom = case["direction"], case["amplitudes"], case["atom"]
    copies = direction.copy(), amplitudes.copy()
    unit = np.zeros((len(case["numbers"]), 3))
    unit[atom] = direction / np.linalg.norm(direction)
    found = get_ast_displaced_positions(ref, atom, direction, amplitudes)
    crossed = check_positions(case, found, unit)
    for one in found:
        rest = np.arange(len(one)) != atom
        close_mod1(
            one[rest], case["positions"][rest], "another atom was displaced", 1e-15
        )
    same(direction, copies[0], "direction was modified")
    same(amplitudes, copies[1], "amplitudes were modified")
    same(ref.positions, case["positions"], "reference was modified")
    again = get_ast_displaced_positions(ref, atom, direction * 321, amplitudes)
    for a, b in zip(again, found):
        close_mod1(a, b, "the direction's magnitude matters", 1e-10)
    with raises(IndexError, "atom beyond the last one"):
        get_ast_displaced_positions(ref, len(case["numbers"]), direction, amplitudes)
    return crossed


@sub("C10", "files", cases(files=True), 300, 4000, "more than one file")
def files(case):
    """Files hold the displaced configurations."""
    ref = reference(case)
    amplitudes, atom = case["amplitudes"], case["atom"]
    one_atom = case["seed"] % 2 == 0
    count = len(amplitudes)
    unit = np.zeros((len(case["numbers"]), 3))
    if one_atom:
        unit[atom] = case["direction"] / np.linalg.norm(case["direction"])
    else:
        unit = case["cart"] / np.linalg.norm(case["cart"])
    with tempfile.TemporaryDirectory() as directory:
        names = [f"{(i * 7 + case['seed']) % 1000}_{i}" for i in range(count)]
        paths = [Path(directory) / name for name in names]
        given = list(map(str, paths)) if case["seed"] % 3 else list(paths)
        if count == 1 and case["seed"] % 5 == 0:
            given = given[0]
        if case["seed"] % 7 < 3:
            paths[0].write_text("old\n" * 1000)
        overwrite = case["seed"] % 7 < 3
        if one_atom:
            write_ast_displaced_structures(
                ref, atom, case["direction"], amplitudes, given, "poscar", overwrite
            )
        else:
            write_displaced_structures(
                ref, case["cart"], amplitudes, given, "poscar", overwrite
            )
        need(
            sorted(p.name for p in Path(directory).iterdir()) == sorted(names),
            "files written",
        )
        found = []
        for path in paths:
            lattice, numbers, positions = poscar.read_structure(path)
            need(list(numbers) == list(case["numbers"]), "atomic numbers")
            close(lattice, case["lattice"], "lattice", 1e-15, 1e-15)
            found.append(positions)
        check_positions(case, found, unit)
    return count > 1


@sub("C10", "models", cases(files=True), 300, 4000, "at least two amplitudes")
def models(case):
    """A model recovers the amplitudes of the files written."""
    structure_ref = reference(case)
    unit = case["cart"] / np.linalg.norm(case["cart"])
    frac = unit @ np.linalg.inv(case["lattice"])
    rng = gens.rng_of(case["seed"])
    count = len(case["amplitudes"])
    size = 0.3 / np.abs(frac).max()
    # distinct, not too small
    grid = np.array([-1, -0.7, -0.4, 0.3, 0.55, 0.9, 1])
    amplitudes = rng.permutation(grid)[:count] * size
    groups = structure_ref.get_equivalent_displacements(0.1 * frac / np.abs(frac).max())
    assume(len(groups) == 1 and len(groups[0]["displacements"]) == 1)
    found = get_displaced_positions(structure_ref, case["cart"], amplitudes)
    polarizabilities = rng.normal(size=(count, 3, 3))
    reference_polarizability = rng.normal(size=(3, 3))
    model = InterpolationModel(structure_ref, reference_polarizability)
    import pymatgen.core  # pylint: disable=import-outside-toplevel

    structures = []
    with tempfile.TemporaryDirectory() as directory:
        paths = [f"{directory}/{i}" for i in range(count)]
        write_displaced_structures(
            structure_ref, case["cart"], amplitudes, paths, "poscar"
        )
        for path in paths:
            lattice, numbers, positions = poscar.read_structure(path)
            structures.append(pymatgen.core.Structure(lattice, numbers, positions))
    model.add_dof_from_pymatgen(structures, polarizabilities, 1)
    basis = model.cart_basis_vectors
    need(len(basis) == 1, "number of degrees of freedom")
    close(
        basis[0],
        unit * np.sign(amplitudes[0]),
        "direction recovered from the files",
        1e-6,
        1e-7,
    )
    # piecewise linear through the points and the reference
    xs = np.append(amplitudes, 0)
    ys = np.concatenate([polarizabilities, reference_polarizability[None]])
    order = np.argsort(xs)
    for x in rng.uniform(xs.min(), xs.max(), 4):
        want = [
            np.interp(x, xs[order], ys[order, i, j]) for i in range(3) for j in range(3)
        ]
        there = get_displaced_positions(structure_ref, case["cart"], np.array([x]))
        close(
            model.calc_polarizabilities(np.array(there))[0].ravel(),
            want,
            "prediction between the amplitudes of the files",
            1e-5,
            1e-5,
        )
    close(
        model.calc_polarizabilities(np.array(found)),
        polarizabilities,
        "prediction at the requested amplitudes",
        1e-6,
        1e-6,
    )
    return count >= 2
