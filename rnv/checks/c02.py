"""C02: every valid rendering of a POSCAR or XDATCAR reads as the same structure."""

import numpy as np
from hypothesis import strategies as st

import ramannoodle.io.generic as generic
from ramannoodle.io.vasp import poscar, xdatcar

from rnv import gens, vasp
from rnv.core import close, need, sub
from rnv.oracle import close_mod1, in_unit_interval


@st.composite
def rendered(draw, frames=False):
    """Strategy for a structure and a way to print it."""
    if draw(st.integers(0, 2)) == 0:
        crystal = draw(gens.crystals(max_atoms=8))
        order = np.argsort(crystal["numbers"], kind="stable")
        structure = gens.permute(crystal, order)
    else:
        structure = draw(gens.structures())
    if draw(st.integers(0, 19)) == 7:  # many atoms
        extra = draw(st.integers(60, 150))
        rng = gens.rng_of(extra)
        structure = {
            "lattice": structure["lattice"],
            "numbers": list(structure["numbers"]) + [structure["numbers"][0]] * extra,
            "positions": np.vstack(
                [structure["positions"], gens.make_positions(rng, (extra, 3), 0.1)]
            ),
        }
    if draw(st.integers(0, 3)) == 0:  # species that come back later in the file
        structure = gens.permute(
            structure,
            gens.rng_of(draw(gens.SEEDS)).permutation(len(structure["numbers"])),
        )
    if draw(st.integers(0, 3)) == 0:  # atoms outside the cell
        rng = gens.rng_of(draw(gens.SEEDS))
        structure = {
            **structure,
            "positions": structure["positions"]
            + rng.integers(-2, 3, structure["positions"].shape),
        }
    case = {"structure": structure, "opts": draw(vasp.poscar_options())}
    if frames:
        count = draw(st.integers(1, 6))
        if len(structure["numbers"]) < 20 and draw(st.integers(0, 19)) == 7:
            count = draw(st.integers(60, 130))
        rng = gens.rng_of(draw(gens.SEEDS))
        shape = (count, len(structure["numbers"]), 3)
        case["positions_ts"] = gens.make_positions(rng, shape)
        if draw(st.booleans()):
            case["positions_ts"] = case["positions_ts"] + rng.integers(-1, 2, shape)
    return case


def tolerance(structure):
    """Return tolerances for positions that went through Cartesian coordinates."""
    lattice = structure["lattice"]
    return 1e-14 * np.linalg.cond(lattice) * (1 + np.abs(structure["positions"]).max())


def separated(structure):
    """Return whether the symmetry search is well defined."""
    return gens.well_separated(structure["lattice"], structure["positions"], 1e-2)


@sub(
    "C02",
    "poscar",
    rendered(),
    1200,
    12000,
    "Cartesian, scaled, volume-scaled, selective, annotated, or with velocities",
)
def poscar_renderings(case):
    """Read one rendering with every reader."""
    structure, opts = case["structure"], case["opts"]
    lattice, numbers = structure["lattice"], structure["numbers"]
    positions = structure["positions"]
    vasp.write("POSCAR", vasp.render_poscar(structure, opts))
    atol = tolerance(structure)
    lat = {"rtol": 1e-12, "atol": 1e-13 * np.abs(lattice).max()}

    got = poscar.read_structure("POSCAR")
    close(got[0], lattice, "lattice", **lat)
    need(list(got[1]) == numbers, "atomic numbers", got=got[1], want=numbers)
    close(got[2], positions, "positions", 1e-13, atol)
    for name, read in (
        ("poscar.read_positions", poscar.read_positions("POSCAR")),
        ("generic poscar", generic.read_positions("POSCAR", "poscar")),
        ("generic xdatcar", generic.read_positions("POSCAR", "xdatcar")),
    ):
        close(read, positions, name, 1e-13, atol)
    if not opts["velocities"]:
        close(xdatcar.read_positions_ts("POSCAR"), positions[None], "as xdatcar", 1e-13, atol)
    if separated(structure):
        for ref in (
            poscar.read_ref_structure("POSCAR"),
            generic.read_ref_structure("POSCAR", "poscar"),
            generic.read_ref_structure("POSCAR", "xdatcar"),
        ):
            close(ref.lattice, lattice, "reference lattice", **lat)
            need(list(ref.atomic_numbers) == numbers, "reference atomic numbers")
            close_mod1(ref.positions, positions, "reference positions", atol + 1e-13)
    return (
        opts["cart"]
        or opts["scale"] != 1
        or opts["volume"]
        or opts["selective"]
        or opts["trailing"]
        or bool(opts["velocities"])
    )


@sub(
    "C02",
    "xdatcar",
    rendered(True),
    600,
    6000,
    "at least two configurations",
)
def xdatcar_renderings(case):
    """Read one rendering with every reader."""
    structure, opts = case["structure"], case["opts"]
    lattice, numbers = structure["lattice"], structure["numbers"]
    positions_ts = case["positions_ts"]
    vasp.write("XDATCAR", vasp.render_xdatcar(structure, positions_ts, opts))
    close(xdatcar.read_positions_ts("XDATCAR"), positions_ts, "positions_ts", 1e-13, 1e-15)
    traj = xdatcar.read_trajectory("XDATCAR", 2)
    close_mod1(traj.positions_ts, positions_ts, "trajectory", 1e-14)
    in_unit_interval(traj.positions_ts, "trajectory is wrapped")
    need(len(traj) == len(positions_ts) and traj.timestep == 2.0, "length, timestep")
    got = poscar.read_structure("XDATCAR")
    close(got[0], lattice, "lattice", 1e-12, 1e-13 * np.abs(lattice).max())
    need(list(got[1]) == numbers, "atomic numbers", got=got[1], want=numbers)
    close(got[2], positions_ts[0], "first configuration", 1e-13, 1e-15)
    close(generic.read_positions("XDATCAR", "xdatcar"), positions_ts[0], "generic", 1e-13, 1e-15)
    return len(positions_ts) > 1


@sub(
    "C02",
    "third-party",
    rendered(),
    400,
    3000,
    "Cartesian or scaled",
)
def third_party(case):
    """A third-party reader reads the same structure from the same file."""
    import pymatgen.io.vasp as pmg  # pylint: disable=import-outside-toplevel

    structure = case["structure"]
    opts = {**case["opts"], "velocities": "", "label": "comment"}
    if opts["cart"]:  # pymatgen multiplies positions by the (negative) volume
        opts["volume"] = False
    vasp.write("POSCAR", vasp.render_poscar(structure, opts))
    other = pmg.Poscar.from_file("POSCAR", check_for_potcar=False).structure
    lattice, numbers, positions = poscar.read_structure("POSCAR")
    close(lattice, other.lattice.matrix, "lattice", 1e-9, 1e-10)
    need(list(numbers) == list(other.atomic_numbers), "atomic numbers")
    close_mod1(positions, other.frac_coords, "positions", 1e-9)
    return opts["cart"] or opts["scale"] != 1
