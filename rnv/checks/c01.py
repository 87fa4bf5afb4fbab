"""C01: what is written is what is read."""

from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import ramannoodle.io.generic as generic
from ramannoodle.io.vasp import poscar, xdatcar

from rnv import gens
from rnv.core import close, need, same, sub
from rnv.oracle import close_mod1, in_unit_interval

LABELS = st.one_of(
    st.none(),
    st.text(max_size=30),
    st.sampled_from(
        ["", " ", "a\nb", "x\r\ny", "tab\there", "it's", 'say "hi"', "\\n", "é ü 漢", "\x85\u2028", "1.0"]
    ),
)


@st.composite
def written(draw, frames):
    """Strategy for something to write and a way to write it."""
    if draw(st.integers(0, 3)) == 0:
        crystal = draw(gens.crystals(max_atoms=8))
        order = np.argsort(crystal["numbers"], kind="stable")
        case = gens.permute(crystal, order)
    else:
        case = draw(gens.structures())
    if draw(st.integers(0, 5)) == 0:  # many atoms
        number = case["numbers"][-1]
        extra = draw(st.integers(90, 300))
        rng = gens.rng_of(extra)
        case = {
            "lattice": case["lattice"],
            "numbers": case["numbers"] + [number] * extra,
            "positions": np.vstack(
                [case["positions"], gens.make_positions(rng, (extra, 3), 0.1)]
            ),
        }
    if frames:
        count = draw(st.one_of(st.integers(1, 6), st.sampled_from([12, 101])))
        rng = gens.rng_of(draw(gens.SEEDS))
        case["positions_ts"] = gens.make_positions(
            rng, (count, len(case["numbers"]), 3), 0.1
        )
        repeats = draw(st.sampled_from(["none", "none", "some", "all"]))
        if repeats != "none":  # configurations (partly) repeat earlier ones
            for k in range(1, count):
                if repeats == "all" or rng.random() < 0.4:
                    case["positions_ts"][k] = case["positions_ts"][k - 1]
    case["label"] = draw(LABELS)
    case["entry"] = draw(st.sampled_from(["specific", "generic"]))
    case["path"] = draw(st.sampled_from(["str", "Path"]))
    case["existing"] = draw(st.sampled_from([None, "short", "long"]))
    case["order"] = draw(st.sampled_from(["C", "F", "view"]))
    return case


def layout(array, order):
    """Return an equal array with another memory layout."""
    if order == "F":
        return np.asfortranarray(array)
    if order == "view":
        big = np.zeros((2 * array.shape[0],) + array.shape[1:])
        big[::2] = array
        return big[::2]
    return array


def prepare(case, name):
    """Create the old file. Returns path and keyword arguments."""
    path = Path(name).absolute()
    if path.exists():
        path.unlink()
    kwargs = {}
    if case["existing"]:
        path.write_text("old\n" * (3 if case["existing"] == "short" else 50000))
        kwargs["overwrite"] = True
    if case["label"] is not None and case["entry"] == "specific":
        kwargs["label"] = case["label"]
    return str(path) if case["path"] == "str" else path, kwargs


def separated(case):
    """Return whether the symmetry of the structure is well defined."""
    lattice, positions = case["lattice"], case["positions"]
    return len(positions) < 60 and gens.well_separated(
        lattice, positions, 1e-2
    )


def pymatgen_readable(case):
    """Return whether pymatgen takes the label literally."""
    label = case["label"] if case["entry"] == "specific" else None
    return label is None or (label.strip() != "" and label.isascii())


def labelled(path, kwargs):
    """Require that the label is the first line."""
    label = kwargs.get("label")
    if label is None or not label.isprintable() or set(label) & set("\\'\""):
        return  # written in an escaped form
    with open(path, encoding="utf-8", newline="") as file:
        first = file.readline()
    need(first == label + "\n", "the label is the first line", got=first, want=label)


@sub(
    "C01",
    "structure",
    written(False),
    900,
    8000,
    "at least two atoms, at least one coordinate off the boundary",
)
def structure(case):
    """Write a structure and read it with every reader."""
    lattice, numbers = case["lattice"], case["numbers"]
    positions = case["positions"]
    path, kwargs = prepare(case, "POSCAR")
    args = (layout(lattice, case["order"]), list(numbers), layout(positions, case["order"]), path)
    if case["entry"] == "specific":
        poscar.write_structure(*args, **kwargs)
    else:
        fmt = "xdatcar" if len(numbers) % 2 else "poscar"
        generic.write_structure(*args, fmt, **kwargs)

    labelled(path, kwargs)
    tol = {"rtol": 4e-16, "atol": 1.2e-16}
    reads = [poscar.read_structure(path)]
    for got in reads:
        need(len(got) == 3, "structure has three parts")
        close(got[0], lattice, "lattice", **tol)
        need(list(got[1]) == numbers, "atomic numbers", got=got[1], want=numbers)
        close(got[2], positions, "positions", **tol)
    for got in (
        poscar.read_positions(path),
        generic.read_positions(path, "poscar"),
        generic.read_positions(path, "xdatcar"),
    ):
        close(got, positions, "read_positions", **tol)
    ts = xdatcar.read_positions_ts(path)
    close(ts, positions[None], "one configuration", **tol)
    if separated(case):
        for ref in (
            poscar.read_ref_structure(path),
            generic.read_ref_structure(path, "poscar"),
            generic.read_ref_structure(path, "xdatcar"),
        ):
            close(ref.lattice, lattice, "reference lattice", **tol)
            need(list(ref.atomic_numbers) == numbers, "reference atomic numbers")
            close(ref.positions, positions, "reference positions", **tol)
            need(ref.num_atoms == len(numbers), "num_atoms")
    if pymatgen_readable(case):
        import pymatgen.io.vasp as pmg  # pylint: disable=import-outside-toplevel

        other = pmg.Poscar.from_file(str(path), check_for_potcar=False).structure
        close(other.lattice.matrix, lattice, "third-party lattice", 1e-14, 1e-14)
        need(list(other.atomic_numbers) == numbers, "third-party atomic numbers")
        close(other.frac_coords, positions, "third-party positions", 1e-14, 1e-14)
    return len(numbers) > 1 and bool(np.any((positions > 0) & (positions < 1)))


@sub(
    "C01",
    "trajectory",
    written(True),
    450,
    5000,
    "at least two configurations of at least two atoms",
)
def trajectory(case):
    """Write a trajectory and read it with every reader."""
    lattice, numbers = case["lattice"], case["numbers"]
    positions_ts = case["positions_ts"]
    path, kwargs = prepare(case, "XDATCAR")
    args = (lattice, list(numbers), layout(positions_ts, case["order"]), path)
    if case["entry"] == "specific":
        xdatcar.write_trajectory(*args, **kwargs)
    else:
        generic.write_trajectory(*args, "xdatcar", **kwargs)

    labelled(path, kwargs)
    tol = {"rtol": 4e-16, "atol": 1.2e-16}
    close(xdatcar.read_positions_ts(path), positions_ts, "positions_ts", **tol)
    traj = xdatcar.read_trajectory(path, 0.75)
    need(traj.timestep == 0.75, "timestep", got=traj.timestep)
    need(len(traj) == len(positions_ts), "length", got=len(traj))
    close_mod1(traj.positions_ts, positions_ts, "trajectory", 1e-15)
    in_unit_interval(traj.positions_ts, "trajectory is wrapped")
    for got in (poscar.read_positions(path), generic.read_positions(path, "xdatcar")):
        close(got, positions_ts[0], "first configuration", **tol)
    got = poscar.read_structure(path)
    close(got[0], lattice, "lattice", **tol)
    need(list(got[1]) == numbers, "atomic numbers")
    if pymatgen_readable(case) and len(numbers) < 60:
        import pymatgen.io.vasp as pmg  # pylint: disable=import-outside-toplevel

        other = pmg.Xdatcar(str(path))
        need(len(other.structures) == len(positions_ts), "third-party length")
        for one, positions in zip(other.structures, positions_ts):
            close(one.lattice.matrix, lattice, "third-party lattice", 1e-14, 1e-14)
            need(list(one.atomic_numbers) == numbers, "third-party atomic numbers")
            close(one.frac_coords, positions, "third-party frame", 1e-14, 1e-14)
    return len(positions_ts) > 1 and len(numbers) > 1


@sub(
    "C01",
    "rewrite",
    written(False),
    500,
    4000,
    "at least two atoms",
)
def rewrite(case):
    """Reading and writing again reproduces the file byte for byte."""
    case = {**case, "entry": "specific", "existing": None}
    path, kwargs = prepare(case, "A")
    poscar.write_structure(
        case["lattice"], list(case["numbers"]), case["positions"], path, **kwargs
    )
    first = Path(path).read_bytes()
    lattice, numbers, positions = poscar.read_structure(path)
    poscar.write_structure(lattice, numbers, positions, path, overwrite=True, **kwargs)
    same(
        np.frombuffer(Path(path).read_bytes(), np.uint8),
        np.frombuffer(first, np.uint8),
        "rewritten file differs",
    )
    return len(numbers) > 1
