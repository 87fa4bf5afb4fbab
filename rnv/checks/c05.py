"""C05: damaged files raise the documented error and never give partial objects."""

import numpy as np
from hypothesis import strategies as st

import ramannoodle.io.generic as generic
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.exceptions import (
    IncompatibleStructureException,
    InvalidFileException,
    SymmetryException,
)
from ramannoodle.io.vasp import outcar, poscar, vasprun, xdatcar
from ramannoodle.structure import ReferenceStructure

from rnv import gens, vasp
from rnv.core import need, raises, sub

GARBAGE = [
    b"",
    b"x",
    b"**********",
    b"nan",
    b"inf",
    b"-1",
    b"0",
    b"1e400",
    b"1.2.3",
    b"0x10",
    b"7",
    b"Xx",
    b"H",
    b"_",
    b"\xff\xfe",
    b"\xc3\xa9",
    b"\x00",
    b"1,5",
    b"<v>",
    b"</v>",
    b"&amp;",
    b"0.5 0.5",
    b"cm-1",
    b"POTCAR:    ",
    b"1_0",
]

OPS = [
    "truncate_byte",
    "truncate_line",
    "drop_line",
    "drop_lines",
    "drop_token",
    "replace_token",
    "insert_token",
    "duplicate_line",
    "swap_lines",
    "insert_byte",
    "drop_byte",
    "blank_line",
    "empty_line",
    "first_tokens",
    "last_tokens",
    "swap_case",
    "swap_letter",
    "copy_token",
    "join_tokens",
]


def apply(data, damage):
    """Return damaged bytes."""
    op, where, arg = damage
    if op == "truncate_byte":
        return data[: int(where * len(data))]
    if op == "insert_byte":
        i = int(where * len(data))
        return data[:i] + GARBAGE[arg % len(GARBAGE)] + data[i:]
    if op == "drop_byte":
        i = int(where * len(data))
        return data[:i] + data[i + 1 + arg % 4 :]
    lines = data.split(b"\n")
    i = min(int(where * len(lines)), len(lines) - 1)
    if op == "truncate_line":
        return b"\n".join(lines[:i])
    if op == "drop_line":
        del lines[i]
    elif op == "drop_lines":
        del lines[i : i + 2 + arg % 6]
    elif op == "duplicate_line":
        lines.insert(i, lines[i])
    elif op == "swap_lines":
        j = (i + 1 + arg % 5) % len(lines)
        lines[i], lines[j] = lines[j], lines[i]
    elif op == "blank_line":
        lines.insert(i, b"")
    elif op == "empty_line":
        lines[i] = b"   "
    else:
        parts = lines[i].split(b" ")
        full = [k for k, part in enumerate(parts) if part]
        if full:
            k = full[arg % len(full)]  # a token
            garbage = GARBAGE[(arg // 7) % len(GARBAGE)]
            if op == "drop_token":
                del parts[k]
            elif op == "first_tokens":
                del parts[k:]
            elif op == "last_tokens":
                del parts[:k]
            elif op == "replace_token":
                parts[k] = garbage
            elif op == "swap_case":
                parts[k] = parts[k].swapcase()
            elif op == "swap_letter":
                c = arg // 7 % len(parts[k])
                parts[k] = parts[k][:c] + parts[k][c : c + 1].swapcase() + parts[k][c + 1 :]
            elif op == "copy_token":
                words = data.split()
                parts[k] = words[arg * 31 % len(words)]
            elif op == "join_tokens":
                del parts[k + 1 : full[(full.index(k) + 1) % len(full)]]
                parts[k : k + 2] = [b"".join(parts[k : k + 2])]
            else:
                parts.insert(k, garbage)
            lines[i] = b" ".join(parts)
    return b"\n".join(lines)


DAMAGES = st.lists(
    st.tuples(
        st.sampled_from(OPS),
        st.floats(0, 1, exclude_max=True),
        st.integers(0, 10**4),
    ),
    min_size=1,
    max_size=3,
)


def well_formed_positions(positions, atoms=None):
    """Positions have shape (N,3)."""
    positions = np.asarray(positions)
    need(
        positions.ndim == 2
        and positions.shape[1] == 3
        and positions.dtype == np.float64
        and (atoms is None or len(positions) == atoms),
        "positions are malformed",
        shape=positions.shape,
        dtype=positions.dtype,
        atoms=atoms,
    )


def well_formed_tensor(tensor, name):
    """Array has shape (3,3)."""
    tensor = np.asarray(tensor)
    need(tensor.shape == (3, 3) and tensor.dtype == np.float64, f"{name} is malformed", got=tensor)


def well_formed_numbers(numbers):
    """Atomic numbers exist."""
    need(
        isinstance(numbers, list) and all(1 <= n <= 118 for n in numbers),
        "atomic numbers are malformed",
        got=numbers,
    )


def well_formed(result):
    """Check whatever a reader returns."""
    if isinstance(result, ReferenceStructure):
        well_formed_numbers(result.atomic_numbers)
        well_formed_tensor(result.lattice, "lattice")
        well_formed_positions(result.positions, len(result.atomic_numbers))
        need(result.num_atoms == len(result.atomic_numbers) > 0, "num_atoms")
        classes = result.get_equivalent_atom_dict()
        need(
            sorted([*classes, *sum(classes.values(), [])]) == list(range(result.num_atoms)),
            "equivalent atoms",
        )
    elif isinstance(result, Trajectory):
        shape = result.positions_ts.shape
        need(
            len(shape) == 3 and shape[2] == 3 and shape[0] > 0 and result.timestep > 0,
            "trajectory is malformed",
            shape=shape,
        )
    elif isinstance(result, Phonons):
        atoms = len(result.ref_positions)
        modes = result.wavenumbers.size
        well_formed_positions(result.ref_positions)
        need(
            result.wavenumbers.shape == (modes,)
            and result.displacements.shape == (modes, atoms, 3),
            "phonons are malformed",
        )
    elif isinstance(result, tuple) and len(result) == 2:
        well_formed_positions(result[0])
        well_formed_tensor(result[1], "polarizability")
    elif isinstance(result, tuple) and len(result) in (3, 4):
        well_formed_tensor(result[0], "lattice")
        well_formed_numbers(result[1])
        well_formed_positions(result[2], len(result[1]))
        if len(result) == 4:
            well_formed_tensor(result[3], "polarizability")
    elif isinstance(result, np.ndarray) and result.ndim == 3:
        need(result.shape[0] > 0 and result.shape[2] == 3, "positions_ts is malformed")
    elif isinstance(result, np.ndarray):
        well_formed_positions(result)
    else:  # dataset
        need(
            result.positions.shape[2] == 3
            and tuple(result.polarizabilities.shape) == (len(result.positions), 3, 3)
            and len(result.atomic_numbers) == result.positions.shape[1],
            "dataset is malformed",
        )


READERS = {
    "poscar": [
        poscar.read_positions,
        poscar.read_structure,
        poscar.read_ref_structure,
        lambda path: generic.read_positions(path, "poscar"),
        lambda path: generic.read_ref_structure(path, "poscar"),
    ],
    "xdatcar": [
        xdatcar.read_positions_ts,
        lambda path: xdatcar.read_trajectory(path, 1.0),
        poscar.read_structure,
        lambda path: generic.read_positions(path, "xdatcar"),
        lambda path: generic.read_ref_structure(path, "xdatcar"),
    ],
}
for _name, _module in (("outcar", outcar), ("vasprun", vasprun)):
    READERS[_name] = [
        _module.read_positions,
        _module.read_positions_and_polarizability,
        _module.read_structure_and_polarizability,
        _module.read_ref_structure,
        _module.read_phonons,
        _module.read_trajectory,
        _module.read_polarizability_dataset,
    ]
for _name, _format in (("outcar", "outcar"), ("vasprun", "vasprun.xml")):
    READERS[_name] += [
        lambda path, f=_format: generic.read_positions(path, f),
        lambda path, f=_format: generic.read_positions_and_polarizability(path, f),
        lambda path, f=_format: generic.read_structure_and_polarizability(path, f),
        lambda path, f=_format: generic.read_ref_structure(path, f),
        lambda path, f=_format: generic.read_phonons(path, f),
        lambda path, f=_format: generic.read_trajectory(path, f),
    ]

ALLOWED = (InvalidFileException, SymmetryException, IncompatibleStructureException)


def check(name, data):
    """Read damaged bytes with every reader. Returns whether one was refused."""
    with open("F", "wb") as file:
        file.write(data)
    refused = False
    for index, reader in enumerate(READERS[name]):
        try:
            result = reader("F")
        except ALLOWED as exc:
            refused = True
            if isinstance(exc, SymmetryException):
                need("ref" in str(reader) or "lambda" in str(reader), "symmetry error")
            continue
        except Exception as exc:  # pylint: disable=broad-except
            need(
                False,
                f"{name} reader {index} ({getattr(reader, '__qualname__', '')}) "
                f"raised {type(exc).__name__}: {exc}",
            )
        well_formed(result)
    return refused


@st.composite
def damaged(draw, name):
    """Strategy for a damaged file."""
    if name in ("poscar", "xdatcar"):
        structure = draw(gens.structures(max_types=3, max_count=2))
        opts = draw(vasp.poscar_options())
        if name == "poscar":
            text = vasp.render_poscar(structure, opts)
        else:
            rng = gens.rng_of(draw(gens.SEEDS))
            frames = gens.make_positions(
                rng, (draw(st.integers(1, 4)), len(structure["numbers"]), 3)
            )
            text = vasp.render_xdatcar(structure, frames, opts)
    else:
        calc = draw(vasp.calculations(max_types=2, max_count=2))
        if name == "outcar":
            text = vasp.render_outcar(calc, draw(vasp.outcar_options()))
        else:
            text = vasp.render_vasprun(calc, draw(vasp.vasprun_options()))
    data = text.encode()
    for damage in draw(DAMAGES):
        data = apply(data, damage)
    return {"format": name, "data": data}


RULE = "at least one reader refused the file"


def body(case):
    """Read a damaged file."""
    return check(case["format"], case["data"])


sub("C05", "poscar", damaged("poscar"), 1500, 40000, RULE)(body)
sub("C05", "xdatcar", damaged("xdatcar"), 1200, 30000, RULE)(body)
sub("C05", "outcar", damaged("outcar"), 1200, 30000, RULE)(body)
sub("C05", "vasprun", damaged("vasprun"), 1200, 30000, RULE)(body)


@st.composite
def mismatched(draw):
    """Strategy for arbitrary content, or a valid file of another format."""
    kind = draw(st.sampled_from(["bytes", "text", "poscar", "outcar", "vasprun"]))
    if kind == "bytes":
        return draw(st.binary(max_size=300))
    if kind == "text":
        return draw(st.text(max_size=300)).encode()
    if kind == "poscar":
        return vasp.render_poscar(draw(gens.structures()), draw(vasp.poscar_options())).encode()
    calc = draw(vasp.calculations(max_types=2, max_count=2))
    if kind == "outcar":
        return vasp.render_outcar(calc, draw(vasp.outcar_options())).encode()
    return vasp.render_vasprun(calc, draw(vasp.vasprun_options())).encode()


@sub("C05", "other-content", mismatched(), 300, 5000, "the content is not empty")
def other_content(data):
    """Read anything with every reader."""
    for name in READERS:
        check(name, data)
    return len(data) > 0


@sub(
    "C05",
    "truncation",
    st.fixed_dictionaries(
        {
            "calc": vasp.calculations(max_types=2, max_count=2, min_steps=2),
            "layout": vasp.outcar_options(),
            "where": st.floats(0, 1),
            "format": st.sampled_from(["outcar", "vasprun"]),
        }
    ),
    700,
    15000,
    "the cut removes part of the content",
)
def truncation(case):
    """What is read from a truncated file agrees with the complete one, or is refused."""
    calc = case["calc"]
    calc = {**calc, "ml": [False] * len(calc["ml"])}
    if case["format"] == "outcar":
        module, text = outcar, vasp.render_outcar(calc, case["layout"])
    else:
        module, text = vasprun, vasp.render_vasprun(calc, vasp.PLAIN_VASPRUN)
    lines = text.splitlines(keepends=True)
    cut = int(case["where"] * len(lines))
    vasp.write("F", "".join(lines[:cut]))
    atoms = len(calc["numbers"])
    for reader in (
        module.read_structure_and_polarizability,
        module.read_phonons,
        module.read_trajectory,
        module.read_positions,
    ):
        try:
            got = reader("F")
        except InvalidFileException:
            continue
        if isinstance(got, Trajectory):  # complete configurations only
            need(1 <= len(got) <= len(calc["positions_ts"]), "number of configurations")
            need(got.positions_ts.shape[1:] == (atoms, 3), "shape of configurations")
            want = calc["positions_ts"][: len(got)]
            d = got.positions_ts - want
            need(np.abs(d - np.rint(d)).max() < 1e-3, "configurations of a truncated file")
        elif isinstance(got, Phonons):
            need(len(got.wavenumbers) == 3 * atoms, "all phonons")
            need(np.allclose(got.wavenumbers, calc["wavenumbers"], atol=1e-2), "wavenumbers")
        elif isinstance(got, tuple):
            need(np.array_equal(got[3], calc["polarizability"]), "polarizability")
            need(list(got[1]) == calc["numbers"], "atomic numbers")
        else:
            need(np.array_equal(got, calc["positions"]), "positions")
    return cut < len(lines)


@st.composite
def configurations(draw):
    """Strategy for an XDATCAR and a damaged line of one of its configurations."""
    structure = draw(gens.structures(max_types=3, max_count=3))
    rng = gens.rng_of(draw(gens.SEEDS))
    shape = (draw(st.integers(1, 5)), len(structure["numbers"]), 3)
    return {
        "structure": structure,
        "frames": gens.make_positions(rng, shape),
        "op": draw(st.sampled_from(["cut", "cut_line", "word", "short", "delete"])),
        "frame": draw(st.integers(0, shape[0] - 1)),
        "atom": draw(st.integers(0, shape[1] - 1)),
        "axis": draw(st.integers(0, 2)),
        "word": draw(st.sampled_from(["x", "********", "0.1.2", "--", "T"])),
    }


@sub("C05", "configurations", configurations(), 300, 6000, "damage after the first frame")
def configurations_sub(case):
    """A damaged configuration is never dropped silently."""
    structure, frames = case["structure"], case["frames"]
    xdatcar.write_trajectory(
        structure["lattice"], structure["numbers"], frames, "X", overwrite=True
    )
    with open("X", encoding="utf-8") as file:
        lines = file.read().splitlines(keepends=True)
    count, atoms = frames.shape[:2]
    header = len(lines) - count * (atoms + 1)
    need(header == 7, "an XDATCAR has seven lines before the first configuration")
    index = header + case["frame"] * (atoms + 1) + 1 + case["atom"]
    words = lines[index].split()
    if case["op"] == "cut":
        lines = lines[:index]
    elif case["op"] == "cut_line":
        lines = lines[:index] + [" ".join(words[: case["axis"]])]
    elif case["op"] == "word":
        words[case["axis"]] = case["word"]
        lines[index] = " ".join(words) + "\n"
    elif case["op"] == "short":
        del words[case["axis"]]
        lines[index] = " ".join(words) + "\n"
    else:
        del lines[index]
    vasp.write("X", "".join(lines))
    for reader in (xdatcar.read_positions_ts, lambda path: xdatcar.read_trajectory(path, 1.0)):
        with raises(InvalidFileException, f"configuration {case['frame']} is damaged"):
            reader("X")
    # whole configurations can be read
    whole = header + case["frame"] * (atoms + 1)
    if case["frame"] > 0:
        vasp.write("X", "".join(lines[:whole]))
        got = xdatcar.read_positions_ts("X")
        need(got.shape == (case["frame"], atoms, 3), "complete configurations")
        need(np.allclose(got, frames[: case["frame"]], rtol=0, atol=1e-14), "configurations")
    return case["frame"] > 0


@sub(
    "C05",
    "missing",
    st.tuples(st.text("abc_.", min_size=1, max_size=8), st.booleans()),
    40,
    200,
    "every case",
)
def missing(case):
    """Missing files."""
    path = "missing_" + case[0] + ("/x" if case[1] else "")
    for name, readers in READERS.items():
        for reader in readers:
            with raises(FileNotFoundError, f"missing {name} file"):
                reader(path)
    return True


@sub(
    "C05",
    "headings",
    st.fixed_dictionaries(
        {
            "structure": gens.structures(max_types=3, max_count=3),
            "frames": st.integers(1, 5),
            "op": st.sampled_from(
                ["delete", "blank", "spaces", "gap", "indent", "extra", "word", "numbers"]
            ),
            "frame": st.integers(0, 4),
            "atom": st.integers(0, 8),
            "seed": gens.SEEDS,
        }
    ),
    300,
    6000,
    "damage after the first frame",
)
def headings(case):
    """Damage between configurations never makes the trajectory shorter."""
    structure = case["structure"]
    atoms = len(structure["numbers"])
    rng = gens.rng_of(case["seed"])
    frames = gens.make_positions(rng, (case["frames"], atoms, 3))
    xdatcar.write_trajectory(
        structure["lattice"], structure["numbers"], frames, "X", overwrite=True
    )
    with open("X", encoding="utf-8") as file:
        lines = file.read().splitlines(keepends=True)
    frame = case["frame"] % case["frames"]
    index = len(lines) - (case["frames"] - frame) * (atoms + 1)
    if case["op"] == "delete":
        del lines[index]
    elif case["op"] == "blank":
        lines[index] = "\n"
    elif case["op"] == "spaces":
        lines[index] = "   \n"
    elif case["op"] == "gap":
        lines.insert(index, "\n")
    elif case["op"] == "indent":
        lines[index] = " " + lines[index]
    elif case["op"] == "extra":
        row = index + 1 + case["atom"] % atoms
        lines.insert(row, lines[row])
    elif case["op"] == "word":
        lines[index] = f"frame {frame}\n"
    else:
        lines[index] = lines[index + 1]
    vasp.write("X", "".join(lines))
    readers = [
        xdatcar.read_positions_ts,
        lambda path: xdatcar.read_trajectory(path, 1.0).positions_ts,
    ]
    for reader in readers:
        try:
            got = reader("X")
        except InvalidFileException:
            continue
        need(
            got.shape == frames.shape,
            f"{case['op']} at configuration {frame}: configurations are lost",
            got=got.shape,
            wanted=frames.shape,
        )
        d = got - frames
        need(np.abs(d - np.rint(d)).max() < 1e-12, "configurations differ")
    return frame > 0
