"""C06: writers never clobber, create, or damage files unless asked to."""

import shutil
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import ramannoodle.io.generic as generic
from ramannoodle.io.vasp import poscar, xdatcar
from ramannoodle.structure import (
    ReferenceStructure,
    write_ast_displaced_structures,
    write_displaced_structures,
)

from rnv import gens
from rnv.core import need, raises, sub

WRITERS = [
    "poscar.write_structure",
    "generic.write_structure/poscar",
    "generic.write_structure/xdatcar",
    "xdatcar.write_trajectory",
    "generic.write_trajectory/xdatcar",
    "write_displaced_structures",
    "write_ast_displaced_structures",
]

SINGLE = [
    None,
    None,
    "lattice (2,3)",
    "lattice (9,)",
    "positions above 1",
    "positions below 0",
    "positions of one atom more",
    "positions of one atom less",
    "positions (N,2)",
    "positions rank",
    "atomic number 0",
    "atomic number 119",
    "atomic number -1",
    "ungrouped",
    "no atoms",
    "lattice list",
    "numbers array",
]
FORMAT = ["format", "format case"]
MULTIPLE = [
    None,
    None,
    "one path too few",
    "one path too many",
    "no paths",
    "displacement of one atom more",
    "displacement (N,2)",
    "displacement of one atom",
    "atom index",
    "amplitudes (M,1)",
    "format",
    "ungrouped",
]


def overwriting(case):
    """Return keyword arguments."""
    if case["terse"] and not case["overwrite"]:
        return {}
    return {"overwrite": case["overwrite"]}


@st.composite
def calls(draw):
    """Strategy for a call of a writer in a directory with files in it."""
    writer = draw(st.sampled_from(WRITERS))
    multiple = "displaced" in writer
    if multiple:
        flaw = draw(st.sampled_from(MULTIPLE))
    elif "generic" in writer:
        flaw = draw(st.sampled_from(SINGLE + FORMAT))
    else:
        flaw = draw(st.sampled_from(SINGLE))
    structure = draw(gens.structures(max_types=3, max_count=3))
    rng = gens.rng_of(draw(gens.SEEDS))
    structure["positions"] = gens.separated_positions(
        rng, structure["lattice"], len(structure["numbers"]), 0.05
    )
    return {
        "writer": writer,
        "flaw": flaw,
        "structure": structure,
        "frames": draw(st.integers(1, 3)),
        "overwrite": draw(st.booleans()),
        "terse": draw(st.booleans()),
        "paths": draw(st.integers(1, 4)) if multiple else 1,
        "exists": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
        "old": draw(st.sampled_from([b"", b"x", b"old\n" * 20000, b"\xff\x00"])),
        "as_path": draw(st.booleans()),
        "label": draw(st.sampled_from([None, "short", "a\nb", "x" * 300])),
        "seed": draw(gens.SEEDS),
    }


def snapshot(directory):
    """Return contents of all files."""
    return {
        str(p.relative_to(directory)): p.read_bytes() if p.is_file() else None
        for p in sorted(directory.rglob("*"))
    }


def build(case, names, directory):
    """Return a function that makes the call with files in a directory."""
    structure = case["structure"]
    rng = gens.rng_of(case["seed"])
    lattice = structure["lattice"].copy()
    numbers = list(structure["numbers"])
    positions = structure["positions"].copy()
    n = len(numbers)
    flaw = case["flaw"]
    if flaw == "ungrouped":
        numbers = [1, 8] + [1] * max(n - 2, 1)
        positions = rng.uniform(0.05, 0.95, (len(numbers), 3))
        n = len(numbers)
    frames = rng.uniform(0, 1, (case["frames"], n, 3))
    frames[0] = positions
    kind = str if not case["as_path"] else Path
    paths = [kind(directory / name) for name in names]
    writer = case["writer"]

    if "displaced" in writer:
        ref = ReferenceStructure(numbers, lattice, positions)
        displacement = rng.normal(size=(n, 3))
        amplitudes = rng.uniform(-0.3, 0.3, len(names))
        index = int(rng.integers(0, n))
        fmt = "poscar"
        if flaw == "one path too few":
            amplitudes = np.append(amplitudes, 0.1)
        elif flaw == "one path too many":
            amplitudes = amplitudes[:-1]
        elif flaw == "no paths":
            paths = []
        elif flaw == "displacement of one atom more":
            displacement = rng.normal(size=(n + 1, 3))
        elif flaw == "displacement (N,2)":
            displacement = rng.normal(size=(n, 2))
        elif flaw == "displacement of one atom":
            displacement = rng.normal(size=(1, 3)) if n > 1 else rng.normal(size=(3,))
        elif flaw == "atom index":
            index = n + 2
        elif flaw == "amplitudes (M,1)":
            amplitudes = amplitudes[:, None]
        elif flaw == "format":
            fmt = "vasprun.xml"
        if writer == "write_displaced_structures":
            if flaw == "atom index":
                displacement = rng.normal(size=(3,))
            return lambda: write_displaced_structures(
                ref, displacement, amplitudes, paths, fmt, **overwriting(case)
            )
        direction = displacement[0] if displacement.ndim == 2 else displacement[:2]
        if flaw == "displacement (N,2)":
            direction = rng.normal(size=2)
        elif flaw in ("displacement of one atom more", "displacement of one atom"):
            direction = rng.normal(size=(n + 1, 3))
        return lambda: write_ast_displaced_structures(
            ref, index, direction, amplitudes, paths, fmt, **overwriting(case)
        )

    if flaw == "lattice (2,3)":
        lattice = lattice[:2]
    elif flaw == "lattice (9,)":
        lattice = lattice.flatten()
    elif flaw == "lattice list":
        lattice = lattice.tolist()
    elif flaw == "numbers array":
        numbers = np.array(numbers)
    elif flaw in ("positions above 1", "positions below 0"):
        value = 1.0 + 1e-9 if flaw.endswith("1") else -1e-9
        frames[-1, int(rng.integers(0, n)), int(rng.integers(0, 3))] = value
        positions = frames[-1]
    elif flaw == "positions of one atom more":
        frames = rng.uniform(0, 1, (case["frames"], n + 1, 3))
        positions = frames[0]
    elif flaw == "positions of one atom less":
        frames, positions = frames[:, :-1], positions[:-1]
    elif flaw == "positions (N,2)":
        frames, positions = frames[:, :, :2], positions[:, :2]
    elif flaw == "positions rank":
        frames, positions = positions, frames
    elif flaw and flaw.startswith("atomic number"):
        where = 0 if rng.integers(0, 2) else -1
        numbers[where] = int(flaw.split()[-1])
    elif flaw == "no atoms":
        numbers, positions, frames = [], positions[:0], frames[:, :0]
    trajectory = "trajectory" in writer
    args = [lattice, numbers, frames if trajectory else positions, paths[0]]
    if writer.startswith("generic"):
        fmt = writer.split("/")[1]
        if flaw == "format":
            fmt = "poscar" if trajectory else "outcar"
        elif flaw == "format case":
            fmt = fmt.upper()
        function = generic.write_trajectory if trajectory else generic.write_structure
        return lambda: function(*args, fmt, **overwriting(case))
    function = xdatcar.write_trajectory if trajectory else poscar.write_structure
    kwargs = {} if case["label"] is None else {"label": case["label"]}
    return lambda: function(*args, **overwriting(case), **kwargs)


@sub(
    "C06",
    "calls",
    calls(),
    2500,
    30000,
    "a file exists at a target path, or the arguments are invalid",
)
def writer_calls(case):
    """One call in a directory with files in it."""
    for name in ("d", "fresh"):
        shutil.rmtree(name, ignore_errors=True)
    directory = Path("d").absolute()
    directory.mkdir()
    names = [f"F{i}" for i in range(case["paths"])]
    (directory / "bystander").write_bytes(case["old"])
    (directory / "F0.bak").write_bytes(b"other")
    existing = [name for name, flag in zip(names, case["exists"]) if flag]
    for name in existing:
        (directory / name).write_bytes(case["old"])
    before = snapshot(directory)
    call = build(case, names, directory)

    if case["flaw"] is not None:
        allowed = (ValueError, TypeError, IndexError)
        if existing and not case["overwrite"]:  # either may be found first
            allowed = (*allowed, FileExistsError)
        with raises(allowed, f"{case['writer']} with {case['flaw']}"):
            call()
        need(
            snapshot(directory) == before,
            f"rejected {case['writer']} ({case['flaw']}) changed files",
            before=before,
            after=snapshot(directory),
        )
        return True

    if existing and not case["overwrite"]:
        with raises(FileExistsError, f"{case['writer']} onto an existing file"):
            call()
        after = snapshot(directory)
        for name, content in before.items():
            need(after.get(name) == content, "an existing file changed", name=name)
        need(set(after) <= set(before) | set(names), "unexpected files", after=list(after))
        if len(names) == 1:
            need(after == before, "a file was created")
        return True

    call()
    after = snapshot(directory)
    need(set(after) == set(before) | set(names), "unexpected files", after=list(after))
    for name, content in before.items():
        if name not in names:
            need(after[name] == content, "another file changed", name=name)
    # the result does not depend on what was there before
    fresh = Path("fresh").absolute()
    fresh.mkdir()
    build(case, names, fresh)()
    need(
        snapshot(fresh) == {name: after[name] for name in names},
        "overwritten files differ from fresh ones",
    )
    read = {str(n): poscar.read_structure(directory / n) for n in names}
    for got in read.values():
        need(list(got[1]) == case["structure"]["numbers"], "atomic numbers")
    return bool(existing)


@sub(
    "C06",
    "places",
    st.fixed_dictionaries(
        {
            "writer": st.sampled_from(WRITERS[:5]),
            "overwrite": st.booleans(),
            "terse": st.booleans(),
            "place": st.sampled_from(["directory", "no parent", "below a file", "None"]),
            "structure": gens.structures(max_types=2, max_count=2),
        }
    ),
    200,
    1500,
    "every case",
)
def places(case):
    """Paths that cannot be written."""
    shutil.rmtree("d", ignore_errors=True)
    directory = Path("d").absolute()
    directory.mkdir()
    (directory / "file").write_bytes(b"abc")
    (directory / "sub").mkdir()
    before = snapshot(directory)
    path = {
        "directory": directory / "sub",
        "no parent": directory / "missing" / "F",
        "below a file": directory / "file" / "F",
        "None": None,
    }[case["place"]]
    structure = case["structure"]
    args = [structure["lattice"], structure["numbers"], structure["positions"]]
    writer = case["writer"]
    if "trajectory" in writer:
        args[2] = args[2][None]
    args.append(path)
    with raises((OSError, TypeError), f"{writer} to {case['place']}"):
        if writer.startswith("generic"):
            name, fmt = writer.split("/")
            getattr(generic, name.split(".")[1])(*args, fmt, **overwriting(case))
        elif writer.startswith("xdatcar"):
            xdatcar.write_trajectory(*args, **overwriting(case))
        else:
            poscar.write_structure(*args, **overwriting(case))
    need(snapshot(directory) == before, "a failed call changed files")
    return True


@sub(
    "C06",
    "links",
    st.fixed_dictionaries(
        {
            "writer": st.sampled_from(WRITERS),
            "terse": st.booleans(),
            "overwrite": st.sampled_from([False, False, False, True]),
            "link": st.sampled_from(["nothing", "file", "directory", "itself", "link"]),
            "which": st.integers(0, 2),
            "as_path": st.booleans(),
            "seed": gens.SEEDS,
            "structure": gens.structures(max_types=2, max_count=2),
        }
    ),
    400,
    4000,
    "overwriting not requested",
)
def links(case):
    """Target paths at which there are symbolic links."""
    case = {**case, "flaw": None, "frames": 1, "label": None}
    shutil.rmtree("d", ignore_errors=True)
    directory = Path("d").absolute()
    directory.mkdir()
    (directory / "file").write_bytes(b"abc")
    (directory / "sub").mkdir()
    names = ["F0", "F1", "F2"] if "displaced" in case["writer"] else ["F0"]
    name = names[case["which"] % len(names)]
    link = directory / name
    if case["link"] == "link":
        (directory / "other").symlink_to("missing")
    link.symlink_to(
        {
            "nothing": "missing",
            "file": "file",
            "directory": "sub",
            "itself": name,
            "link": "other",
        }[case["link"]]
    )
    call = build(case, names, directory)
    before = snapshot(directory)
    what = f"{case['writer']} onto a link to {case['link']}"
    if case["overwrite"]:
        if case["link"] in ("directory", "itself"):
            return False  # replacing the link would be fine, too
        call()
        need(list(poscar.read_structure(link)[1]) == case["structure"]["numbers"], what)
        need((directory / "sub").is_dir(), "the directory is gone")
        return False
    with raises(FileExistsError, what):
        call()
    after = snapshot(directory)
    need(link.is_symlink(), f"{what}: link replaced")
    need(not (directory / "missing").exists(), f"{what}: file created")
    for path, content in before.items():
        need(after.get(path, b"gone") == content, f"{what}: changed", path=path)
    need(set(after) <= set(before) | set(names), "unexpected files", after=list(after))
    return True
