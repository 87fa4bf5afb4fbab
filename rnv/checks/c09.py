"""C09: equivalent atoms and displacements are those of the space group."""

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.structure import ReferenceStructure

from rnv import gens
from rnv.core import close, need, same, sub
from rnv.oracle import (
    atom_map,
    cosine,
    crystal_operations,
    transform_displacement,
)

KINDS = ["axis", "direction", "pair", "random", "symmetric", "uniform"]


@st.composite
def cases(draw, noisy=False):
    """Strategy for a crystal and a displacement."""
    crystal = draw(gens.crystals(max_atoms=12))
    rng = gens.rng_of(draw(gens.SEEDS))
    symprec = 1e-5
    if noisy:
        symprec = draw(st.sampled_from([1e-3, 1e-2, 3e-2, 0.1]))
        n = len(crystal["numbers"])
        noise = rng.uniform(-0.1, 0.1, (n, 3)) * symprec
        positions = crystal["positions"] + noise @ np.linalg.inv(crystal["lattice"])
        crystal = {**crystal, "positions": positions % 1}
    return {
        "crystal": crystal,
        "symprec": symprec,
        "kind": draw(st.sampled_from(KINDS)),
        "direction": draw(gens.directions()),
        "seed": draw(gens.SEEDS),
    }


def make_displacement(case, operations):
    """Return fractional displacement."""
    crystal = case["crystal"]
    rng = gens.rng_of(case["seed"])
    n = len(crystal["numbers"])
    inverse = np.linalg.inv(crystal["lattice"])
    cart = np.zeros((n, 3))
    kind = case["kind"]
    if kind in ("axis", "direction"):
        cart[rng.integers(0, n)] = case["direction"]
        if kind == "axis":
            axis = crystal["lattice"][rng.integers(0, 3)]
            cart[np.abs(cart).sum(axis=1) > 0] = axis * rng.choice([1, -1])
    elif kind == "pair":
        i, j = rng.integers(0, n, 2)
        cart[i] = case["direction"]
        cart[j] += case["direction"] * rng.choice([0.5, 1, -1.0])
        if np.allclose(cart, 0):
            cart[i] = case["direction"]
    elif kind == "uniform":
        cart[:] = case["direction"]
    else:
        cart = rng.normal(size=(n, 3))
    frac = cart @ inverse
    if kind == "symmetric":  # even under one operation
        rotation, _, image = operations[rng.integers(0, len(operations))]
        total, d = frac, frac
        for _ in range(12):
            d = transform_displacement(d, rotation, image)
            if np.allclose(d, frac, atol=1e-9):
                break
            total = total + d
        if np.linalg.norm(total) > 1e-3 * np.linalg.norm(frac):
            frac = total
    frac = frac / np.abs(frac).max() * rng.choice([0.4, 0.1, 1e-3])
    return frac


def clear_cut(crystal, operations, frac):
    """Return whether all pairs of images are clearly collinear or clearly not."""
    lattice = crystal["lattice"]
    images = np.array(
        [(transform_displacement(frac, r, i) @ lattice).ravel() for r, _, i in operations]
    )
    images /= np.linalg.norm(images, axis=1)[:, None]
    sine2 = 1 - (images @ images.T) ** 2
    return not np.any((sine2 > 1e-9) & (sine2 < 1e-4))


def check_atoms(ref, crystal, operations):
    """Check equivalent atoms."""
    n = len(crystal["numbers"])
    orbits = {frozenset(int(image[i]) for _, _, image in operations) for i in range(n)}
    found = ref.get_equivalent_atom_dict()
    classes = [frozenset([int(k), *map(int, v)]) for k, v in found.items()]
    for key, others in found.items():
        need(key not in others and len(set(others)) == len(others), "atom listed twice")
    need(len(set(classes)) == len(classes), "class listed twice", found=found)
    need(set(classes) == orbits, "equivalent atoms", found=found, orbits=orbits)
    need(ref.num_nonequivalent_atoms == len(orbits), "number of classes")


def check_displacements(ref, crystal, operations, frac, tol):
    """Check equivalent displacements. Returns number of groups."""
    lattice = crystal["lattice"]
    metric = lattice @ lattice.T
    copy = frac.copy()
    groups = ref.get_equivalent_displacements(frac)
    same(frac, copy, "argument was modified")
    need(len(groups) >= 1, "no groups")
    scale = None
    heads = []
    for group in groups:
        reported, transformations = group["displacements"], group["transformations"]
        need(len(reported) == len(transformations) >= 1, "lengths differ")
        need(len(reported) <= 2, "duplicates of a displacement", count=len(reported))
        for d, (rotation, translation) in zip(reported, transformations):
            rotation = np.asarray(rotation)
            need(
                np.allclose(rotation, np.rint(rotation)), "rotation is not integer"
            )
            close(
                rotation.T @ metric @ rotation,
                metric,
                "the rotation does not preserve lengths",
                0,
                (1e-6 + 10 * tol) * np.abs(metric).max(),
            )
            image, error = atom_map(
                lattice, crystal["positions"], crystal["numbers"], rotation, translation
            )
            need(
                error < 4 * tol + 1e-5 and sorted(image) == list(range(len(image))),
                "the operation does not map the crystal onto itself",
                error=error,
            )
            want = transform_displacement(frac, rotation, image)
            if scale is None:
                scale = np.linalg.norm(d) / np.linalg.norm(want)
            close(
                d,
                want * scale,
                "the operation does not map the displacement onto its image",
                1e-6,
                1e-6 * np.abs(d).max(),
            )
        head = reported[0]
        for d in reported[1:]:
            need(
                cosine(d @ lattice, head @ lattice) < -1 + 1e-4,
                "a group is not collinear, or has duplicates",
            )
        for other in heads:
            need(
                abs(cosine(head @ lattice, other @ lattice)) < 1e-4,
                "groups are not orthogonal",
                cosine=cosine(head @ lattice, other @ lattice),
            )
        heads.append(head)
    close(
        groups[0]["displacements"][0],
        frac * scale,
        "the first displacement is not the given one",
        1e-6,
        1e-6 * np.abs(frac * scale).max(),
    )
    # nothing is missing
    for rotation, _, image in operations:
        want = transform_displacement(frac, rotation, image)
        cosines = [cosine(want @ lattice, h @ lattice) for h in heads]
        best = int(np.argmax(np.abs(cosines)))
        if abs(cosines[best]) > 1 - 1e-9:
            need(
                any(
                    cosine(want @ lattice, d @ lattice) > 1 - 1e-6
                    for d in groups[best]["displacements"]
                ),
                "an image of opposite sign is missing",
                cosine=cosines[best],
            )
        else:
            need(
                abs(cosines[best]) > 1e-7,
                "an image orthogonal to all groups is missing",
                cosines=cosines,
            )
    moving = np.flatnonzero(np.abs(frac).sum(axis=1))
    if len(moving) == 1:
        atoms = {int(image[moving[0]]) for _, _, image in operations}
        covered = {int(np.abs(h).sum(axis=1).argmax()) for h in heads}
        need(covered == atoms, "images on equivalent atoms", covered=covered, atoms=atoms)
    return len(groups)


def run(case):
    """Check one crystal."""
    crystal = case["crystal"]
    symprec = case["symprec"]
    operations = crystal_operations(crystal, symprec)
    assume(operations is not None)
    ref = ReferenceStructure(
        list(crystal["numbers"]),
        crystal["lattice"].copy(),
        crystal["positions"].copy(),
        symprec=symprec,
    )
    check_atoms(ref, crystal, operations)
    frac = make_displacement(case, operations)
    assume(clear_cut(crystal, operations, frac))
    tol = 0 if symprec == 1e-5 else symprec
    groups = check_displacements(ref, crystal, operations, frac, tol)
    # magnitude and queries before do not matter
    again = ref.get_equivalent_displacements(frac * 0.37)
    need(len(again) == groups, "magnitude matters")
    return groups > 1 or len(operations) > 2


@st.composite
def slabs(draw):
    """Strategy for elongated cells and displacements slightly off the axes."""
    ratio = draw(st.sampled_from([4.0, 20.0, 60.0]))
    a = draw(st.sampled_from([2.5, 3.0, 4.2, 6.0]))
    axis = draw(st.integers(0, 2))
    lengths = np.full(3, a)
    lengths[axis] *= ratio
    seed = draw(gens.SEEDS)
    rng = gens.rng_of(seed)
    positions = np.array([[0.0, 0, 0], [0.5, 0.5, 0.5]])
    direction = np.eye(3)[(axis + 1) % 3]
    tilt = draw(st.sampled_from([0.02, 0.04, 0.1, 0.3]))
    direction = direction + tilt * np.eye(3)[axis]
    return {
        "crystal": {
            "lattice": np.diag(lengths),
            "numbers": draw(st.sampled_from([[22, 22], [22, 8]])),
            "positions": (positions + rng.uniform(size=3)) % 1,
        },
        "symprec": 1e-5,
        "kind": "direction",
        "direction": direction,
        "seed": seed,
    }


RULE = "more than one group, or more than two operations"
sub("C09", "crystals", cases(), 700, 12000, RULE)(run)
sub("C09", "slabs", slabs(), 80, 800, RULE)(run)
sub("C09", "noisy", cases(noisy=True), 250, 3000, RULE)(run)


@sub("C09", "reordered", cases(), 200, 3000, "the crystal has more than one operation")
def reordered(case):
    """The same crystal in another order and origin has the same classes."""
    crystal = case["crystal"]
    operations = crystal_operations(crystal)
    assume(operations is not None)
    rng = gens.rng_of(case["seed"])
    order = rng.permutation(len(crystal["numbers"]))
    other = gens.permute(gens.shift(crystal, rng.uniform(size=3)), order)
    ref = ReferenceStructure(crystal["numbers"], crystal["lattice"], crystal["positions"])
    moved = ReferenceStructure(other["numbers"], other["lattice"], other["positions"])
    classes = {
        frozenset([int(k), *map(int, v)])
        for k, v in ref.get_equivalent_atom_dict().items()
    }
    there = {
        frozenset(int(order[i]) for i in [k, *v])
        for k, v in moved.get_equivalent_atom_dict().items()
    }
    need(classes == there, "classes of the reordered crystal", classes=classes, there=there)
    frac = make_displacement({**case, "kind": "direction"}, operations)
    a = ref.get_equivalent_displacements(frac)
    b = moved.get_equivalent_displacements(frac[order])
    cover = lambda groups: {
        tuple(np.flatnonzero(np.abs(g["displacements"][0]).sum(axis=1) > 1e-6))
        for g in groups
    }
    # sets of atoms on which the single-atom displacement has images
    need(
        cover(a) == {tuple(int(order[i]) for i in atoms) for atoms in cover(b)},
        "images in the reordered crystal",
    )
    return len(operations) > 1


@st.composite
def strained(draw):
    """Strategy for strained crystals and tolerances of the symmetry search."""
    crystal = draw(gens.crystals(max_atoms=10))
    rng = gens.rng_of(draw(gens.SEEDS))
    size = draw(st.sampled_from([0, 1e-4, 1e-3, 1e-2]))
    noise = rng.normal(size=(len(crystal["numbers"]), 3)) * size
    return {
        **crystal,
        "lattice": crystal["lattice"] @ (np.eye(3) + rng.normal(size=(3, 3)) * size),
        "positions": crystal["positions"] + noise @ np.linalg.inv(crystal["lattice"]),
        "tolerances": draw(
            st.fixed_dictionaries(
                {},
                optional={
                    "symprec": st.sampled_from([1e-5, 1e-3, 1e-2, 0.1, 0.3]),
                    "angle_tolerance": st.sampled_from([-1.0, 0.05, 1.0, 5.0]),
                },
            )
        ),
    }


@sub("C09", "tolerances", strained(), 250, 3000, "the default tolerances find less")
def tolerances(case):
    """The tolerances of the symmetry search are those asked for."""
    import spglib  # pylint: disable=import-outside-toplevel

    cell = (case["lattice"], case["positions"] % 1, case["numbers"])
    wanted = {"symprec": 1e-5, "angle_tolerance": -1.0, **case["tolerances"]}
    data = spglib.get_symmetry(cell, **wanted)
    assume(data is not None)
    ref = ReferenceStructure(
        list(case["numbers"]),
        case["lattice"].copy(),
        case["positions"].copy(),
        **case["tolerances"],
    )
    classes = {}
    for index, label in enumerate(data["equivalent_atoms"]):
        classes.setdefault(int(label), set()).add(index)
    found = {
        frozenset([int(k), *map(int, v)])
        for k, v in ref.get_equivalent_atom_dict().items()
    }
    need(
        found == {frozenset(c) for c in classes.values()},
        "equivalent atoms within the tolerances",
        found=found,
    )
    need(ref.num_nonequivalent_atoms == len(classes), "number of classes")
    strict = spglib.get_symmetry(cell, symprec=1e-5)
    return strict is not None and len(strict["rotations"]) < len(data["rotations"])


@st.composite
def crowds(draw):
    """Strategy for displacements of very many atoms, even or odd under an operation."""
    rng = gens.rng_of(draw(gens.SEEDS))
    half = draw(st.sampled_from([4, 30, 60, 100, 170]))
    signs = draw(st.sampled_from([(-1, -1, -1), (-1, -1, 1), (1, 1, -1)]))
    operation = np.diag(signs)
    length = 3.0 * (2 * half) ** (1 / 3)
    lattice = np.diag(length * np.array([1.0, 1.13, 0.91]))
    if operation.trace() == -3:
        lattice = lattice + rng.uniform(-0.1, 0.1, (3, 3)) * length
    first = rng.uniform(0.02, 0.48, (half, 3))
    positions = np.concatenate([first, (first @ operation) % 1])
    species = rng.choice([1, 8, 22], half)
    numbers = np.concatenate([species, species])
    if draw(st.booleans()):
        moves = rng.choice([-1.0, 1.0], (half, 3))  # all alike in size
    else:
        moves = rng.normal(size=(half, 3))
    parity = draw(st.sampled_from([1, -1]))
    moves = np.concatenate([moves, parity * moves @ operation])
    order = rng.permutation(2 * half)
    return {
        "crystal": {
            "lattice": lattice,
            "numbers": [int(z) for z in numbers[order]],
            "positions": positions[order],
        },
        "moves": moves[order] * draw(st.sampled_from([0.3, 1e-2, 1e-4])) / length,
    }


@sub("C09", "crowds", crowds(), 150, 1500, "more than a hundred atoms move")
def many_atoms(case):
    """Displacements that are spread over many atoms."""
    crystal = case["crystal"]
    operations = crystal_operations(crystal)
    assume(operations is not None)
    ref = ReferenceStructure(
        list(crystal["numbers"]), crystal["lattice"].copy(), crystal["positions"].copy()
    )
    check_atoms(ref, crystal, operations)
    assume(clear_cut(crystal, operations, case["moves"]))
    check_displacements(ref, crystal, operations, case["moves"], 0)
    return len(crystal["numbers"]) > 100
