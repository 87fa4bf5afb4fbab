"""Generators of lattices, positions, structures, and crystals.

Discrete choices are drawn by Hypothesis (and so shrink); bulk floats come from a
numpy generator seeded by a drawn integer.
"""

import functools

import numpy as np
import spglib
from hypothesis import strategies as st

SEEDS = st.integers(0, 2**32 - 1)

# fractional coordinates that sit on or next to a boundary
SPECIAL = np.array(
    [0.0, 1.0, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, 1e-17, 1e-9, 1 - 1e-9, 1 - 2**-53, 0.125]
)


def rng_of(seed):
    """Return numpy generator."""
    return np.random.default_rng(seed)


def rotation(rng, improper=False):
    """Return random rotation matrix."""
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if (np.linalg.det(q) < 0) != improper:
        q[:, 0] *= -1
    return q


LATTICE_KINDS = [
    "cubic",
    "orthorhombic",
    "hexagonal",
    "triclinic",
    "skewed",
    "lefthanded",
    "rotated",
    "small",
    "large",
]


def make_lattice(kind, rng):
    """Return lattice, rows are vectors in angstrom."""
    a, b, c = rng.uniform(3, 9, 3)
    if kind == "cubic":
        return np.eye(3) * a
    if kind == "orthorhombic":
        return np.diag([a, b, c])
    if kind == "hexagonal":
        return np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]])
    if kind == "triclinic":
        return np.diag([a, b, c]) + rng.uniform(-1.5, 1.5, (3, 3))
    if kind == "skewed":
        base = np.diag([a, b, c])
        shear = np.eye(3)
        shear[1, 0] = rng.integers(-2, 3)
        shear[2, 1] = rng.integers(-2, 3)
        shear[2, 0] = rng.integers(-1, 2)
        return (shear + rng.uniform(-0.1, 0.1, (3, 3))) @ base
    if kind == "lefthanded":
        lattice = np.diag([a, b, c]) + rng.uniform(-1, 1, (3, 3))
        return lattice[[1, 0, 2]]
    if kind == "rotated":
        return make_lattice("triclinic", rng) @ rotation(rng)
    if kind == "small":
        return (np.eye(3) + rng.uniform(-0.2, 0.2, (3, 3))) * rng.uniform(0.4, 1.2)
    if kind == "large":
        return (np.eye(3) + rng.uniform(-0.2, 0.2, (3, 3))) * rng.uniform(80, 200)
    raise ValueError(kind)


@st.composite
def lattices(draw, kinds=tuple(LATTICE_KINDS)):
    """Strategy for lattices."""
    return make_lattice(draw(st.sampled_from(list(kinds))), rng_of(draw(SEEDS)))


def make_positions(rng, shape, special=0.3):
    """Return positions in [0,1], some on boundaries."""
    positions = rng.uniform(0, 1, shape)
    mask = rng.uniform(0, 1, shape) < special
    return np.where(mask, rng.choice(SPECIAL, shape), positions)


SIMILAR_SYMBOLS = [
    (7, 11),
    (11, 7),
    (16, 14),
    (14, 16),
    (6, 20),
    (27, 8),
    (27, 6),
    (5, 56),
    (1, 2),
    (53, 22),
    (92, 71),
]


@st.composite
def species(draw, max_types=4, max_count=4, min_atoms=1):
    """Strategy for grouped atomic numbers."""
    numbers = draw(
        st.lists(
            st.one_of(st.sampled_from([1, 2, 8, 16, 22, 38, 118]), st.integers(1, 118)),
            min_size=1,
            max_size=max_types,
            unique=True,
        )
    )
    if len(numbers) > 1 and draw(st.integers(0, 4)) == 0:
        # one symbol begins or ends with the other
        pair = draw(st.sampled_from(SIMILAR_SYMBOLS))
        numbers = [*pair, *(k for k in numbers[2:] if k not in pair)]
    result = []
    for number in numbers:
        result += [number] * draw(st.integers(1, max_count))
    while len(result) < min_atoms:
        result.append(result[-1])
    return result


@st.composite
def structures(draw, max_types=4, max_count=4, kinds=tuple(LATTICE_KINDS), special=0.3):
    """Strategy for structures without symmetry in mind."""
    numbers = draw(species(max_types, max_count))
    lattice = draw(lattices(kinds))
    rng = rng_of(draw(SEEDS))
    positions = make_positions(rng, (len(numbers), 3), special)
    return {"lattice": lattice, "numbers": numbers, "positions": positions}


def well_separated(lattice, positions, minimum=0.6):
    """Return whether no two atoms (including images) are too close."""
    d = positions[:, None] - positions[None]
    d = d - np.rint(d)
    shifts = np.array(
        [[i, j, k] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]
    )
    r = np.linalg.norm((d[:, :, None] + shifts) @ lattice, axis=-1)
    n = len(positions)
    r[np.arange(n), np.arange(n), 13] = np.inf
    return r.min() > minimum


def separated_positions(rng, lattice, n, minimum=0.6, tries=50):
    """Return generic positions that are not too close."""
    for _ in range(tries):
        positions = rng.uniform(0, 1, (n, 3))
        if well_separated(lattice, positions, minimum):
            return positions
    # fall back on a perturbed grid
    m = int(np.ceil(n ** (1 / 3)))
    grid = np.array(
        [[i, j, k] for i in range(m) for j in range(m) for k in range(m)], dtype=float
    )
    grid = (grid + 0.5) / m
    return grid[:n] + rng.uniform(-0.1, 0.1, (n, 3)) / m


# --------------------------------------------------------------------------
# crystals from space groups
# --------------------------------------------------------------------------


@functools.lru_cache(maxsize=None)
def hall_operations(hall):
    """Return rotations and translations of a Hall setting."""
    data = spglib.get_symmetry_from_database(hall)
    return np.array(data["rotations"]), np.array(data["translations"])


def _wrap(x):
    x = x - np.floor(x)
    return np.where(np.isclose(x, 1, atol=1e-9), 0.0, x)


def _orbit(x, rotations, translations):
    images = _wrap(np.einsum("aij,j->ai", rotations, x) + translations)
    orbit = []
    for image in images:
        if not orbit:
            orbit.append(image)
            continue
        d = np.array(orbit) - image
        d -= np.rint(d)
        if not (np.abs(d) < 1e-6).all(axis=1).any():
            orbit.append(image)
    return np.array(orbit)


def _special_point(rng, rotations, translations):
    """Return random point on a random symmetry element (or a general one)."""
    mode = rng.integers(0, 4)
    if mode == 0:
        x = rng.choice([0, 0.25, 0.5, 0.75, 1 / 3, 2 / 3, 0.125], 3)
    else:
        x = rng.uniform(0, 1, 3)
    for _ in range(mode):
        k = rng.integers(0, len(rotations))
        a = rotations[k] - np.eye(3)
        shift = rng.integers(-1, 2, 3)
        y, *_ = np.linalg.lstsq(a, shift - translations[k] - a @ x, rcond=None)
        if np.allclose(a @ (x + y), shift - translations[k], atol=1e-9):
            x = x + y
    return _wrap(x)


def crystal_from_hall(hall, seed, max_atoms=12):
    """Return crystal with at least the symmetry of a Hall setting, or None."""
    rng = rng_of(seed)
    rotations, translations = hall_operations(hall)

    # random metric, averaged over the point group
    g0 = make_lattice("triclinic", rng)
    g0 = g0 @ g0.T
    g = np.mean([r.T @ g0 @ r for r in rotations], axis=0)
    lattice = np.linalg.cholesky(g)

    numbers, positions = [], []
    pool = rng.permutation([1, 3, 8, 14, 22, 31, 47])
    wanted = rng.integers(1, 4)
    for _ in range(40):
        if len(set(numbers)) >= wanted:
            break
        orbit = _orbit(
            _special_point(rng, rotations, translations), rotations, translations
        )
        if len(orbit) + len(positions) > max_atoms:
            continue
        trial = np.array(positions + list(orbit))
        if not well_separated(lattice, trial, 1e-2 * np.linalg.det(lattice) ** (1 / 3)):
            continue
        kind = int(pool[len(set(numbers))])
        numbers += [kind] * len(orbit)
        positions = list(trial)
    if not positions:
        return None
    positions = np.array(positions)
    # about 12 cubic angstrom per atom, and atoms at least 1.2 angstrom apart
    scale = (12 * len(numbers) / np.linalg.det(lattice)) ** (1 / 3)
    lattice = lattice * scale
    for _ in range(8):
        if well_separated(lattice, positions, 1.2):
            break
        lattice = lattice * 1.3
    else:
        return None
    if np.linalg.det(lattice) > 3000:
        return None
    return {"lattice": lattice, "numbers": numbers, "positions": positions}


def molecule_from_hall(hall, seed, max_atoms=12):
    """Return a cluster with at least the point group of a setting, in a large cell."""
    rng = rng_of(seed)
    rotations = np.unique(hall_operations(hall)[0], axis=0)
    none = np.zeros((len(rotations), 3))
    g0 = make_lattice("triclinic", rng)
    g0 = g0 @ g0.T
    lattice = np.linalg.cholesky(np.mean([r.T @ g0 @ r for r in rotations], axis=0))
    size = np.linalg.det(lattice) ** (1 / 3)
    numbers, vectors = [], []
    pool = rng.permutation([1, 3, 8, 14, 22, 31, 47])
    wanted = rng.integers(1, 4)
    for _ in range(40):
        if len(set(numbers)) >= wanted:
            break
        x = rng.uniform(-0.2, 0.2, 3)
        for _ in range(rng.integers(0, 3)):  # onto a symmetry element
            a = rotations[rng.integers(0, len(rotations))] - np.eye(3)
            x = x - np.linalg.lstsq(a, a @ x, rcond=None)[0]
        orbit = _orbit(x, rotations, none)
        orbit = orbit - np.rint(orbit)
        trial = np.array(vectors + list(orbit))
        if len(trial) > max_atoms or not well_separated(lattice, trial, 0.02 * size):
            continue
        numbers += [int(pool[len(set(numbers))])] * len(orbit)
        vectors = list(trial)
    if not vectors:
        return None
    vectors = np.array(vectors)
    # atoms about 1.3 to 2 angstrom apart, in a cell of 20 to 45 angstrom
    d = np.linalg.norm((vectors[:, None] - vectors) @ lattice, axis=-1)
    nearest = d[~np.eye(len(d), dtype=bool)].min() if len(d) > 1 else size / 10
    factor = rng.uniform(1.3, 2) / nearest
    box = max(rng.uniform(20, 45) / size, factor)
    if box * size > 90:
        return None
    positions = _wrap(0.5 + vectors * factor / box)
    return {"lattice": lattice * box, "numbers": numbers, "positions": positions}


UNIMODULAR = [
    np.eye(3, dtype=int),
    np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]]),
    np.array([[1, 0, 0], [0, 1, -1], [0, 0, 1]]),
    np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]),
    np.array([[1, 0, 1], [0, 1, 0], [0, 0, 1]]),
    np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]]),
    np.array([[1, 1, 0], [0, 1, 1], [0, 0, 1]]),
]


def change_basis(crystal, m):
    """Describe a crystal with lattice vectors m @ lattice (det m = +-1)."""
    return {
        "lattice": m @ crystal["lattice"],
        "numbers": list(crystal["numbers"]),
        "positions": _wrap(crystal["positions"] @ np.linalg.inv(m)),
    }


def supercell(crystal, axis, n=2):
    """Repeat a crystal along an axis (atoms stay grouped by species)."""
    lattice = crystal["lattice"].copy()
    lattice[axis] *= n
    numbers, positions = [], []
    for number, position in zip(crystal["numbers"], crystal["positions"]):
        for i in range(n):
            p = position.copy()
            p[axis] = (p[axis] + i) / n
            numbers.append(number)
            positions.append(p)
    return {"lattice": lattice, "numbers": numbers, "positions": np.array(positions)}


def permute(crystal, order):
    """Reorder the atoms of a crystal."""
    return {
        "lattice": crystal["lattice"],
        "numbers": [crystal["numbers"][i] for i in order],
        "positions": crystal["positions"][order],
    }


def rotate(crystal, q):
    """Rotate a crystal rigidly (q maps Cartesian columns)."""
    return {**crystal, "lattice": crystal["lattice"] @ q.T}


def shift(crystal, t):
    """Move the origin."""
    return {**crystal, "positions": _wrap(crystal["positions"] + t)}


# Hall numbers with few operations, and a few with many, per crystal system
HALLS_BY_SYSTEM = {
    "triclinic": [1, 2],
    "monoclinic": list(range(3, 108)),
    "orthorhombic": list(range(108, 349)),
    "tetragonal": list(range(349, 430)),
    "trigonal": list(range(430, 462)),
    "hexagonal": list(range(462, 489)),
    "cubic": list(range(489, 531)),
}


@st.composite
def crystals(draw, max_atoms=10, systems=tuple(HALLS_BY_SYSTEM), transform=True):
    """Strategy for symmetric crystals in all kinds of descriptions."""
    crystal = None
    for _ in range(6):
        system = draw(st.sampled_from(list(systems)))
        hall = draw(st.sampled_from(HALLS_BY_SYSTEM[system]))
        seed = draw(SEEDS)
        if draw(st.integers(0, 6)) == 6:
            crystal = molecule_from_hall(hall, seed, max_atoms)
        else:
            crystal = crystal_from_hall(hall, seed, max_atoms)
        if crystal is not None:
            break
    if crystal is None:
        hall = 489
        crystal = {
            "lattice": np.eye(3) * 3.9,
            "numbers": [38, 22, 8, 8, 8],
            "positions": np.array(
                [[0, 0, 0], [0.5] * 3, [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]]
            ),
        }
    if len(set(crystal["numbers"])) > 1 and draw(st.integers(0, 2)) == 0:
        # inequivalent atoms of one species
        kinds = sorted(set(crystal["numbers"]))
        old, new = kinds[0], kinds[-1]
        crystal = {
            **crystal,
            "numbers": [new if n == old else n for n in crystal["numbers"]],
        }
    if transform:
        rng = rng_of(draw(SEEDS))
        if draw(st.booleans()):
            crystal = change_basis(crystal, draw(st.sampled_from(UNIMODULAR)))
        if len(crystal["numbers"]) <= max_atoms // 2 and draw(st.integers(0, 3)) == 0:
            crystal = supercell(crystal, draw(st.integers(0, 2)))
        if draw(st.booleans()):
            crystal = shift(crystal, rng.uniform(0, 1, 3))
        if draw(st.booleans()):
            crystal = permute(crystal, rng.permutation(len(crystal["numbers"])))
        if draw(st.booleans()):
            crystal = rotate(crystal, rotation(rng))
    return {**crystal, "hall": hall}


DIRECTIONS = [
    [1, 0, 0],
    [0, 1, 0],
    [0, 0, 1],
    [1, 1, 0],
    [1, -1, 0],
    [1, 1, 1],
    [0, 1, 1],
    [1, 2, 3],
]


@st.composite
def directions(draw):
    """Strategy for Cartesian directions of assorted magnitude."""
    if draw(st.booleans()):
        direction = np.array(draw(st.sampled_from(DIRECTIONS)), dtype=float)
    else:
        direction = rng_of(draw(SEEDS)).normal(size=3)
    sign = draw(st.sampled_from([1.0, -1.0]))
    if draw(st.integers(0, 4)) == 0:  # almost normalised
        off = draw(st.sampled_from([0.0, 1e-6, 6e-4, -6e-4]))
        return direction * sign * (1 + off) / np.linalg.norm(direction)
    return direction * sign * draw(st.sampled_from([1.0, 0.01, 0.5, 7.0, 40.0]))
