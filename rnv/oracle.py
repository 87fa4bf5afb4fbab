"""Independent reference computations."""

import numpy as np

from rnv.core import need

H_EV_S = 4.135667696e-15
C_CM_S = 29979245800.0
K_EV_K = 8.617333262e-5


def wrap_distance(a, b):
    """Return elementwise distance of fractional coordinates on the unit circle."""
    d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
    return np.abs(d - np.rint(d))


def close_mod1(actual, expected, message, atol=1e-12):
    """Raise Violation unless equal up to lattice translations."""
    actual, expected = np.asarray(actual), np.asarray(expected)
    need(
        actual.shape == expected.shape,
        f"{message}: shape",
        actual=actual.shape,
        expected=expected.shape,
    )
    if actual.size == 0:
        return
    error = wrap_distance(actual, expected)
    need(
        np.all(np.isfinite(actual)) and error.max() <= atol,
        message,
        error=error.max(),
        actual=actual,
        expected=expected,
    )


def in_unit_interval(array, message):
    """Raise Violation unless all values are in [0,1]."""
    array = np.asarray(array)
    need(np.all(array >= 0) and np.all(array <= 1), message, array=array)


def minimum_image(d):
    """Return components in (-1/2, 1/2]."""
    d = np.asarray(d, dtype=float)
    return d - np.ceil(d - 0.5)


# --------------------------------------------------------------------------
# crystals
# --------------------------------------------------------------------------


def atom_map(lattice, positions, numbers, rotation, translation):
    """Return (image index of each atom, largest mismatch in angstrom)."""
    positions = np.asarray(positions)
    images = positions @ np.asarray(rotation).T + translation
    d = positions[None] - images[:, None]
    d = d - np.rint(d)
    r = np.linalg.norm(d @ lattice, axis=-1)
    numbers = np.asarray(numbers)
    r = np.where(numbers[None] == numbers[:, None], r, np.inf)
    image = r.argmin(axis=1)
    return image, r[np.arange(len(image)), image].max()


def crystal_operations(crystal, symprec=1e-5):
    """Return [(rotation, translation, atom image)] according to spglib."""
    import spglib  # pylint: disable=import-outside-toplevel

    data = spglib.get_symmetry(
        (crystal["lattice"], crystal["positions"] % 1, crystal["numbers"]), symprec
    )
    result = []
    for rotation, translation in zip(data["rotations"], data["translations"]):
        image, error = atom_map(
            crystal["lattice"],
            crystal["positions"],
            crystal["numbers"],
            rotation,
            translation,
        )
        if sorted(image) != list(range(len(image))) or error > 3 * symprec + 1e-6:
            return None  # ambiguous
        result.append((rotation, translation, image))
    return result


def transform_displacement(displacement, rotation, image):
    """Return the displacement carried along by a symmetry operation."""
    result = np.zeros_like(displacement)
    result[image] = displacement @ np.asarray(rotation).T
    return result


def cosine(a, b):
    """Return cosine of the angle between two arrays."""
    a, b = np.asarray(a).flatten(), np.asarray(b).flatten()
    return float(a @ b / np.linalg.norm(a) / np.linalg.norm(b))


def covariant_polarizability(lattice, positions, numbers, reach=9.0):
    """Return a polarizability obeying every symmetry of the structure.

    A sum over pairs (bond polarizabilities, decaying within a few angstrom) and of
    products of per-atom vectors, which is not symmetric.
    """
    positions = np.asarray(positions)
    weight = 0.4 + 0.03 * np.asarray(numbers, dtype=float)
    heights = 1 / np.linalg.norm(np.linalg.inv(lattice), axis=0)
    counts = np.ceil(reach / heights).astype(int) + 1
    axes = [np.arange(-c, c + 1) for c in counts]
    images = np.stack(np.meshgrid(*axes, indexing="ij"), -1).reshape(-1, 3) @ lattice
    d = positions[None] - positions[:, None]
    d = (d - np.rint(d)) @ lattice
    d = d[:, :, None] + images
    r2 = np.einsum("ijkx,ijkx->ijk", d, d)
    w = np.exp(-r2 / 4) * (r2 > 1e-8)
    pair = w * weight[:, None, None] * weight[None, :, None]
    result = np.einsum("ijk,ijkx,ijky->xy", pair, d, d) + 0.3 * pair.sum() * np.eye(3)
    u = np.einsum("ijk,ijkx->ix", w * weight[None, :, None], d)
    v = np.einsum("ijk,ijkx->ix", w * r2 * weight[None, :, None] ** 2, d)
    return result + 0.7 * np.einsum("i,ix,iy->xy", weight, u, v)
