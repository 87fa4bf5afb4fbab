"""C12: predictions transform as tensors under the crystal's symmetry."""

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

from rnv import gens
from rnv.checks.c09 import clear_cut, make_displacement
from rnv.core import close, need, sub
from rnv.oracle import (
    covariant_polarizability,
    cosine,
    crystal_operations,
    transform_displacement,
)


@st.composite
def cases(draw, max_atoms=10):
    """Strategy for a crystal, a displacement, and how it is given."""
    return {
        "crystal": draw(gens.crystals(max_atoms=max_atoms)),
        "kind": draw(st.sampled_from(["axis", "direction", "pair", "random"])),
        "direction": draw(gens.directions()),
        "order": draw(st.sampled_from([1, 1, 2, 3])),
        "include": draw(st.booleans()),
        "seed": draw(gens.SEEDS),
    }


def true_alpha(crystal, cart_displacement=None):
    """Return polarizability of the displaced crystal."""
    positions = crystal["positions"]
    if cart_displacement is not None:
        positions = positions + cart_displacement @ np.linalg.inv(crystal["lattice"])
    return covariant_polarizability(crystal["lattice"], positions, crystal["numbers"])


def reference(crystal):
    """Return reference structure."""
    return ReferenceStructure(
        list(crystal["numbers"]),
        crystal["lattice"].copy(),
        crystal["positions"].copy(),
    )


def images_of(crystal, operations, cart):
    """Return Cartesian images of a displacement."""
    lattice = crystal["lattice"]
    frac = cart @ np.linalg.inv(lattice)
    return [
        (rotation, transform_displacement(frac, rotation, image) @ lattice)
        for rotation, _, image in operations
    ]


def is_even(images, cart):
    """Return whether the opposite displacement is an image."""
    return any(cosine(image, cart) < -1 + 1e-9 for _, image in images)


def amplitudes_for(case, images, unit, include):
    """Return amplitudes that may be given, for the order wanted."""
    rng = gens.rng_of(case["seed"])
    need_points = case["order"] + 1 - include
    if is_even(images, unit):
        count = -(-need_points // 2)
        size = rng.permutation([0.02, 0.05, 0.08, 0.11])[:count]
        return size * rng.choice([1, -1], count)
    return rng.permutation([-0.1, -0.06, -0.03, 0.03, 0.05, 0.09])[:max(need_points, 1)]


@sub(
    "C12",
    "degrees of freedom",
    cases(),
    420,
    7000,
    "symmetry adds degrees of freedom or amplitudes",
)
def degrees_of_freedom(case):
    """The model has the crystal's true values on all it adds."""
    crystal = case["crystal"]
    operations = crystal_operations(crystal)
    assume(operations is not None)
    frac = make_displacement(case, operations)
    assume(clear_cut(crystal, operations, frac))
    cart = frac @ crystal["lattice"]
    unit = cart / np.linalg.norm(cart)
    images = images_of(crystal, operations, unit)
    amplitudes = amplitudes_for(case, images, unit, case["include"])
    alpha = true_alpha(crystal)
    polarizabilities = np.array([true_alpha(crystal, a * unit) for a in amplitudes])
    model = InterpolationModel(reference(crystal), alpha)
    model.add_dof(
        cart, amplitudes, polarizabilities, case["order"], case["include"]
    )
    basis = model.cart_basis_vectors
    scale = np.abs(polarizabilities - alpha).max() + 1e-3
    inverse = np.linalg.inv(crystal["lattice"])
    # what each degree of freedom adds at zero amplitude (if not pinned)
    rest = model.calc_polarizabilities(crystal["positions"][None])[0]
    if case["include"]:
        close(rest, alpha, "reference polarizability", 0, 1e-9 * np.abs(alpha).max())
    parent = [k for k, b in enumerate(basis) if abs(cosine(b, unit)) > 1 - 1e-9]
    need(len(parent) == 1, "the displacement itself is a degree of freedom")
    chosen = gens.rng_of(case["seed"]).permutation(len(images))[:6]
    cache = {}
    for number, (rotation, image) in enumerate(images):
        match = [k for k, b in enumerate(basis) if abs(cosine(b, image)) > 1 - 1e-9]
        need(len(match) <= 1, "degree of freedom added twice")
        if not match:
            continue  # neither orthogonal to nor collinear with those added
        q = crystal["lattice"].T @ rotation @ inverse.T
        for amplitude, polarizability in zip(amplitudes, polarizabilities):
            moved = crystal["positions"] + amplitude * image @ inverse
            found = model.calc_polarizabilities(moved[None])[0]
            if match[0] not in cache:
                cache[match[0]] = zeros(model, match[0], crystal, alpha)
            found = found - cache[match[0]]
            close(
                found,
                q @ polarizability @ q.T,
                "prediction for an equivalent displacement",
                0,
                1e-6 * scale + 1e-9 * np.abs(alpha).max(),
            )
            if number not in chosen:
                continue
            close(
                found,
                true_alpha(crystal, amplitude * image),
                "the material's value",
                0,
                1e-6 * scale + 1e-9 * np.abs(alpha).max(),
            )
    return len(operations) > 1 and (len(basis) > 1 or is_even(images, unit))


def zeros(model, index, crystal, alpha):
    """Return contribution of all other degrees of freedom at zero amplitude."""
    others = model.get_masked_model([index])
    alone = others.calc_polarizabilities(crystal["positions"][None])[0]
    return alone - alpha


@sub(
    "C12",
    "descriptions",
    cases(max_atoms=8),
    260,
    4000,
    "the crystal has more than one operation",
)
def descriptions(case):
    """The same crystal described otherwise gives transformed predictions."""
    crystal = case["crystal"]
    rng = gens.rng_of(case["seed"])
    operations = crystal_operations(crystal)
    assume(operations is not None)
    frac = make_displacement(case, operations)
    assume(clear_cut(crystal, operations, frac))
    cart = frac @ crystal["lattice"]
    unit = cart / np.linalg.norm(cart)
    images = images_of(crystal, operations, unit)
    flat = np.array([image.ravel() for _, image in images])
    overlaps = np.abs(flat @ flat.T)
    # otherwise, which images are added is a matter of choice
    assume(np.all((overlaps < 1e-7) | (overlaps > 1 - 1e-7)))
    amplitudes = amplitudes_for(case, images, unit, case["include"])

    n = len(crystal["numbers"])
    order = rng.permutation(n) if rng.uniform() < 0.7 else np.arange(n)
    q = gens.rotation(rng, improper=rng.uniform() < 0.3)
    if rng.uniform() < 0.3:
        q = np.eye(3)
    other = crystal
    if rng.uniform() < 0.6:
        other = gens.change_basis(
            other, gens.UNIMODULAR[rng.integers(0, len(gens.UNIMODULAR))]
        )
    origin = rng.uniform(size=3) * (rng.uniform() < 0.6)
    other = gens.rotate(gens.permute(gens.shift(other, origin), order), q)

    alpha = true_alpha(crystal)
    polarizabilities = np.array([true_alpha(crystal, a * unit) for a in amplitudes])
    model = InterpolationModel(reference(crystal), alpha)
    model.add_dof(cart, amplitudes, polarizabilities, case["order"], case["include"])
    second = InterpolationModel(reference(other), q @ alpha @ q.T)
    second.add_dof(
        cart[order] @ q.T,
        amplitudes,
        q @ polarizabilities @ q.T,
        case["order"],
        case["include"],
    )
    displacements = rng.normal(size=(4, n, 3)) * 0.03
    displacements[0] = 0.05 * images[-1][1]
    found = model.calc_polarizabilities(
        crystal["positions"] + displacements @ np.linalg.inv(crystal["lattice"])
    )
    there = second.calc_polarizabilities(
        other["positions"]
        + displacements[:, order] @ q.T @ np.linalg.inv(other["lattice"])
    )
    need(
        len(model.cart_basis_vectors) == len(second.cart_basis_vectors),
        "number of degrees of freedom",
    )
    close(
        there,
        q @ found @ q.T,
        "prediction of the crystal described otherwise",
        0,
        1e-6 * (np.abs(found - alpha).max() + np.abs(alpha).max() * 1e-3),
    )
    return len(operations) > 1


@sub(
    "C12",
    "complete models",
    cases(max_atoms=6),
    160,
    2000,
    "the model is complete and the crystal has more than two operations",
)
def complete(case):
    """Complete ART models give the linear response of the material."""
    crystal = case["crystal"]
    rng = gens.rng_of(case["seed"])
    operations = crystal_operations(crystal)
    assume(operations is not None)
    n = len(crystal["numbers"])
    alpha = true_alpha(crystal)
    model = ARTModel(reference(crystal), alpha)
    h = 0.002
    for atom in range(n):
        for _ in range(3):
            taken = np.array(
                [
                    b[atom]
                    for b in model.cart_basis_vectors
                    if np.linalg.norm(b[atom]) > 1e-3
                ]
            ).reshape(-1, 3)
            if len(taken) >= 3:
                break
            choice = rng.integers(0, 3)
            if choice == 0:
                direction = crystal["lattice"][rng.integers(0, 3)]
            elif choice == 1:
                direction = np.array(
                    gens.DIRECTIONS[rng.integers(0, len(gens.DIRECTIONS))], dtype=float
                )
            else:
                direction = rng.normal(size=3)
            direction = direction / np.linalg.norm(direction)
            direction = direction - taken.T @ (taken @ direction)
            if np.linalg.norm(direction) < 0.05:
                direction = rng.normal(size=3)
                direction = direction - taken.T @ (taken @ direction)
            direction = direction / np.linalg.norm(direction)
            unit = np.zeros((n, 3))
            unit[atom] = direction
            frac = unit @ np.linalg.inv(crystal["lattice"])
            assume(clear_cut(crystal, operations, frac))
            amplitudes = np.array(
                [h] if is_even(images_of(crystal, operations, unit), unit) else [-h, h]
            )
            polarizabilities = np.array(
                [true_alpha(crystal, a * unit) for a in amplitudes]
            )
            model.add_art(atom, direction, amplitudes, polarizabilities)
    basis = np.array(model.cart_basis_vectors).reshape(-1, 3 * n)
    close(
        basis @ basis.T,
        np.eye(len(basis)),
        "degrees of freedom are not orthonormal",
        0,
        1e-4,
    )
    need(len(basis) <= 3 * n, "more degrees of freedom than coordinates", n=len(basis))
    assume(len(basis) == 3 * n)
    inverse = np.linalg.inv(crystal["lattice"])
    for _ in range(3):
        d = rng.normal(size=(n, 3))
        d = d / np.linalg.norm(d) * h
        batch = np.array(
            [crystal["positions"] + d @ inverse, crystal["positions"] - d @ inverse]
        )
        plus, minus = model.calc_polarizabilities(batch)
        want = (true_alpha(crystal, d) - true_alpha(crystal, -d)) / 2
        close(
            (plus - minus) / 2,
            want,
            "linear response of the material",
            0,
            2e-3 * max(np.abs(want).max(), h),
        )
    return len(operations) > 2
