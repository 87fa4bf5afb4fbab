"""C11: interpolation models reproduce their data and sum contributions."""

import numpy as np
from hypothesis import assume

from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure

from rnv import gens, models
from rnv.core import close, need, same, sub


def build(case, order=None):
    """Return model."""
    structure = case["structure"]
    ref = ReferenceStructure(
        list(structure["numbers"]),
        structure["lattice"].copy(),
        structure["positions"].copy(),
    )
    assume(models.is_general(ref))
    model = InterpolationModel(ref, case["alpha"].copy())
    for index in order if order is not None else range(len(case["dofs"])):
        models.add(model, case["dofs"][index])
    return model


def configurations(case, count, rng):
    """Return (amplitudes, Cartesian displacements) of arbitrary configurations."""
    lattice = case["structure"]["lattice"]
    units = np.array([dof["unit"] for dof in case["dofs"]])
    flat = units.reshape(len(units), -1)
    n = units.shape[1]
    amplitudes, displacements = [], []
    for _ in range(count):
        a = np.array(
            [
                rng.uniform(-1.3, 1.3) * np.abs(dof["amplitudes"]).max()
                for dof in case["dofs"]
            ]
        ) * (rng.uniform(size=len(units)) < 0.8)
        d = np.einsum("j,jik->ik", a, units)
        if case["outside"]:
            other = rng.normal(size=(n, 3)).ravel()
            other -= flat.T @ (flat @ other)
            norm = np.linalg.norm(other)
            if norm > 1e-3:
                d = d + (other / norm).reshape(n, 3) * rng.choice([0.01, 0.1])
        frac = np.abs(d @ np.linalg.inv(lattice)).max()
        if frac > 0.45:
            d, a = d * 0.45 / frac, a * 0.45 / frac
        amplitudes.append(flat @ d.ravel())
        displacements.append(d)
    return np.array(amplitudes).reshape(count, len(units)), np.array(displacements).reshape(
        count, n, 3
    )


def expected(case, amplitudes):
    """Return predictions by the definition, and their scale."""
    functions = [models.dof_function(dof, case["alpha"]) for dof in case["dofs"]]
    result, scale = [], 1.0
    for one in amplitudes:
        terms = [f(a) for f, a in zip(functions, one)]
        result.append(case["alpha"] + sum(terms))
        scale = max(scale, max(np.abs(t).max() for t in terms))
    return np.array(result).reshape(len(amplitudes), 3, 3), scale


@sub(
    "C11",
    "predictions",
    models.model_cases(),
    900,
    12000,
    "at least two degrees of freedom or four points",
)
def predictions(case):
    """Arbitrary configurations."""
    rng = gens.rng_of(case["seed"])
    model = build(case)
    lattice = case["structure"]["lattice"]
    positions = case["structure"]["positions"]
    inverse = np.linalg.inv(lattice)
    need(len(model.cart_basis_vectors) == len(case["dofs"]), "degrees of freedom")
    for basis, dof in zip(model.cart_basis_vectors, case["dofs"]):
        close(basis, dof["unit"] * np.sign(dof["scale"]), "basis vector", 1e-9, 1e-9)

    # the data
    for j, dof in enumerate(case["dofs"]):
        sign = np.sign(dof["scale"])
        batch = positions + np.einsum(
            "s,ij->sij", sign * dof["amplitudes"], dof["unit"] @ inverse
        )
        want = dof["polarizabilities"].copy()
        for k, other in enumerate(case["dofs"]):
            if k != j:  # all zero if the reference is included everywhere
                want = want + models.dof_function(other, case["alpha"])(0.0)
        close(
            model.calc_polarizabilities(batch),
            want,
            "supplied polarizability",
            1e-6,
            1e-6 * max(1, np.abs(want).max()),
            dof=j,
        )
    if all(dof["include"] for dof in case["dofs"]):
        close(
            model.calc_polarizabilities(positions[None])[0],
            case["alpha"],
            "reference polarizability",
            1e-8,
            1e-8,
        )

    # arbitrary configurations
    amplitudes, displacements = configurations(case, case["batch"], rng)
    batch = positions + displacements @ inverse
    copy = batch.copy()
    found = model.calc_polarizabilities(batch)
    want, scale = expected(case, amplitudes)
    close(found, want, "prediction", 1e-6, 1e-7 * scale)
    same(batch, copy, "positions were modified")
    # one at a time, reversed, and translated
    for i in range(len(batch)):
        close(
            model.calc_polarizabilities(batch[i : i + 1])[0],
            found[i],
            "depends on the batch",
            1e-9,
            1e-10 * scale,
        )
    if len(batch):
        close(
            model.calc_polarizabilities(batch[::-1]),
            found[::-1],
            "depends on the order in the batch",
            1e-9,
            1e-10 * scale,
        )
        moved = batch + rng.integers(-2, 3, batch.shape)
        close(
            model.calc_polarizabilities(moved),
            found,
            "depends on lattice translations",
            1e-7,
            1e-8 * scale,
        )
    same(model.calc_polarizabilities(batch), found, "repeated prediction differs")
    return len(case["dofs"]) > 1 or len(case["dofs"][0]["amplitudes"]) > 3


@sub(
    "C11",
    "order of additions",
    models.model_cases(max_dofs=5),
    400,
    5000,
    "at least two degrees of freedom",
)
def order_of_additions(case):
    """Degrees of freedom may be added in any order."""
    rng = gens.rng_of(case["seed"])
    order = rng.permutation(len(case["dofs"]))
    model, other = build(case), build(case, order)
    positions = case["structure"]["positions"]
    _, displacements = configurations(case, 4, rng)
    batch = positions + displacements @ np.linalg.inv(case["structure"]["lattice"])
    found = model.calc_polarizabilities(batch)
    close(
        other.calc_polarizabilities(batch),
        found,
        "depends on the order of additions",
        1e-8,
        1e-9 * max(1, np.abs(found).max()),
    )
    # contributions add: one model per degree of freedom
    total = np.zeros_like(found) + case["alpha"]
    for index in range(len(case["dofs"])):
        alone = build(case, [index])
        total += alone.calc_polarizabilities(batch) - case["alpha"]
    close(
        total,
        found,
        "contributions do not add up",
        1e-8,
        1e-9 * max(1, np.abs(found).max(), np.abs(total).max()),
    )
    return len(case["dofs"]) > 1
