"""Generators and oracles shared by checks of polarizability models."""

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline, make_interp_spline

from rnv import gens


@st.composite
def low_symmetry(draw, max_types=4, max_count=3):
    """Strategy for structures in which atoms are in general positions."""
    numbers = draw(gens.species(max_types, max_count, min_atoms=3))
    lattice = draw(gens.lattices())
    rng = gens.rng_of(draw(gens.SEEDS))
    positions = gens.separated_positions(rng, lattice, len(numbers), 0.05)
    length = np.linalg.norm(lattice, axis=1).min()
    assume(gens.well_separated(lattice, positions, 0.02 * length))
    if draw(st.integers(0, 5)) == 0:
        positions = positions + rng.integers(-2, 3, positions.shape)
    return {"lattice": lattice, "numbers": numbers, "positions": positions}


def is_general(ref):
    """Return whether a structure has no symmetry (that displacements can tell)."""
    rng = np.random.default_rng(5)
    probe = rng.uniform(-0.1, 0.1, (ref.num_atoms, 3))
    groups = ref.get_equivalent_displacements(probe)
    return len(groups) == 1 and len(groups[0]["displacements"]) == 1


def orthonormal(rng, n, count, kind):
    """Return orthonormal displacements with shape (count,n,3)."""
    if kind == "atoms":
        q = rotations_per_atom(rng, n)
        q = q[rng.permutation(3 * n)]
    elif kind == "axes":
        q = np.eye(3 * n)[rng.permutation(3 * n)]
    else:
        q, _ = np.linalg.qr(rng.normal(size=(3 * n, 3 * n)))
        q = q.T
    return q[:count].reshape(-1, n, 3)


def rotations_per_atom(rng, n):
    """Return orthonormal basis of displacements of single atoms."""
    q = np.zeros((3 * n, n, 3))
    for i in range(n):
        q[3 * i : 3 * i + 3, i] = gens.rotation(rng)
    return q.reshape(3 * n, 3 * n)


def reach_of(unit, lattice, limit=0.3):
    """Return largest amplitude with fractional displacements below a limit."""
    return limit / np.abs(unit @ np.linalg.inv(lattice)).max()


def spline(xs, ys, order):
    """Return function interpolating tensors ys at xs (independent of the library)."""
    xs, ys = np.array(xs, dtype=float), np.array(ys, dtype=float)
    index = np.argsort(xs)
    xs, ys = xs[index], ys[index]
    if order == 1:

        def linear(x):
            k = int(np.clip(np.searchsorted(xs, x) - 1, 0, len(xs) - 2))
            t = (x - xs[k]) / (xs[k + 1] - xs[k])
            return ys[k] * (1 - t) + ys[k + 1] * t

        return linear
    if len(xs) == order + 1:

        def polynomial(x):
            total = np.zeros_like(ys[0])
            for i, xi in enumerate(xs):
                others = np.delete(xs, i)
                total = total + ys[i] * np.prod((x - others) / (xi - others))
            return total

        return polynomial
    if order == 3:
        cubic = CubicSpline(xs, ys, bc_type="not-a-knot")
        return lambda x: cubic(x)
    other = make_interp_spline(xs, ys, k=order)
    return lambda x: other(x)


def symmetric(rng, shape=(), scale=1.0):
    """Return random symmetric tensors."""
    a = rng.normal(size=(*shape, 3, 3)) * scale
    return a + np.swapaxes(a, -1, -2)


@st.composite
def model_cases(draw, max_dofs=4):
    """Strategy for a structure without symmetry and degrees of freedom for it."""
    structure = draw(low_symmetry())
    lattice = structure["lattice"]
    n = len(structure["numbers"])
    rng = gens.rng_of(draw(gens.SEEDS))
    kind = draw(st.sampled_from(["random", "atoms", "axes"]))
    count = draw(st.integers(1, max_dofs))
    units = orthonormal(rng, n, count, kind)
    symmetric_only = draw(st.booleans())
    dofs = []
    for unit in units:
        order = draw(st.sampled_from([1, 1, 2, 3, 4, 5]))
        include = draw(st.booleans())
        points = draw(st.integers(0, 3)) + order + 1 - include
        points = max(points, 1)
        reach = reach_of(unit, lattice, 0.4)
        size = min(reach, draw(st.sampled_from([0.05, 0.2, 1.0, 1e9])))
        # distinct amplitudes at least 0.06 * size apart and away from zero
        grid = np.linspace(-1, 1, 18) + rng.uniform(-0.02, 0.02, 18)
        amplitudes = rng.permutation(grid)[:points] * size
        ys = (symmetric(rng, (points,)) if symmetric_only else rng.normal(size=(points, 3, 3)))
        dofs.append(
            {
                "unit": unit,
                "scale": draw(st.sampled_from([1.0, 1e-3, 0.3, 17.0, -1.0])),
                "order": order,
                "include": include,
                "amplitudes": amplitudes,
                "polarizabilities": ys * 3,
            }
        )
    return {
        "structure": structure,
        "alpha": symmetric(rng) if symmetric_only else rng.normal(size=(3, 3)),
        "dofs": dofs,
        "batch": draw(st.integers(0, 5)),
        "outside": draw(st.booleans()),
        "seed": draw(gens.SEEDS),
    }


def dof_function(dof, alpha):
    """Return the change in polarizability against amplitude along the unit vector."""
    sign = np.sign(dof["scale"])
    xs = list(sign * dof["amplitudes"])
    ys = list(dof["polarizabilities"] - alpha)
    if dof["include"]:
        xs.append(0.0)
        ys.append(np.zeros((3, 3)))
    return spline(xs, ys, dof["order"])


def add(model, dof):
    """Add a degree of freedom to a model."""
    model.add_dof(
        dof["unit"] * dof["scale"],
        dof["amplitudes"],
        dof["polarizabilities"],
        dof["order"],
        dof["include"],
    )
