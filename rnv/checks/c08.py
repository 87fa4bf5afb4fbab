"""C08: periodic positions, displacements, and conversions form one algebra."""

import numpy as np
from hypothesis import strategies as st

from ramannoodle.structure import ReferenceStructure, utils

from rnv import gens
from rnv.core import close, need, same, sub
from rnv.oracle import close_mod1, in_unit_interval, minimum_image

EDGE = np.array([0, 1, -1, 0.5, -0.5, 1.5, -1.5, 2, 1e-17, -1e-17, 1e-9, -1e-9, 0.5 + 1e-9, 0.5 - 1e-9])


@st.composite
def coordinates(draw):
    """Strategy for arrays of fractional coordinates of any range."""
    rng = gens.rng_of(draw(gens.SEEDS))
    shape = draw(
        st.sampled_from([(1, 3), (2, 3), (5, 3), (3, 3), (2, 4, 3), (4, 1, 3), (3, 3, 3)])
    )
    reach = draw(st.sampled_from([1.0, 3.0, 0.6, 100.0]))
    arrays = []
    for _ in range(2):
        array = rng.uniform(-reach, reach, shape)
        mask = rng.uniform(size=shape) < 0.3
        arrays.append(np.where(mask, rng.choice(EDGE, shape), array))
    if draw(st.integers(0, 3)) == 0:  # close to one another
        size = draw(st.sampled_from([1e-4, 1e-8, 1e-10, 1e-12]))
        nearby = arrays[0] % 1 if draw(st.booleans()) else arrays[0]
        arrays = [nearby, nearby + rng.uniform(-size, size, shape)]
    return {"a": arrays[0], "b": arrays[1], "shift": rng.integers(-3, 4, shape)}


@sub("C08", "wrapping", coordinates(), 3000, 40000, "a coordinate is outside of [0,1]")
def wrapping(case):
    """Wrapping of positions and displacements."""
    a, shift = case["a"], case["shift"]
    copy = a.copy()
    wrapped = utils.apply_pbc(a)
    in_unit_interval(wrapped, "apply_pbc leaves [0,1]")
    close_mod1(wrapped, a, "apply_pbc changes positions", 1e-13)
    need(np.all(wrapped[a == np.round(a)] == 0), "whole numbers are not wrapped to 0")
    close_mod1(utils.apply_pbc(wrapped), a, "apply_pbc twice", 1e-13)
    close_mod1(utils.apply_pbc(a + shift), a, "apply_pbc of translated", 1e-12)

    d = utils.apply_pbc_displacement(a)
    need(np.all(d > -0.5) and np.all(d <= 0.5), "displacement leaves (-1/2,1/2]", d=d, a=a)
    close_mod1(d, a, "apply_pbc_displacement changes displacements", 1e-13)
    tie = np.abs(np.abs(d) - 0.5) < 1e-9
    close(d[~tie], minimum_image(a)[~tie], "minimum image", 1e-9, 1e-12)
    close_mod1(utils.apply_pbc_displacement(a + shift), d, "translated", 1e-12)
    if a.ndim == 3:
        for i, one in enumerate(a):
            same(utils.apply_pbc(one), wrapped[i], "apply_pbc of a batch")
            same(utils.apply_pbc_displacement(one), d[i], "displacement of a batch")
    same(a, copy, "argument was modified")
    return bool(np.any((a < 0) | (a > 1)))


@sub("C08", "displacements", coordinates(), 3000, 40000, "a component crosses a boundary")
def displacements(case):
    """Displacements between two configurations."""
    a, b, shift = case["a"], case["b"], case["shift"]
    copies = a.copy(), b.copy()
    tol = 1e-14 * max(1, np.abs(a).max(), np.abs(b).max())
    d = utils.calc_displacement(a, b)
    need(d.shape == a.shape, "shape")
    need(np.all(d > -0.5 - tol) and np.all(d <= 0.5), "component outside (-1/2,1/2]", d=d)
    close_mod1(d, b - a, "displacement", tol)
    tie = np.abs(np.abs(d) - 0.5) < 1e-9
    close(d[~tie], minimum_image(b - a)[~tie], "minimum image", 1e-12, tol)
    back = utils.calc_displacement(b, a)
    close((d + back)[~tie], 0 * d[~tie], "antisymmetry", 0, tol)
    close_mod1(back, -d, "antisymmetry (ties)", tol)
    moved = utils.calc_displacement(a + shift, b)
    close(moved[~tie], d[~tie], "translated first", 1e-12, tol)
    moved = utils.calc_displacement(a, b - shift)
    close(moved[~tie], d[~tie], "translated second", 1e-12, tol)
    close(utils.calc_displacement(a, a), 0 * a, "displacement onto itself", 0, 0)
    there = utils.displace_positions(a, d)
    in_unit_interval(there, "displace_positions leaves [0,1]")
    close_mod1(there, b, "displaced onto the second", tol)
    there = utils.displace_positions(a, b)
    close_mod1(there, a + b, "displace_positions", tol)
    close_mod1(
        utils.displace_positions(there, -b), a, "displaced back", tol
    )
    if a.ndim == 3:
        for i in range(len(a)):
            same(utils.calc_displacement(a[i], b[i]), d[i], "one of a batch")
            close_mod1(utils.displace_positions(a[i], b[i]), there[i], "one of a batch", 0)
    same(a, copies[0], "argument was modified")
    same(b, copies[1], "argument was modified")
    return bool(np.any(np.floor(a) != np.floor(b)))


@st.composite
def operations(draw):
    """Strategy for positions and two symmetry operations."""
    system = draw(st.sampled_from(list(gens.HALLS_BY_SYSTEM)))
    hall = draw(st.sampled_from(gens.HALLS_BY_SYSTEM[system]))
    rotations, translations = gens.hall_operations(hall)
    rng = gens.rng_of(draw(gens.SEEDS))
    i, j = rng.integers(0, len(rotations), 2)
    return {
        "positions": gens.make_positions(rng, (int(rng.integers(1, 6)), 3)),
        "r": rotations[i],
        "t": translations[i] + rng.integers(-1, 2, 3),
        "r2": rotations[j],
        "t2": translations[j],
    }


@sub("C08", "transformations", operations(), 1500, 15000, "the rotation is not the identity")
def transformations(case):
    """Space-group operations on positions."""
    x, r, t = case["positions"], case["r"], case["t"]
    y = utils.transform_positions(x, r, t)
    in_unit_interval(y, "transform_positions leaves [0,1]")
    close_mod1(y, x @ r.T + t, "transform_positions", 1e-12)
    z = utils.transform_positions(y, case["r2"], case["t2"])
    direct = utils.transform_positions(
        x, case["r2"] @ r, case["r2"] @ t + case["t2"]
    )
    close_mod1(z, direct, "composition", 1e-11)
    inverse = np.linalg.inv(r)
    back = utils.transform_positions(y, inverse, -inverse @ t)
    close_mod1(back, x, "inverse", 1e-11)
    return not np.array_equal(r, np.eye(3))


@st.composite
def conversions(draw):
    """Strategy for a lattice and displacements."""
    lattice = draw(gens.lattices())
    rng = gens.rng_of(draw(gens.SEEDS))
    n = draw(st.integers(1, 5))
    batch = draw(st.sampled_from([(), (1,), (4,), (2, 3), (130,)]))
    return {
        "lattice": lattice,
        "positions": gens.separated_positions(rng, lattice, n, 0.05),
        "frac": rng.uniform(-0.49, 0.49, (*batch, n, 3))
        * draw(st.sampled_from([1.0, 1e-3, 1e-8])),
        "direction": rng.normal(size=3) * draw(st.sampled_from([1e-6, 1.0, 100.0])),
        "other": rng.normal(size=3),
        "factors": rng.normal(size=2) * 5,
        "shift": rng.integers(-2, 3, (*batch, n, 3)),
    }


@sub("C08", "conversions", conversions(), 1200, 15000, "the lattice is not diagonal")
def conversion_algebra(case):
    """Cartesian and fractional displacements and directions."""
    lattice, frac = case["lattice"], case["frac"]
    n = len(case["positions"])
    ref = ReferenceStructure(list(range(1, n + 1)), lattice, case["positions"])
    tol = 1e-13 * np.linalg.cond(lattice)
    copy = frac.copy()
    cart = ref.get_cart_displacement(frac)
    scale = np.abs(lattice).max()
    close(cart, frac @ lattice, "get_cart_displacement", 1e-10, 1e-14 * scale)
    flat_frac, flat_cart = frac.reshape(-1, n, 3), cart.reshape(-1, n, 3)
    for f, c in list(zip(flat_frac, flat_cart))[:8]:
        close(ref.get_cart_displacement(f), c, "one of a batch", 1e-13, 1e-15 * scale)
        close(ref.get_frac_displacement(c), f, "back to fractional", 1e-9, tol)
        need(
            np.allclose(
                ref.get_cart_displacement(ref.get_frac_displacement(c)),
                c,
                rtol=1e-9,
                atol=tol * scale,
            ),
            "back to Cartesian",
        )
    moved = ref.get_cart_displacement(frac + case["shift"])
    close(moved, cart, "lattice translations of displacements", 1e-9, 1e-12 * scale)
    same(frac, copy, "argument was modified")

    x, y = case["direction"], case["other"]
    f, g = case["factors"]
    big = np.abs(x).max() + np.abs(y).max()
    for convert, back, matrix in (
        (ref.get_cart_direction, ref.get_frac_direction, lattice),
        (ref.get_frac_direction, ref.get_cart_direction, np.linalg.inv(lattice)),
    ):
        size = np.abs(matrix).max() * big
        close(convert(x), x @ matrix, "direction", 1e-9, 1e-12 * size)
        close(back(convert(x)), x, "direction and back", 1e-8, 1e-12 * np.linalg.cond(lattice) * np.abs(x).max())
        close(
            convert(f * x + g * y),
            f * convert(x) + g * convert(y),
            "linearity of directions",
            1e-8,
            1e-11 * size * 10,
        )
    return bool(np.any(lattice != np.diag(np.diag(lattice))))
