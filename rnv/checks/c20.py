"""C20: trajectories and phonons are faithful containers of what they were given."""

import numpy as np
from hypothesis import strategies as st

from ramannoodle.dynamics import Phonons, Trajectory

from rnv import gens
from rnv.core import close, need, raises, same, sub
from rnv.oracle import close_mod1, in_unit_interval

TIMESTEPS = [1, 5, 0.5, 2.0, np.float64(1.5), np.float32(0.25), np.int64(3), True]


@st.composite
def trajectories(draw):
    """Strategy for trajectories and operations on them."""
    length = draw(st.one_of(*[st.integers(0, 12)] * 3, st.integers(100, 320)))
    n = draw(st.integers(1, 5))
    rng = gens.rng_of(draw(gens.SEEDS))
    kind = draw(st.sampled_from(["inside", "special", "outside", "far", "integers"]))
    if kind == "inside":
        positions = rng.uniform(0, 1, (length, n, 3))
    elif kind == "special":
        positions = gens.make_positions(rng, (length, n, 3), 0.7)
    elif kind == "outside":
        positions = rng.uniform(-2, 3, (length, n, 3))
    elif kind == "far":
        positions = rng.normal(size=(length, n, 3)) * 1e3
    else:
        positions = rng.integers(-2, 3, (length, n, 3))
    index = st.integers(-length - 3, length + 2)
    bound = st.one_of(st.none(), index)
    operations = st.one_of(
        st.tuples(st.just("index"), index),
        st.tuples(st.just("np index"), index),
        st.tuples(
            st.just("slice"),
            bound,
            bound,
            st.one_of(st.none(), st.integers(-4, 4).filter(bool)),
        ),
        st.tuples(st.sampled_from(["iterate", "reversed", "len", "array", "write"])),
    )
    return {
        "positions": positions,
        "timestep": draw(
            st.one_of(st.sampled_from(TIMESTEPS), st.floats(1e-3, 100))
        ),
        "operations": draw(st.lists(operations, min_size=1, max_size=12)),
        "layout": draw(st.sampled_from(["C", "F", "strided"])),
    }


@sub(
    "C20",
    "trajectories",
    trajectories(),
    6000,
    100000,
    "at least two configurations, some positions outside of [0,1]",
)
def trajectory(case):
    """Compare with a list of the configurations."""
    positions = case["positions"]
    given = positions.copy()
    if case["layout"] == "F":
        given = np.asfortranarray(given)
    elif case["layout"] == "strided":
        given = np.repeat(given, 2, axis=0)[::2]
    before = given.copy()
    path = Trajectory(given, case["timestep"])
    same(given, before, "positions of the caller")
    need(path.timestep == float(case["timestep"]), "timestep", timestep=path.timestep)
    reference = path.positions_ts
    need(reference.shape == positions.shape, "shape of positions")
    in_unit_interval(reference, "positions outside of [0,1]")
    largest = np.abs(positions).max() if positions.size else 0
    close_mod1(reference, positions, "wrapped positions", 1e-15 + 3e-16 * largest)
    inside = (positions >= 0) & (positions < 1)
    same(reference[inside], positions[inside], "positions inside of [0,1) are unchanged")
    expected = list(reference)

    for operation in case["operations"]:
        name = operation[0]
        if name in ("index", "np index"):
            index = operation[1]
            key = np.int64(index) if name == "np index" else index
            if -len(expected) <= index < len(expected):
                found = path[key]
                same(found, expected[index], "configuration", index=index)
            else:
                with raises(IndexError, "index beyond the trajectory", index=index):
                    path[key]  # pylint: disable=pointless-statement
        elif name == "slice":
            key = slice(*operation[1:])
            found = path[key]
            need(len(found) == len(expected[key]), "length of slice", key=key)
            for a, b in zip(found, expected[key]):
                same(a, b, "configuration in slice", key=key)
        elif name == "iterate":
            found = list(path)
            need(len(found) == len(expected), "number of configurations iterated over")
            for a, b in zip(found, expected):
                same(a, b, "configuration iterated over")
        elif name == "reversed":
            found = list(reversed(path))
            need(len(found) == len(expected), "number of configurations, reversed")
            for a, b in zip(found, expected[::-1]):
                same(a, b, "configuration, reversed")
        elif name == "len":
            need(len(path) == len(expected), "length", found=len(path))
        elif name == "array":
            if expected:
                same(np.array(path), reference, "as array")
        else:
            if expected:
                for found in (path[0], path[:], next(iter(path)), path.positions_ts):
                    found[...] = -7.0
                try:
                    path[0] = expected[-1]
                except TypeError:
                    pass
                else:
                    need(False, "a configuration was assigned")
        same(path.positions_ts, reference, "positions afterwards", operation=operation)
        need(path.timestep == float(case["timestep"]), "timestep afterwards")
    return len(expected) > 1 and not inside.all()


@st.composite
def wrong_trajectories(draw):
    """Strategy for arguments that are no trajectory."""
    rng = gens.rng_of(draw(gens.SEEDS))
    shape = draw(
        st.sampled_from(
            [(3,), (4, 3), (2, 4, 2), (2, 4, 4), (2, 3, 4), (2, 2, 4, 3), (), (1, 1), (3, 3)]
        )
    )
    return {
        "positions": rng.uniform(0, 1, shape),
        "good": rng.uniform(0, 1, (draw(st.integers(1, 4)), 2, 3)),
        "timestep": draw(
            st.one_of(
                st.sampled_from([0, 0.0, -1, -1e-12, np.float64(-2), -np.inf]),
                st.floats(-100, 0),
            )
        ),
        "kind": draw(st.sampled_from([None, [1.0], (2,), {}, 1j])),
    }


@sub("C20", "not trajectories", wrong_trajectories(), 400, 4000, "always")
def not_trajectories(case):
    """Wrong shapes and timesteps are rejected."""
    with raises(ValueError, "positions of wrong shape", shape=case["positions"].shape):
        Trajectory(case["positions"], 1.0)
    with raises(ValueError, "timestep that is not positive", t=case["timestep"]):
        Trajectory(case["good"], case["timestep"])
    with raises(TypeError, "timestep that is not a number", t=case["kind"]):
        Trajectory(case["good"], case["kind"])
    for wrong in (case["good"].tolist(), None, "positions"):
        with raises(TypeError, "positions that are no array"):
            Trajectory(wrong, 1.0)
    return True


@st.composite
def phonon_cases(draw):
    """Strategy for phonons."""
    n, count = draw(st.integers(1, 6)), draw(st.integers(0, 8))
    rng = gens.rng_of(draw(gens.SEEDS))
    displacements = rng.normal(size=(count, n, 3))
    return {
        "positions": gens.make_positions(rng, (n, 3)) + rng.integers(-1, 2, (n, 3)),
        "wavenumbers": rng.uniform(-300, 4000, count),
        "displacements": displacements * draw(st.sampled_from([1e-3, 0.4, 1, 5, 100])),
        "change": draw(
            st.sampled_from(
                ["mode more", "mode less", "atom more", "atom less", "component",
                 "axis", "flat", "swapped", "scalar", "one mode", "one atom"]
            )
        ),
    }


@sub(
    "C20",
    "phonons",
    phonon_cases(),
    4000,
    60000,
    "at least two modes with displacements beyond half a cell",
)
def phonons(case):
    """Phonons keep what they were given."""
    p, w, d = case["positions"], case["wavenumbers"], case["displacements"]
    one = Phonons(p.copy(), w.copy(), d.copy())
    for _ in range(2):
        for found, given, name in (
            (one.ref_positions, p, "reference positions"),
            (one.wavenumbers, w, "wavenumbers"),
            (one.displacements, d, "displacements"),
        ):
            same(found, given, name)
            found[...] = 17.0  # a copy
    count, n = d.shape[:2]
    wrong_d, wrong_w, wrong_p = d, w, p
    change = case["change"]
    if change == "mode more":
        wrong_d = np.concatenate([d, np.ones((1, n, 3))])
    elif change == "mode less" and count:
        wrong_d = d[1:]
    elif change == "atom more":
        wrong_d = np.zeros((count, n + 1, 3))
    elif change == "atom less":
        wrong_d = d[:, 1:]
    elif change == "component":
        wrong_d = d[:, :, :2]
    elif change == "axis":
        wrong_w = w[:, None]
    elif change == "flat":
        wrong_d = d.reshape(count, 3 * n)
    elif change == "swapped" and n != 3:
        wrong_d = d.transpose(0, 2, 1)
    elif change == "scalar":
        wrong_w = np.array(3.0)
    elif change == "one mode" and count > 1:
        wrong_d = d[:1]
    elif change == "one atom" and n > 1:
        wrong_d = d[:, :1]
    else:
        wrong_p = np.append(p, p, axis=1)
    with raises(ValueError, "phonons of inconsistent shape", change=change):
        Phonons(wrong_p, wrong_w, wrong_d)
    close(one.displacements, d, "displacements afterwards", 0, 0)
    return count > 1 and np.abs(d).max() > 0.5
