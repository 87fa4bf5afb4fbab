"""C22: dataset scaling is exact, invertible and compatible with training."""

import numpy as np
import torch
from hypothesis import strategies as st
from torch.utils.data import DataLoader

from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dataset.torch.utils import (
    polarizability_tensors_to_vectors,
    polarizability_vectors_to_tensors,
)

from rnv import gens, models
from rnv.core import close, need, raises, same, sub

INDEXES = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]


def flatten(tensors):
    """Return six-vectors."""
    return np.stack([tensors[..., i, j] for i, j in INDEXES], axis=-1)


@st.composite
def samples(draw):
    """Strategy for samples of a dataset."""
    numbers = draw(gens.species(3, 3))
    count = draw(st.integers(2, 12))
    n = len(numbers)
    rng = gens.rng_of(draw(gens.SEEDS))
    scale = draw(st.sampled_from([1.0, 30.0, 1e-3]))
    offset = draw(st.sampled_from([0.0, 1.0, 10.0, 1e6]))
    symmetric = draw(st.booleans())
    if symmetric:
        polarizabilities = models.symmetric(rng, (count,)) * scale
    else:
        polarizabilities = rng.normal(size=(count, 3, 3)) * scale
    operations = st.one_of(
        st.tuples(
            st.just("scale"),
            gens.SEEDS,
            st.sampled_from(["random", "own", "unit", "negative", "integers"]),
        ),
        st.tuples(st.sampled_from(["item", "iterate", "loader", "properties"]), gens.SEEDS,
                  st.just("")),
        st.tuples(
            st.just("wrong"),
            gens.SEEDS,
            st.sampled_from(["(3,)", "(1,3)", "(6,)", "(1,3,3)", "()", "(3,1)", "list"]),
        ),
    )
    return {
        "lattice": draw(gens.lattices()),
        "numbers": numbers,
        "positions": gens.make_positions(rng, (count, n, 3))
        + rng.integers(-1, 2, (count, n, 3)) * draw(st.booleans()),
        "polarizabilities": polarizabilities + offset * scale * rng.normal(size=(3, 3)),
        "operations": draw(st.lists(operations, max_size=8)),
        "float64": draw(st.integers(0, 3)) == 0,
        "seed": draw(gens.SEEDS),
    }


@sub(
    "C22",
    "histories",
    samples(),
    3000,
    50000,
    "rescaled at least once, at least three samples",
)
def histories(case):
    """Compare a dataset with a model of it after every operation."""
    default = torch.get_default_dtype()
    if case["float64"]:
        torch.set_default_dtype(torch.float64)
    try:
        return run(case, torch.get_default_dtype())
    finally:
        torch.set_default_dtype(default)


def run(case, dtype):
    """Perform operations."""
    positions, polarizabilities = case["positions"], case["polarizabilities"]
    lattice, numbers = case["lattice"], list(case["numbers"])
    count, n = positions.shape[:2]
    eps = 1e-5 if dtype == torch.float32 else 1e-10
    dataset = PolarizabilityDataset(
        lattice.copy(), list(numbers), positions.copy(), polarizabilities.copy()
    )
    mean = np.array([sum(p[i, j] for p in polarizabilities) / count
                     for i in range(3) for j in range(3)]).reshape(3, 3)
    variance = sum((p - mean) ** 2 for p in polarizabilities) / count
    stddev = np.sqrt(variance)
    now = (mean, stddev)

    def check(what):
        shift, factor = now
        want = flatten((polarizabilities - shift) / factor)
        size = flatten((np.abs(polarizabilities) + np.abs(shift)) / np.abs(factor))
        found = dataset.scaled_polarizabilities
        need(found.shape == (count, 6), "shape of scaled polarizabilities", after=what)
        need(
            torch.from_numpy(found).dtype == dtype,
            "type of scaled polarizabilities",
            dtype=found.dtype,
            after=what,
        )
        bad = np.abs(found - want) > eps * np.abs(want) + 1e-6 * eps * size + 1e-30
        bad &= np.abs(found - want) > 3e-12 * size
        need(
            not bad.any(),
            "scaled polarizabilities",
            found=found[bad],
            expected=want[bad],
            after=what,
        )
        same(dataset.polarizabilities, polarizabilities, "polarizabilities", after=what)
        return found

    def properties(what):
        close(dataset.mean_polarizability, mean, "mean", 1e-9, 1e-12 * np.abs(mean).max())
        close(
            dataset.stddev_polarizability,
            stddev,
            "standard deviation",
            1e-7,
            1e-12 * np.abs(polarizabilities).max(),
        )
        need(dataset.num_atoms == n and dataset.num_samples == count, "sizes")
        need(len(dataset) == count, "length", after=what)
        need(dataset.atomic_numbers == numbers, "atomic numbers", after=what)
        close(dataset.positions, positions, "positions", 1e-6, 1e-6)

    def item(found, k, what):
        scaled = dataset.scaled_polarizabilities
        need(len(found) == 4, "parts of a sample")
        close(found[0].numpy(), lattice, "lattice of a sample", 1e-6, 1e-7, at=what)
        same(found[1].numpy(), numbers, "atomic numbers of a sample", at=what)
        close(found[2].numpy(), positions[k], "positions of a sample", 1e-6, 1e-6, k=k)
        same(found[3].numpy(), scaled[k], "scaled polarizabilities of a sample", k=k)
        for index in (0, 2, 3):
            need(found[index].dtype == dtype, "type of a sample", i=index, at=what)
        need(not found[1].dtype.is_floating_point, "type of atomic numbers")

    check("construction")
    properties("construction")
    rescaled = 0
    for operation, seed, detail in case["operations"]:
        rng = gens.rng_of(seed)
        if operation == "scale":
            rescaled += 1
            shift, factor = rng.normal(size=(3, 3)), rng.uniform(0.3, 4, (3, 3))
            if detail == "own":
                shift, factor = dataset.mean_polarizability, dataset.stddev_polarizability
            elif detail == "unit":
                shift, factor = np.zeros((3, 3)), np.ones((3, 3))
            elif detail == "negative":
                factor = -factor
            elif detail == "integers":
                shift = rng.integers(-3, 4, (3, 3))
                factor = rng.integers(1, 4, (3, 3))
            copies = shift.copy(), factor.copy()
            dataset.scale_polarizabilities(shift, factor)
            same(shift, copies[0], "mean of the caller")
            same(factor, copies[1], "standard deviation of the caller")
            now = (shift, factor)
        elif operation == "item":
            k = int(rng.integers(-count, count))
            item(dataset[k], k, operation)
        elif operation == "iterate":
            for k in range(count):
                item(dataset[k], k, operation)
        elif operation == "loader":
            size = int(rng.integers(1, count + 1))
            k = 0
            for batch in DataLoader(dataset, batch_size=size, shuffle=False):
                for parts in zip(*batch):
                    item(parts, k, operation)
                    k += 1
            need(k == count, "number of samples in batches", found=k)
        elif operation == "wrong":
            wrong = {
                "(3,)": np.ones(3),
                "(1,3)": np.ones((1, 3)),
                "(6,)": np.ones(6),
                "(1,3,3)": np.ones((1, 3, 3)),
                "()": np.array(1.0),
                "(3,1)": np.ones((3, 1)),
                "list": np.ones((3, 3)).tolist(),
            }[detail]
            for arguments in ((wrong, np.ones((3, 3))), (np.zeros((3, 3)), wrong)):
                with raises((ValueError, TypeError), f"scaling by shape {detail}"):
                    dataset.scale_polarizabilities(*arguments)
        properties(operation)
        check((operation, detail))
    # standard scaling of a fresh dataset, and undoing it
    scaled = PolarizabilityDataset(
        lattice, numbers, positions, polarizabilities
    ).scaled_polarizabilities
    flat_mean, flat_std = flatten(mean), flatten(stddev)
    size = np.abs(polarizabilities).max() / flat_std
    close(scaled.mean(axis=0), np.zeros(6), "mean of scaled values", 0,
          max(eps, 1e-12 * size.max()))
    close((scaled**2).mean(axis=0), np.ones(6), "variance of scaled values", 0,
          max(10 * eps, 1e-12 * size.max() ** 2))
    back = scaled * flat_std + flat_mean
    close(back, flatten(polarizabilities), "scaling undone", eps,
          eps * np.abs(polarizabilities).max())
    return rescaled > 0 and count > 2


@st.composite
def vectors(draw):
    """Strategy for polarizability vectors."""
    rng = gens.rng_of(draw(gens.SEEDS))
    count = draw(st.integers(0, 20))
    return {
        "vectors": rng.normal(size=(count, 6)) * 10.0 ** rng.integers(-6, 7, (count, 6)),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "wrong": draw(
            st.sampled_from([(6,), (3, 5), (2, 6, 1), (1, 1, 6), (3, 3), (0,), (4, 7)])
        ),
        "wrong tensors": draw(
            st.sampled_from([(3, 3), (6,), (2, 3, 2), (2, 1, 3), (2, 3, 1), (1, 2, 3, 3)])
        ),
    }


@sub("C22", "vectors and tensors", vectors(), 2500, 40000, "at least two vectors")
def conversions(case):
    """Conversions are lossless."""
    given = torch.tensor(case["vectors"]).type(getattr(torch, case["dtype"]))
    before = given.clone()
    tensors = polarizability_vectors_to_tensors(given)
    need(tensors.shape == (len(given), 3, 3), "shape of tensors", shape=tensors.shape)
    need(tensors.dtype == given.dtype, "type of tensors", dtype=tensors.dtype)
    same(tensors.mT.numpy(), tensors.numpy(), "tensors are symmetric")
    for k, (i, j) in enumerate(INDEXES):
        same(tensors[:, i, j].numpy(), given[:, k].numpy(), "component", i=i, j=j)
    again = polarizability_tensors_to_vectors(tensors)
    same(again.numpy(), given.numpy(), "vectors converted twice")
    need(again.dtype == given.dtype, "type of vectors", dtype=again.dtype)
    twice = polarizability_vectors_to_tensors(again)
    same(twice.numpy(), tensors.numpy(), "tensors converted twice")
    same(given.numpy(), before.numpy(), "vectors of the caller")
    with raises(ValueError, "vectors of wrong size", size=case["wrong"]):
        polarizability_vectors_to_tensors(torch.zeros(case["wrong"]))
    with raises(ValueError, "tensors of wrong size", size=case["wrong tensors"]):
        polarizability_tensors_to_vectors(torch.zeros(case["wrong tensors"]))
    with raises(TypeError, "vectors that are no tensor"):
        polarizability_vectors_to_tensors(case["vectors"].tolist())
    return len(given) > 1
