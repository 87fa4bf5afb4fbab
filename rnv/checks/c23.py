"""C23: neural-network predictions depend only on the configuration itself."""

import contextlib
import copy
import io

import numpy as np
import torch
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.structure import ReferenceStructure

from rnv import gens, models
from rnv.core import close, need, raises, same, sub


@contextlib.contextmanager
def precision(double):
    """Set the default floating-point type."""
    default = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64 if double else torch.float32)
    try:
        yield
    finally:
        torch.set_default_dtype(default)


def distances(lattice, positions):
    """Return distances by minimum image of fractional coordinates."""
    d = positions[None] - positions[:, None]
    d = d - np.rint(d)
    return np.linalg.norm(d @ lattice, axis=-1)


def clear(positions, margin=2e-3):
    """Return whether no two atoms are half a cell apart along an axis."""
    d = positions[..., None, :, :] - positions[..., :, None, :]
    return np.abs(np.abs(d - np.rint(d)) - 0.5).min() > margin


def components(adjacent):
    """Return label of the connected component of each atom."""
    n = len(adjacent)
    labels = np.arange(n)
    for _ in range(n):
        for i in range(n):
            for j in range(n):
                if adjacent[i, j]:
                    labels[i] = labels[j] = min(labels[i], labels[j])
    return labels


@st.composite
def networks(draw, max_count=4):
    """Strategy for structures and networks."""
    numbers = draw(gens.species(3, max_count, min_atoms=2))
    numbers = numbers[:9]
    n = len(numbers)
    rng = gens.rng_of(draw(gens.SEEDS))
    numbers = [int(x) for x in rng.permutation(numbers)]
    kind = draw(
        st.sampled_from(["cubic", "orthorhombic", "hexagonal", "triclinic", "skewed"])
    )
    lattice = gens.make_lattice(kind, rng)
    positions = gens.separated_positions(rng, lattice, n, 1.0)
    assume(gens.well_separated(lattice, positions, 0.4))
    assume(clear(positions))
    r = np.sort(distances(lattice, positions)[np.triu_indices(n, 1)])
    # a cutoff between two shells
    gaps = np.append(np.diff(r), 1.0)
    choices = np.flatnonzero(gaps > 0.02)
    k = int(rng.choice(choices))
    if draw(st.booleans()):
        k = int(choices[0])
    return {
        "lattice": lattice,
        "numbers": numbers,
        "positions": positions,
        "cutoff": float(r[k] + min(gaps[k], 1.0) / 2),
        "node": draw(st.integers(2, 6)),
        "edge": draw(st.integers(2, 6)),
        "passes": draw(st.integers(1, 3)),
        "filter": (draw(st.sampled_from([0, 0.0, 1.0])), draw(st.sampled_from([5, 3.5]))),
        "double": draw(st.integers(0, 3)) > 0,
        "mean": models.symmetric(rng),
        "stddev": np.abs(models.symmetric(rng)) + 0.1,
        "seed": draw(gens.SEEDS),
    }


def build(case, mean=None, stddev=None, order=None):
    """Return network."""
    order = np.arange(len(case["numbers"])) if order is None else order
    ref = ReferenceStructure(
        [case["numbers"][i] for i in order],
        case["lattice"].copy(),
        case["positions"][order].copy(),
    )
    torch.manual_seed(case["seed"] % 2**31)
    model = PotGNN(
        ref,
        case["cutoff"],
        case["node"],
        case["edge"],
        case["passes"],
        case["filter"][0],
        case["filter"][1],
        (case["mean"] if mean is None else mean).copy(),
        (case["stddev"] if stddev is None else stddev).copy(),
    )
    # batch normalization that does something
    for name, value in sorted(model.state_dict().items()):
        if name.endswith("running_mean"):
            value += torch.randn(value.shape) * 0.2
        elif name.endswith("running_var"):
            value *= torch.rand(value.shape) + 0.5
    return model


def predict(model, positions):
    """Return predictions."""
    with contextlib.redirect_stderr(io.StringIO()):
        return model.calc_polarizabilities(positions)


def configurations(case, rng, count):
    """Return configurations near and far from the reference."""
    n = len(case["numbers"])
    result = []
    while len(result) < count:
        if rng.integers(0, 3):
            d = rng.normal(size=(n, 3)) * 0.1 @ np.linalg.inv(case["lattice"])
            one = case["positions"] + d
        else:
            one = rng.uniform(0, 1, (n, 3))
        if clear(one) and distances(case["lattice"], one)[np.triu_indices(n, 1)].min() > 0.05:
            result.append(one)
        elif rng.uniform() < 0.01:
            assume(False)
    return np.array(result)


class Reference:
    """Predictions of single configurations by a fresh copy of the network."""

    def __init__(self, case, model, configs, rng):
        self.case = case
        self.model = copy.deepcopy(model)
        self.configs = configs
        self.single = np.concatenate(
            [predict(copy.deepcopy(model), c[None]) for c in configs]
        )
        need(self.single.shape == (len(configs), 3, 3), "shape of predictions")
        need(np.isfinite(self.single).all(), "predictions are finite")
        step = 1e-11 if case["double"] else 1e-6
        noise = [
            predict(self.model, c[None] + step * rng.uniform(-1, 1, c.shape))[0]
            for c in configs
        ]
        noise = np.abs(np.array(noise) - self.single).max(axis=(1, 2))
        floor = 1e-9 if case["double"] else 2e-4
        self.tol = floor * np.abs(case["stddev"]).max() + 30 * noise

    def check(self, found, indexes, what):
        """Compare with predictions of single configurations."""
        need(found.shape == (len(indexes), 3, 3), f"shape of predictions ({what})")
        for row, i in zip(found, indexes):
            need(
                np.abs(row - self.single[i]).max() <= self.tol[i],
                f"prediction ({what})",
                found=row,
                expected=self.single[i],
                tol=self.tol[i],
            )


OPERATIONS = ["predict", "predict", "one", "train", "eval", "state", "copy", "forward",
              "translated", "one atom translated", "empty"]


@st.composite
def histories(draw):
    """Strategy for a network and calls."""
    case = draw(networks())
    return {
        **case,
        "count": draw(st.integers(1, 6)),
        "steps": draw(
            st.lists(
                st.tuples(st.sampled_from(OPERATIONS), st.integers(1, 9), gens.SEEDS),
                min_size=2,
                max_size=9,
            )
        ),
    }


@sub(
    "C23",
    "histories",
    histories(),
    500,
    12000,
    "predictions in at least two batch sizes, more than one configuration",
)
def run_history(case):
    """Any sequence of calls predicts the same for the same configuration."""
    with precision(case["double"]):
        rng = gens.rng_of(case["seed"])
        model = build(case)
        configs = configurations(case, rng, case["count"])
        reference = Reference(case, model, configs, rng)
        same(reference.single, np.swapaxes(reference.single, 1, 2), "symmetric")
        sizes = set()
        n = len(case["numbers"])
        state = copy.deepcopy(model.state_dict())
        for operation, size, seed in case["steps"]:
            rng = gens.rng_of(seed)
            indexes = rng.integers(0, len(configs), size)
            batch = configs[indexes]
            if operation in ("predict", "one"):
                if operation == "one":
                    batch, indexes = batch[:1], indexes[:1]
                sizes.add(len(batch))
                copies = batch.copy()
                reference.check(predict(model, batch), indexes, operation)
                same(batch, copies, "configurations of the caller")
            elif operation == "train":
                model.train()
            elif operation == "eval":
                model.eval()
            elif operation == "state":
                other = build({**case, "seed": case["seed"] ^ 77})
                other.load_state_dict(model.state_dict())
                reference.check(predict(other, batch), indexes, "loaded parameters")
            elif operation == "copy":
                clone = copy.deepcopy(model)
                reference.check(predict(clone, batch), indexes, "a copy")
            elif operation == "forward":
                was = model.training
                model.eval()
                dtype = torch.get_default_dtype()
                ref = reference.single[indexes]
                out = model.forward(
                    torch.tensor(case["lattice"]).type(dtype).expand(size, 3, 3),
                    torch.tensor(case["numbers"], dtype=torch.int).expand(size, n),
                    torch.tensor(batch).type(dtype),
                )
                need(out.shape == (size, 6), "shape of the network's output")
                out = out.detach().numpy()
                scaled = (ref - case["mean"]) / case["stddev"]
                want = np.stack(
                    [scaled[:, i, j]
                     for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))],
                    axis=-1,
                )
                tol = reference.tol[indexes].max() / case["stddev"].min()
                close(out, want, "de-scaled output of the network", 0, tol)
                model.train(was)
                sizes.add(size)
            elif operation == "translated":
                t = rng.uniform(-2, 2, 3)
                t = np.round(t * 64) / 64
                reference.check(predict(model, batch + t), indexes, "crystal translated")
            elif operation == "one atom translated":
                t = rng.integers(-2, 3, batch.shape)
                reference.check(predict(model, batch + t), indexes, "lattice translations")
            else:
                empty = predict(model, configs[:0])
                need(empty.shape == (0, 3, 3), "prediction of nothing", shape=empty.shape)
        for name, value in model.state_dict().items():
            need(torch.equal(value, state[name]), f"predicting changed {name}")
        reference.check(predict(model, configs), range(len(configs)), "in the end")
        for wrong in (configs[:, :-1], configs[0], configs[..., :2], configs[None]):
            with raises(ValueError, "positions of wrong shape", shape=wrong.shape):
                predict(model, wrong)
    return len(sizes) > 1 and len(configs) > 1


@st.composite
def large(draw):
    """Strategy for many configurations."""
    case = draw(networks(max_count=2))
    return {
        **case,
        "passes": 1,
        "total": draw(
            st.one_of(st.sampled_from([99, 100, 101, 200, 201, 1001]), st.integers(90, 330))
        ),
    }


@sub("C23", "many configurations", large(), 120, 2000, "more than 100 configurations")
def many(case):
    """Batches beyond the size of what is predicted at once."""
    with precision(case["double"]):
        rng = gens.rng_of(case["seed"])
        model = build(case)
        configs = configurations(case, rng, 7)
        reference = Reference(case, model, configs, rng)
        indexes = rng.integers(0, len(configs), case["total"])
        reference.check(predict(model, configs[indexes]), indexes, "many")
        reference.check(predict(model, configs), range(len(configs)), "few after many")
    return case["total"] > 100


@sub("C23", "scaling and order", networks(), 400, 6000, "atoms of one species swapped")
def scaling(case):
    """Scaling and the order of atoms."""
    with precision(case["double"]):
        rng = gens.rng_of(case["seed"])
        n = len(case["numbers"])
        model = build(case)
        configs = configurations(case, rng, 3)
        reference = Reference(case, model, configs, rng)
        plain = build(case, np.zeros((3, 3)), np.ones((3, 3)))
        base = predict(plain, configs)
        want = base * case["stddev"] + case["mean"]
        reference.check(want, range(len(configs)), "scaled by hand")
        # shuffle atoms within each species
        order = np.arange(n)
        for number in set(case["numbers"]):
            where = np.flatnonzero(np.array(case["numbers"]) == number)
            order[where] = rng.permutation(where)
        swapped = build(case, order=order)
        swapped.load_state_dict(model.state_dict())
        reference.check(
            predict(swapped, configs[:, order]), range(len(configs)), "atoms swapped"
        )
        # the same parameters apply to another choice of reference positions in
        # other cells
        moved = build({**case, "positions": case["positions"]
                       + rng.integers(-2, 3, (n, 3))})
        moved.load_state_dict(model.state_dict())
        reference.check(
            predict(moved, configs), range(len(configs)), "reference in other cells"
        )
    return not np.array_equal(order, np.arange(n))


@sub(
    "C23",
    "edges",
    networks(),
    400,
    6000,
    "some atoms are within the cutoff of others and some are not, or not connected",
)
def edges(case):
    """Atoms influence a prediction exactly through pairs within the cutoff."""
    case = {**case, "double": True}
    with precision(True):
        rng = gens.rng_of(case["seed"])
        n = len(case["numbers"])
        model = build(case, np.zeros((3, 3)), np.ones((3, 3)))
        adjacent = distances(case["lattice"], case["positions"]) <= case["cutoff"]
        adjacent &= ~np.eye(n, dtype=bool)
        labels = components(adjacent)
        inverse = np.linalg.inv(case["lattice"])
        base = case["positions"]
        h = 0.02

        def move(*atoms):
            result = base.copy()
            for atom in atoms:
                result[atom] += h * directions[atom] @ inverse
            return result

        directions = rng.normal(size=(n, 3))
        assume(all(clear(move(i)) for i in range(n)))
        pairs = [(i, j) for i in range(n) for j in range(i)]
        batch = [base] + [move(i) for i in range(n)] + [move(i, j) for i, j in pairs]
        found = predict(model, np.array(batch))
        change = np.abs(found[1 : n + 1] - found[0]).max(axis=(1, 2))
        for i in range(n):
            alone = not adjacent[i].any()
            if alone:
                need(change[i] < 1e-12, "an atom without neighbors matters", atom=i)
            else:
                need(change[i] > 1e-12, "an atom with neighbors does not matter", atom=i)
        singles = found[1 : n + 1] - found[0]
        for (i, j), one in zip(pairs, found[n + 1 :]):
            mixed = np.abs(one - found[0] - singles[i] - singles[j]).max()
            if labels[i] != labels[j]:
                need(
                    mixed < 1e-11,
                    "atoms that are not connected influence each other",
                    atoms=(i, j),
                    mixed=mixed,
                )
            if adjacent[i, j]:
                need(
                    mixed > 1e-13,
                    "atoms within the cutoff do not influence each other",
                    atoms=(i, j),
                    mixed=mixed,
                )
        # a cutoff in the same gap between shells gives the same network
        r = distances(case["lattice"], base)[np.triu_indices(n, 1)]
        below, above = r[r <= case["cutoff"]], r[r > case["cutoff"]]
        low = below.max() if below.size else 0.1
        high = above.min() if above.size else case["cutoff"] + 5
        for cutoff in (low + 1e-3 * (high - low), high - 1e-3 * (high - low)):
            other = build({**case, "cutoff": cutoff}, np.zeros((3, 3)), np.ones((3, 3)))
            close(
                predict(other, np.array(batch[:2])),
                found[:2],
                "another cutoff between the same shells",
                0,
                1e-10,
            )
    return adjacent.any() and len(set(labels)) > 1


@st.composite
def cells(draw):
    """Strategy for networks of cells that can be repeated."""
    case = draw(networks())
    rng = gens.rng_of(draw(gens.SEEDS))
    n = len(case["numbers"])
    case["positions"] = 0.5 + (case["positions"] % 1 - 0.5) * rng.choice(
        [0.45, 0.6, 1.0], 3
    )
    assume(gens.well_separated(case["lattice"], case["positions"], 0.4))
    heights = 1 / np.linalg.norm(np.linalg.inv(case["lattice"]), axis=0)
    # within half a cell, only one image of an atom is within the cutoff
    limit = 0.45 * heights.min()
    r = np.sort(distances(case["lattice"], case["positions"])[np.triu_indices(n, 1)])
    r = r[r < limit]
    assume(len(r) > 0)
    r = np.append(r, limit)
    choices = np.flatnonzero(np.diff(r) > 0.05)
    assume(len(choices) > 0)
    k = rng.choice(choices)
    return {
        **case,
        "cutoff": float((r[k] + r[k + 1]) / 2),
        "axis": draw(st.integers(0, 2)),
        "times": draw(st.integers(2, 3)),
        "different": draw(st.booleans()),
        "double": True,
    }


def repeated(case, configs):
    """Return configurations, one after another along an axis."""
    configs = np.array(configs)
    for k, one in enumerate(configs):
        one[:, case["axis"]] = (one[:, case["axis"]] + k) / len(configs)
    return configs.reshape(-1, 3)


@sub("C23", "repeated cells", cells(), 240, 4000, "edges cross cells, or cells differ")
def supercells(case):
    """The same parameters apply to repeated and reordered cells."""
    with precision(True):
        rng = gens.rng_of(case["seed"])
        n, axis, times = len(case["numbers"]), case["axis"], case["times"]
        positions, lattice = case["positions"], case["lattice"]
        model = build(case)
        inverse = np.linalg.inv(lattice)
        configs = [
            positions + np.clip(rng.normal(size=(n, 3)), -2, 2) * 0.03 @ inverse
            for _ in range(times)
        ]
        d = positions[None] - positions[:, None]
        near = distances(lattice, positions) <= case["cutoff"]
        across = bool(np.any(near & (np.abs(np.rint(d)).max(axis=-1) > 0)))
        crossing = bool(np.any(near & (np.rint(d)[..., axis] != 0)))
        different = case["different"] and not crossing
        if not different:
            configs = [configs[0].copy() for _ in range(times)]
        larger = lattice.copy()
        larger[axis] *= times
        big = {
            **case,
            "lattice": larger,
            "numbers": case["numbers"] * times,
            "positions": repeated(case, [positions] * times),
        }
        # the margin of the smaller cell leaves both unambiguous
        reference = Reference(case, model, np.array(configs), rng)
        want = reference.single.mean(axis=0)
        network = build(big)
        network.load_state_dict(model.state_dict())
        whole = repeated(case, configs)
        scale = 10 * reference.tol.max()
        close(predict(network, whole[None])[0], want, "repeated cell", 0, scale)
        # reorder, with species in the same order of appearance
        order = rng.permutation(n * times)
        first = []
        for number in dict.fromkeys(big["numbers"]):
            first.append(next(i for i in order if big["numbers"][i] == number))
        order = np.array(first + [i for i in order if i not in first])
        network = build(big, order=order)
        network.load_state_dict(model.state_dict())
        close(predict(network, whole[order][None])[0], want, "reordered cell", 0, scale)
    return different or across


@sub("C23", "reset", histories(), 200, 3000, "always")
def reset(case):
    """Resetting parameters leaves nothing of the earlier ones."""
    with precision(case["double"]):
        rng = gens.rng_of(case["seed"])
        first = build(case)
        second = build({**case, "seed": case["seed"] + 1})
        configs = configurations(case, rng, case["count"])
        if case["count"] % 2:
            predict(first, configs)
        states = []
        for model in (first, second):
            with torch.no_grad():
                for parameter in model.parameters():
                    parameter += torch.randn(parameter.shape)
            if rng.integers(0, 2):
                model.train(bool(rng.integers(0, 2)))
            states.append(copy.deepcopy(model.state_dict()))
        torch.manual_seed(case["steps"][0][2])
        first.reset_parameters()
        torch.manual_seed(case["steps"][0][2])
        second.reset_parameters()
        names = {name for name, _ in first.named_parameters()}
        for name, value in first.state_dict().items():
            need(
                torch.equal(value, second.state_dict()[name]),
                "depends on the earlier parameters",
                name=name,
            )
            need(bool(torch.isfinite(value).all()), "not finite", name=name)
            if name in names:
                need(not torch.equal(value, states[0][name]), "not reset", name=name)
        found = predict(first, configs)
        need(np.isfinite(found).all(), "predictions are finite")
        same(predict(second, configs), found, "predictions after resetting")
        fresh = copy.deepcopy(second)
        torch.manual_seed(case["steps"][0][2] + 1)
        fresh.reset_parameters()
        changed = [
            name
            for name, value in fresh.named_parameters()
            if not torch.equal(value, first.state_dict()[name])
        ]
        need(len(changed) > 4, "does not depend on the seed", changed=changed)
    return True


@sub("C23", "reflections", networks(), 240, 4000, "edges are oblique to the mirrors")
def reflections(case):
    """Reflecting a crystal in coordinate planes reflects its predictions."""
    with precision(case["double"]):
        rng = gens.rng_of(case["seed"])
        mirror = np.diag(rng.choice([-1.0, 1.0], 3))
        if np.all(mirror == np.eye(3)):
            mirror = -mirror
        lattice = case["lattice"]
        if case["seed"] % 3 == 0 and np.all(lattice == np.diag(np.diag(lattice))):
            # an edge along an axis
            positions = case["positions"].copy()
            positions[1] = positions[0]
            axis = 0 if rng.integers(0, 2) else rng.integers(0, 3)
            positions[1, axis] += rng.choice([-1, 1]) * rng.uniform(0.2, 0.45)
            r = distances(lattice, positions)
            assume(gens.well_separated(lattice, positions, 0.4) and clear(positions))
            assume(np.abs(r - case["cutoff"]).min() > 1e-3)
            assume(r[np.triu_indices(len(r), 1)].min() < case["cutoff"])
            case = {**case, "positions": positions}
        model = build(case)
        image = build(
            {**case, "lattice": case["lattice"] @ mirror},
            mean=mirror @ case["mean"] @ mirror,
        )
        image.load_state_dict(model.state_dict())
        configs = np.array([case["positions"], *configurations(case, rng, 2)])
        reference = Reference(case, model, configs, rng)
        found = predict(image, configs)
        for k in range(3):
            close(
                mirror @ found[k] @ mirror,
                reference.single[k],
                "reflected crystal",
                0,
                2 * reference.tol[k],
            )
    return not np.all(mirror == -np.eye(3))
