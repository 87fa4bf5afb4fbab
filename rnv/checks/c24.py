"""C24: one training epoch visits every sample once and validates without learning."""

import copy

import numpy as np
import torch
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.pmodel.torch import PotGNN, train_single_epoch
from ramannoodle.structure import ReferenceStructure

from rnv import gens, models
from rnv.checks.c23 import clear, precision
from rnv.core import close, need, same, sub


class Spy(PotGNN):
    """Network that records what passes through it."""

    calls = None

    def forward(self, lattice, atomic_numbers, positions):
        if self.calls is not None:
            self.calls.append(
                {
                    "training": self.training,
                    "positions": positions.detach().clone(),
                    "lattice": lattice.detach().clone(),
                    "numbers": atomic_numbers.detach().clone(),
                    "parameters": [p.detach().clone() for p in self.parameters()],
                    "buffers": [b.detach().clone() for b in self.buffers()],
                }
            )
        return super().forward(lattice, atomic_numbers, positions)


@st.composite
def epochs(draw):
    """Strategy for training histories."""
    numbers = draw(gens.species(2, 2, min_atoms=2))
    n = len(numbers)
    rng = gens.rng_of(draw(gens.SEEDS))
    lattice = gens.make_lattice(draw(st.sampled_from(["cubic", "triclinic"])), rng)
    positions = gens.separated_positions(rng, lattice, n, 1.0)
    assume(gens.well_separated(lattice, positions, 0.4) and clear(positions, 0.02))
    return {
        "lattice": lattice,
        "numbers": numbers,
        "positions": positions,
        "training": draw(st.integers(2, 14)),
        "validation": draw(
            st.one_of(st.integers(2, 9), st.sampled_from([2, 100, 105, 150, 230]))
        ),
        "optimizer": draw(st.sampled_from(["sgd", "momentum", "adam"])),
        "loss": draw(st.sampled_from(["mse", "l1", "sum"])),
        "epochs": draw(
            st.lists(
                st.tuples(
                    st.integers(1, 16),  # batch size
                    st.sampled_from(["nothing", "eval", "stale gradients", "predict"]),
                ),
                min_size=1,
                max_size=3,
            )
        ),
        "double": draw(st.booleans()),
        "seed": draw(gens.SEEDS),
    }


def dataset_of(case, rng, count):
    """Return dataset whose samples can be told apart."""
    n = len(case["numbers"])
    inverse = np.linalg.inv(case["lattice"])
    d = np.clip(rng.normal(size=(count, n, 3)), -2, 2) * 0.04 @ inverse
    return PolarizabilityDataset(
        case["lattice"],
        list(case["numbers"]),
        case["positions"] + d,
        models.symmetric(rng, (count,)),
    )


def new_optimizer(kind, parameters):
    """Return optimizer."""
    if kind == "sgd":
        return torch.optim.SGD(parameters, lr=0.05)
    if kind == "momentum":
        return torch.optim.SGD(parameters, lr=0.02, momentum=0.9, weight_decay=0.01)
    return torch.optim.Adam(parameters, lr=0.01)


LOSSES = {
    "mse": torch.nn.MSELoss(),
    "l1": torch.nn.L1Loss(),
    "sum": torch.nn.MSELoss(reduction="sum"),
}


def identify(rows, dataset):
    """Return index of the sample of each configuration."""
    known = torch.stack([dataset[k][2] for k in range(len(dataset))])
    result = []
    for row in rows:
        match = torch.nonzero((known == row).flatten(1).all(dim=1)).flatten()
        need(len(match) == 1, "a configuration that is not in the dataset")
        result.append(int(match[0]))
    return result


def gather(dataset, indexes):
    """Return batch."""
    return [torch.stack(parts) for parts in zip(*(dataset[k] for k in indexes))]


@sub(
    "C24",
    "epochs",
    epochs(),
    260,
    5000,
    "more than one batch in some epoch, or more than one epoch",
)
def run(case):
    """Compare with a plain training loop over the same batches."""
    with precision(case["double"]):
        return run_epochs(case)


def run_epochs(case):
    """Train."""
    rng = gens.rng_of(case["seed"])
    ref = ReferenceStructure(list(case["numbers"]), case["lattice"], case["positions"])
    torch.manual_seed(case["seed"] % 2**31)
    model = Spy(ref, 30.0, 4, 4, 1, 0, 6, np.zeros((3, 3)), np.ones((3, 3)))
    training = dataset_of(case, rng, case["training"])
    validation = dataset_of(case, rng, case["validation"])
    validation.scale_polarizabilities(
        training.mean_polarizability, training.stddev_polarizability
    )
    loss_function = LOSSES[case["loss"]]
    optimizer = new_optimizer(case["optimizer"], model.parameters())
    twin = copy.deepcopy(model)
    twin_optimizer = new_optimizer(case["optimizer"], twin.parameters())
    steps = []
    optimizer.register_step_post_hook(lambda *_: steps.append(1))
    rtol, atol = (1e-7, 1e-9) if case["double"] else (5e-3, 2e-4)
    busy = len(case["epochs"]) > 1
    for number, (batch_size, before) in enumerate(case["epochs"]):
        if before == "eval":
            model.eval()
        elif before == "stale gradients":
            model.train()
            was = copy.deepcopy([b for b in model.buffers()])
            out = model.forward(*gather(validation, [0, 1])[:3])
            (out.sum() * 100).backward()
            for b, value in zip(model.buffers(), was):
                b.copy_(value)
        elif before == "predict":
            model.calc_polarizabilities(np.array(case["positions"])[None])
        data = [
            [d.positions, d.polarizabilities, d.scaled_polarizabilities]
            for d in (training, validation)
        ]
        model.calls, steps[:] = [], []
        result = train_single_epoch(
            model, training, validation, batch_size, optimizer, loss_function
        )
        calls, model.calls = model.calls, None
        for d, copies in zip((training, validation), data):
            for now, then in zip(
                (d.positions, d.polarizabilities, d.scaled_polarizabilities), copies
            ):
                same(now, then, "a dataset was modified")
        visits = [c for c in calls if c["training"]]
        checks = [c for c in calls if not c["training"]]
        need(
            [c["training"] for c in calls] == [True] * len(visits) + [False] * len(checks),
            "training comes first, in training mode, then validation in evaluation mode",
        )
        batches = [identify(c["positions"], training) for c in visits]
        sizes = [len(b) for b in batches]
        total = case["training"]
        want = [batch_size] * (total // batch_size)
        want += [total % batch_size] if total % batch_size else []
        need(sizes == want, "sizes of training batches", found=sizes, expected=want)
        seen = sorted(k for b in batches for k in b)
        need(seen == list(range(total)), "every training sample once", found=seen)
        busy = busy or len(batches) > 1
        need(len(steps) == len(batches), "updates per batch", steps=len(steps))

        # the same batches, by hand
        twin.train()
        losses = []
        for k, indexes in enumerate(batches):
            lattice, numbers, positions, target = gather(training, indexes)
            for a, b in zip(twin.parameters(), visits[k]["parameters"]):
                close(
                    b.numpy(), a.detach().numpy(), "parameters before a batch",
                    rtol, atol, batch=k, epoch=number,
                )
            same(visits[k]["lattice"].numpy(), lattice.numpy(), "lattice of a batch")
            same(visits[k]["numbers"].numpy(), numbers.numpy(), "atomic numbers")
            twin_optimizer.zero_grad()
            out = PotGNN.forward(twin, lattice, numbers, positions)
            loss = loss_function(out, target)
            losses.append(float(loss))
            loss.backward()
            twin_optimizer.step()
        for (name, a), b in zip(model.named_parameters(), twin.parameters()):
            close(
                a.detach().numpy(), b.detach().numpy(), f"{name} after an epoch",
                rtol, atol, epoch=number,
            )
        for (name, a), b in zip(model.named_buffers(), twin.buffers()):
            close(a.numpy(), b.numpy(), f"{name} after an epoch", rtol, atol, epoch=number)

        # validation
        twin.eval()
        rows = [k for c in checks for k in identify(c["positions"], validation)]
        need(sorted(rows) == list(range(case["validation"])), "validation samples once")
        validation_losses, variances = [], []
        for start in range(0, case["validation"], 100):
            indexes = range(start, min(start + 100, case["validation"]))
            lattice, numbers, positions, target = gather(validation, indexes)
            with torch.no_grad():
                out = PotGNN.forward(twin, lattice, numbers, positions)
            validation_losses.append(float(loss_function(out, target)))
            out = out.numpy()
            variances.append(((out - out.mean(0)) ** 2).sum(0) / (len(out) - 1))
        for c in checks:
            for a, b in zip(model.parameters(), c["parameters"]):
                same(a.detach().numpy(), b.numpy(), "validated with other parameters")
        need(len(result) == 3, "parts of the result")
        loose = 100 if case["double"] else 4
        close(result[0], np.mean(losses), "training loss", rtol * loose, atol * loose)
        close(
            result[1], np.mean(validation_losses), "validation loss",
            rtol * loose, atol * loose,
        )
        close(
            result[2], np.mean(variances, axis=0), "variance of predictions",
            rtol * loose, atol * loose,
        )
        # training goes on from the same state
        twin.load_state_dict(model.state_dict())
        twin_optimizer.load_state_dict(copy.deepcopy(optimizer.state_dict()))
    return busy


@sub("C24", "validation does not matter", epochs(), 120, 2000, "always")
def independent(case):
    """Training does not depend on the validation set."""
    with precision(case["double"]):
        rng = gens.rng_of(case["seed"])
        ref = ReferenceStructure(list(case["numbers"]), case["lattice"], case["positions"])
        torch.manual_seed(case["seed"] % 2**31)
        first = PotGNN(ref, 30.0, 4, 4, 1, 0, 6, np.zeros((3, 3)), np.ones((3, 3)))
        training = dataset_of(case, rng, case["training"])
        results = []
        for count in (case["validation"] % 10 + 2, case["validation"] % 7 + 3):
            model = copy.deepcopy(first)
            optimizer = new_optimizer(case["optimizer"], model.parameters())
            validation = dataset_of(case, rng, count)
            for batch_size, _ in case["epochs"]:
                torch.manual_seed(5)
                loss = train_single_epoch(
                    model, training, validation, batch_size, optimizer,
                    LOSSES[case["loss"]],
                )[0]
            results.append((loss, copy.deepcopy(model.state_dict())))
        close(results[0][0], results[1][0], "training loss", 1e-6, 1e-9)
        for name, value in results[0][1].items():
            close(
                value.numpy(), results[1][1][name].numpy(),
                f"{name} depends on the validation set", 1e-6, 1e-9,
            )
    return True
