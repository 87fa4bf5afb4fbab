"""C28: calls leave the process as they found it, and depend only on their arguments."""

import atexit
import contextlib
import copy
import decimal
import io
import locale
import logging
import os
import pickle
import random
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np
import torch
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.pmodel.torch import PotGNN, train_single_epoch

from rnv import gens
from rnv.checks import c05, c21, c26
from rnv.checks.c21 import World, equal, freeze
from rnv.core import HarnessError, need, sub

GENERATORS = ("random", "numpy's generator", "torch's generator")


def snapshot(folder):
    """Return state that all code of the process shares."""
    numpy_state = np.random.get_state()
    context = decimal.getcontext()
    umask = os.umask(0o22)
    os.umask(umask)
    files = []
    for name in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            files.append((name, os.readlink(f"/proc/self/fd/{name}")))
    return {
        "random": hash(random.getstate()),
        "numpy's generator": (numpy_state[1].tobytes(), numpy_state[2:]),
        "torch's generator": torch.get_rng_state().numpy().tobytes(),
        "torch's defaults": (
            str(torch.get_default_dtype()),
            str(torch.get_default_device()),
            torch.get_num_threads(),
            torch.are_deterministic_algorithms_enabled(),
            torch.is_anomaly_enabled(),
            torch.get_printoptions() if hasattr(torch, "get_printoptions") else None,
        ),
        "gradient mode": (torch.is_grad_enabled(), torch.is_inference_mode_enabled()),
        "floating-point errors": np.geterr(),
        "printing": {k: v for k, v in np.get_printoptions().items() if k != "formatter"},
        "warnings": [str(f) for f in warnings.filters],
        "directory": os.getcwd(),
        "content of the directory": sorted(os.listdir(".")),
        "temporary files": sorted(os.listdir(folder)),
        "environment": dict(os.environ),
        "open files": sorted(f for f in files if "/proc/" not in f[1]),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal": (context.prec, context.rounding),
        "umask": umask,
        "path": list(sys.path),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "excepthook": id(sys.excepthook),
        "limit": sys.getrecursionlimit(),
        "signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)],
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled),
        "threads": sorted(t.name for t in threading.enumerate()),
    }


def unchanged(before, after, what, but=()):
    """Compare snapshots."""
    for key, value in before.items():
        if key not in but:
            need(
                after[key] == value,
                f"{what} changed: {key}",
                before=value,
                after=after[key],
            )


@contextlib.contextmanager
def circumstances(seed, folder, gradients=None):
    """Change the state of the process."""
    rng = gens.rng_of(seed)
    saved = (
        random.getstate(),
        np.random.get_state(),
        torch.get_rng_state(),
        os.getcwd(),
        decimal.getcontext().prec,
        torch.is_grad_enabled(),
        tempfile.tempdir,
    )
    elsewhere = os.path.join(folder, "elsewhere")
    temporary = os.path.join(folder, "temporary")
    os.makedirs(elsewhere, exist_ok=True)
    os.makedirs(temporary, exist_ok=True)
    error = str(rng.choice(["ignore", "warn"]))
    printing = {
        "precision": int(rng.integers(0, 4)),
        "threshold": int(rng.integers(0, 3)),
        "suppress": bool(rng.integers(0, 2)),
        "linewidth": int(rng.integers(20, 60)),
    }
    try:
        with (
            warnings.catch_warnings(),
            np.errstate(all=error),
            np.printoptions(**printing),
            contextlib.redirect_stdout(io.StringIO()) as stdout,
            contextlib.redirect_stderr(io.StringIO()),
        ):
            warnings.simplefilter(str(rng.choice(["ignore", "always", "once"])))
            random.seed(int(seed))
            np.random.seed(int(seed) % 2**32)
            torch.manual_seed(int(seed))
            decimal.getcontext().prec = int(rng.integers(3, 40))
            torch.set_grad_enabled(
                bool(rng.integers(0, 2)) if gradients is None else gradients
            )
            os.chdir(elsewhere)
            tempfile.tempdir = temporary
            yield temporary
            need(stdout.getvalue() == "", "something was printed", text=stdout.getvalue())
    finally:
        random.setstate(saved[0])
        np.random.set_state(saved[1])
        torch.set_rng_state(saved[2])
        os.chdir(saved[3])
        decimal.getcontext().prec = saved[4]
        torch.set_grad_enabled(saved[5])
        tempfile.tempdir = saved[6]


@contextlib.contextmanager
def closing():
    """Check that files are closed when they are no longer needed."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("ignore")
        warnings.simplefilter("always", ResourceWarning)
        yield
    texts = [str(w.message) for w in caught if issubclass(w.category, ResourceWarning)]
    need(not texts, "a file was not closed", warnings=texts)


WARM = []


def warm_up():
    """Load whatever is loaded on first use."""
    if WARM:
        return
    WARM.append(1)
    case = {
        "crystal": {
            "lattice": np.diag([4.0, 5.0, 6.0]),
            "numbers": [1, 8],
            "positions": np.array([[0.1, 0.2, 0.3], [0.6, 0.6, 0.7]]),
        },
        "art": False,
        "atomic": False,
        "masked": False,
        "rescaled": False,
        "gnn": True,
        "order": 1,
        "direction": [1, 0, 0],
        "seed": 1,
    }
    with tempfile.TemporaryDirectory() as directory:
        world = World({**case, "directory": directory})
        for i in range(len(world.queries)):
            world.ask(i, False)
        path = os.path.join(directory, "garbage")
        with open(path, "wb") as file:
            file.write(b"1 2 3\n4 5")
        for reader in sum(c05.READERS.values(), []):
            with contextlib.suppress(Exception):
                reader(path)
        for k, build in enumerate(dict.fromkeys(c26.TARGETS.values())):
            data = os.path.join(directory, str(k))
            os.mkdir(data)
            made = build(gens.rng_of(1), 2, 2, data)
            with contextlib.suppress(Exception), c26.quiet():
                made.call(**made.arguments)
    with c26.quiet():
        train({"n": 2, "samples": 2, "batch": 2, "passes": 1, "epochs": 1, "seed": 1}, 1)


@sub("C28", "queries", c21.cases(), 200, 6000, "the model has a degree of freedom")
def queries(case):
    """Constructors, queries, readers, and writers."""
    warm_up()
    rng = gens.rng_of(case["seed"])
    with tempfile.TemporaryDirectory() as folder:
        data = os.path.join(folder, "data")
        os.mkdir(data)
        answers = None
        for turn in range(3):
            seed = int(rng.integers(0, 2**31))
            with circumstances(seed, folder) as temporary, closing():
                before = snapshot(temporary)
                world = World({**case, "directory": data})
                unchanged(
                    before,
                    snapshot(temporary),
                    "making objects",
                    GENERATORS[2:] if case["gnn"] else (),
                )
                found = []
                order = rng.permutation(len(world.queries))
                before = snapshot(temporary)
                for i in order:
                    found.append(world.ask(i, False)[0])
                after = snapshot(temporary)
                if before != after:  # find out which one did it
                    for i in order:
                        now = snapshot(temporary)
                        world.ask(i, False)
                        unchanged(now, snapshot(temporary), world.queries[i][0])
                    unchanged(before, after, "something")
            found = [found[k] for k in np.argsort(order)]
            if answers is None:
                answers = found
            for i, (name, _, _) in enumerate(world.queries):
                if name == "repr":  # follows numpy's settings for printing
                    continue
                need(
                    equal(found[i], answers[i], world.tolerance.get(name, 0)),
                    f"{name} depends on the state of the process",
                    turn=turn,
                    before=answers[i],
                    now=found[i],
                )
    return world.busy


def refill(value, rng, size):
    """Change what an argument holds, in place. Returns whether it could be."""
    if isinstance(value, torch.Tensor):
        with torch.no_grad():
            value *= torch.tensor(1 - size * rng.uniform(0, 1, tuple(value.shape)))
        return value.numel() > 0
    if not isinstance(value, np.ndarray) or value.dtype.kind != "f":
        return False
    value *= 1 - size * rng.uniform(0, 1, value.shape)
    return value.size > 0


@st.composite
def refilled(draw):
    """Strategy for worlds and changes to arguments."""
    return {
        **draw(c21.cases()),
        "start": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-5])),
        "size": draw(st.sampled_from([0.5, 0.1, 1e-3, 1e-5])),
    }


@sub("C28", "buffers", refilled(), 100, 3000, "the model has a degree of freedom")
def buffers(case):
    """Calls with the same arrays, which hold something else each time."""
    with tempfile.TemporaryDirectory() as one, tempfile.TemporaryDirectory() as two:
        first = World({**case, "directory": one})
        second = World({**case, "directory": two})
        rng = gens.rng_of(case["seed"])

        def answer(function, arguments):
            try:
                return freeze(function(*arguments))
            except ValueError as exc:
                return ("raised", str(exc))

        for (name, function, arguments), (_, twin, _) in zip(
            first.queries, second.queries
        ):
            arguments = copy.deepcopy(arguments)
            if len(arguments) == 1 and isinstance(arguments[0], np.ndarray):
                arguments[0] = arguments[0] * case["start"]
            kept = copy.deepcopy(arguments)
            before = answer(function, arguments)
            if not any([refill(a, rng, case["size"]) for a in arguments]):
                continue
            tol = max(first.tolerance.get(name, 0), 1e-12)
            want = answer(twin, copy.deepcopy(arguments))
            got = answer(function, arguments)
            need(
                equal(got, want, tol),
                f"{name} answers for what its arguments held before",
                before=before,
                now=got,
                expected=want,
            )
            got = answer(twin, kept)
            need(
                equal(got, before, tol),
                f"{name} answers for other arguments",
                expected=before,
                now=got,
            )
    return first.busy


# what one element of an array may be
ODD = {"a None": None, "a text": "x", "an object": {}}


@st.composite
def rejected(draw):
    """Strategy for calls that are rejected."""
    name, argument = draw(st.sampled_from(sorted(c26.TARGETS)))
    return {
        "target": name,
        "argument": argument,
        "kind": draw(st.sampled_from(["valid", *ODD, *sorted(c26.KINDS), *c26.MUTATIONS])),
        "n": draw(st.sampled_from([1, 2, 3, 4])),
        "m": draw(st.sampled_from([1, 2, 3, 5])),
        "axis": draw(st.integers(0, 2)),
        "seed": draw(gens.SEEDS),
    }


@sub("C28", "calls", rejected(), 1500, 40000, "the call was rejected")
def calls(case):
    """Accepted and rejected calls."""
    warm_up()
    build = c26.TARGETS[(case["target"], case["argument"])]
    argument, kind = case["argument"], case["kind"]
    assume(argument != "filepaths" or kind == "valid")  # may be a relative path
    with tempfile.TemporaryDirectory() as folder:
        os.mkdir(f"{folder}/data")
        made = build(gens.rng_of(case["seed"]), case["n"], case["m"], f"{folder}/data")
        valid = made.arguments[argument]
        given = valid
        if kind in c26.KINDS:
            given = c26.KINDS[kind]
        elif kind in ODD:
            assume(isinstance(valid, np.ndarray))
            given = valid.astype(object)
            given[tuple(0 for _ in valid.shape)] = ODD[kind]
        elif kind != "valid":
            array = np.asarray(valid)
            given = c26.mutate(
                array, made.shapes[argument], kind, case["axis"] % max(array.ndim, 1)
            )
            assume(given is not None)
            if argument in made.lists:
                given = given.tolist()
            elif isinstance(valid, torch.Tensor):
                given = torch.tensor(given)
        done = False
        with circumstances(case["seed"], folder) as temporary, closing():
            before = snapshot(temporary)
            try:
                made.call(**{**made.arguments, argument: given})
            except Exception:  # pylint: disable=broad-except
                done = True
            unchanged(
                before,
                snapshot(temporary),
                f"a call of {case['target']}",
                GENERATORS[2:] if case["target"] == "PotGNN" else (),
            )
    return done


@st.composite
def files(draw):
    """Strategy for damaged files."""
    name = draw(st.sampled_from(sorted(c05.READERS)))
    return draw(c05.damaged(name))


@sub("C28", "files", files(), 800, 20000, "at least one reader refused the file")
def damaged_files(case):
    """Readers of damaged files."""
    warm_up()
    refused = False
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "F")
        with open(path, "wb") as file:
            file.write(case["data"])
        with circumstances(len(case["data"]), folder) as temporary, closing():
            for reader in [*c05.READERS[case["format"]], *c05.READERS["poscar"][:1]]:
                before = snapshot(temporary)
                try:
                    reader(path)
                except Exception:  # pylint: disable=broad-except
                    refused = True
                unchanged(before, snapshot(temporary), f"reading {case['format']}")
        with open(path, "rb") as file:
            need(file.read() == case["data"], "reading changed the file")
    return refused


@st.composite
def trainings(draw):
    """Strategy for networks, data, and training."""
    atoms = draw(st.integers(2, 4))
    return {
        "n": atoms,
        "samples": draw(st.integers(2, 7)),
        "batch": draw(st.integers(1, 4)),
        "passes": draw(st.integers(1, 2)),
        "dropout": draw(st.sampled_from([0.0, 0.2])),
        "epochs": draw(st.integers(1, 2)),
        "seed": draw(gens.SEEDS),
    }


def train(case, seed):
    """Return results of making and training a network."""
    from ramannoodle.dataset.torch import PolarizabilityDataset

    rng = gens.rng_of(case["seed"])
    s = c26.base(rng, case["n"])
    s["lattice"] = np.diag([5.0, 5.5, 6.0])

    def data(count):
        a = rng.normal(size=(count, 3, 3))
        return PolarizabilityDataset(
            s["lattice"],
            s["numbers"],
            rng.uniform(0, 1, (count, case["n"], 3)),
            a + a.transpose(0, 2, 1),
        )

    training, validation = data(case["samples"]), data(3)
    torch.manual_seed(seed)
    model = PotGNN(
        c26.reference(s),
        4.0,
        3,
        3,
        case["passes"],
        0.0,
        4.0,
        training.mean_polarizability,
        training.stddev_polarizability,
    )
    for module in model.modules():
        if isinstance(module, torch.nn.Dropout):
            module.p = case.get("dropout", 0.0)
    optimizer = torch.optim.Adam(model.parameters(), lr=1e-2)
    loss = torch.nn.MSELoss()
    results = []
    for _ in range(case["epochs"]):
        results.append(
            train_single_epoch(
                model, training, validation, case["batch"], optimizer, loss
            )
        )
    batch = rng.uniform(0, 1, (2, case["n"], 3))
    before = torch.get_rng_state()
    results.append(model.calc_polarizabilities(batch))
    need(torch.equal(before, torch.get_rng_state()), "predicting drew random numbers")
    return freeze([[list(r) if isinstance(r, tuple) else r for r in results]])


@sub("C28", "training", trainings(), 80, 1500, "there is more than one batch")
def training_is_reproducible(case):
    """Training depends on torch's seed only."""
    warm_up()
    answers, states = [], []
    seeds = gens.rng_of(case["seed"]).integers(0, 2**31, 3)
    with tempfile.TemporaryDirectory() as folder:
        for seed in seeds[:2]:
            with circumstances(int(seed), folder, True) as temporary, closing():
                before = snapshot(temporary)
                answers.append(train(case, int(seeds[2])))
                unchanged(before, snapshot(temporary), "training", GENERATORS[2:])
                train(case, int(seed))
                states.append(torch.get_rng_state())
    need(not torch.equal(*states), "making or training networks sets torch's generator")
    need(
        equal(answers[0], answers[1], 1e-6),
        "training with one seed gives different results",
        one=answers[0],
        two=answers[1],
    )
    return case["samples"] > case["batch"]


# --------------------------------------------------------------------------
# other processes
# --------------------------------------------------------------------------

SERVER = """
import os, pickle, struct, sys
out = os.dup(1)
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
os.dup2(null, 2)
import rnv.main
rnv.main._load("C28")
from rnv.checks import c28
while True:
    head = sys.stdin.buffer.read(8)
    if len(head) < 8:
        break
    case = pickle.loads(sys.stdin.buffer.read(struct.unpack("q", head)[0]))
    try:
        answer = c28.everything(case)
    except BaseException as exc:
        answer = ("failed", repr(exc))
    blob = pickle.dumps(answer)
    os.write(out, struct.pack("q", len(blob)))
    while blob:
        blob = blob[os.write(out, blob):]
"""

SETTINGS = [
    (["-O"], {"PYTHONHASHSEED": "1", "TZ": "Asia/Tokyo", "COLUMNS": "20"}),
    (
        ["-X", "utf8=0"],
        {
            "PYTHONHASHSEED": "4242",
            "LC_ALL": "C",
            "LANG": "C",
            "PYTHONCOERCECLOCALE": "0",
            "HOME": "/nonexistent",
        },
    ),
]
SERVERS = {}


def stop(process):
    """Stop a server."""
    process.stdin.close()
    process.kill()
    process.wait()


def server(index):
    """Return process under other conditions."""
    key = (os.getpid(), index)
    if key not in SERVERS:
        arguments, environment = SETTINGS[index]
        process = subprocess.Popen(  # pylint: disable=consider-using-with
            [sys.executable, *arguments, "-c", SERVER],
            env={**os.environ, **environment},
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
        )
        SERVERS[key] = process
        atexit.register(stop, process)
    return SERVERS[key]


def ask(index, case):
    """Return answer of another process."""
    process = server(index)
    blob = pickle.dumps(case)
    try:
        process.stdin.write(struct.pack("q", len(blob)) + blob)
        process.stdin.flush()
        head = process.stdout.read(8)
        if len(head) == 8:
            return pickle.loads(process.stdout.read(struct.unpack("q", head)[0]))
    except OSError:
        pass
    SERVERS.pop((os.getpid(), index))
    raise HarnessError("another process ended")


def everything(case):
    """Return all answers."""
    with (
        tempfile.TemporaryDirectory() as directory,
        warnings.catch_warnings(),
        contextlib.redirect_stderr(io.StringIO()),
    ):
        warnings.simplefilter("ignore")
        world = World({**case, "directory": directory})
        return [
            (name, world.tolerance.get(name, 1e-12), world.ask(i, False)[0])
            for i, (name, _, _) in enumerate(world.queries)
        ]


@sub("C28", "processes", c21.cases(), 120, 6000, "there are several atoms")
def processes(case):
    """Other processes, with other hash seeds and environments, give the same answers."""
    ours = everything(case)
    for index in range(len(SETTINGS)):
        theirs = ask(index, case)
        need(theirs[0] != "failed", "another process fails", error=theirs[1])
        need([x[0] for x in theirs] == [x[0] for x in ours], "number of answers")
        for (name, tol, one), (_, _, two) in zip(ours, theirs):
            need(
                equal(one, two, tol),
                f"{name} depends on the process",
                settings=SETTINGS[index],
                ours=one,
                theirs=two,
            )
    return len(case["crystal"]["numbers"]) > 1
