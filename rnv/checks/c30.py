"""C30: what does not need optional packages works without them; the rest says so."""

import atexit
import os
import pickle
import struct
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from rnv import gens, models, vasp, without
from rnv.core import HarnessError, need, sub

OPTIONAL = ["torch", "torch_geometric", "pymatgen"]
CODE = "import sys; sys.path.insert(0, '/repo'); from rnv import without; without.serve()"
SERVERS = {}


def stop(process):
    """Stop a server."""
    process.stdin.close()
    process.kill()
    process.wait()


def ask(missing, bare, case, steps):
    """Return answers of a process without some packages."""
    key = (os.getpid(), *missing)
    if key not in SERVERS:
        process = subprocess.Popen(  # pylint: disable=consider-using-with
            [sys.executable, "-c", CODE, *missing],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
        )
        SERVERS[key] = process
        atexit.register(stop, process)
    process = SERVERS[key]
    blob = pickle.dumps((missing, bare, case, steps))
    try:
        process.stdin.write(struct.pack("q", len(blob)) + blob)
        process.stdin.flush()
        head = process.stdout.read(8)
        if len(head) == 8:
            answer = pickle.loads(process.stdout.read(struct.unpack("q", head)[0]))
            if isinstance(answer, tuple):
                raise HarnessError(f"a process without packages: {answer}")
            return answer
    except OSError:
        pass
    SERVERS.pop(key)
    raise HarnessError("a process without packages ended")


def equal(a, b):
    """Return whether two plain results agree."""
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        tol = 1e-4 if a.dtype == np.float32 else 1e-10
        return np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, float):
        return a == b or a != a and b != b or abs(a - b) <= 1e-10 * max(1, abs(a))
    return a == b


def lacking(needs, missing):
    """Return possible texts of the error."""
    return [text for package, text in needs.items() if package in missing]


@st.composite
def cases(draw):
    """Strategy for a crystal, what is missing, and what is done."""
    crystal = (
        draw(gens.crystals(max_atoms=5))
        if draw(st.booleans())
        else draw(models.low_symmetry(max_types=2, max_count=2))
    )
    crystal = gens.permute(crystal, np.argsort(crystal["numbers"], kind="stable"))
    missing = draw(
        st.one_of(
            st.just(list(OPTIONAL)),
            st.just(["torch", "torch_geometric"]),
            st.just(["pymatgen"]),
            st.just(["torch_geometric"]),
            st.just(["torch_geometric", "pymatgen"]),
            st.just([]),
        )
    )
    steps = draw(
        st.lists(
            st.one_of(
                st.tuples(st.just("import"), st.sampled_from(without.MODULES)),
                st.tuples(st.just("call"), st.sampled_from(sorted(without.CALLS))),
                st.tuples(st.just("call"), st.sampled_from(sorted(without.CALLS))),
            ),
            min_size=3,
            max_size=14,
        )
    )
    return {
        "crystal": crystal,
        "art": draw(st.booleans()),
        "missing": missing,
        "bare": draw(st.booleans()),
        "steps": steps,
        "seed": draw(gens.SEEDS),
    }


def world(case):
    """Return everything that the calls need."""
    rng = gens.rng_of(case["seed"])
    crystal = case["crystal"]
    n = len(crystal["numbers"])
    inverse = np.linalg.inv(crystal["lattice"])
    alpha = models.symmetric(rng)
    direction = rng.normal(size=3)
    displacement = rng.normal(size=(n, 3))
    if case["art"]:
        displacement[1:] = 0
        displacement[0] = direction
    amplitudes = np.array([-0.1, 0.12])
    values = alpha + 0.1 * models.symmetric(rng, (2,))
    cart = displacement if not case["art"] else displacement.copy()
    unit = cart / np.linalg.norm(cart)
    positions = crystal["positions"]
    result = {
        "numbers": [int(x) for x in crystal["numbers"]],
        "lattice": crystal["lattice"],
        "positions": positions,
        "alpha": alpha,
        "art": case["art"],
        "direction": direction,
        "displacement": displacement,
        "amplitudes": amplitudes,
        "values": values,
        "batch": positions + 0.03 * rng.normal(size=(4, n, 3)) @ inverse,
        "tensors": models.symmetric(rng, (9,)),
        "modes": rng.normal(size=(3, n, 3)),
        "wavenumbers": rng.uniform(50, 900, 3),
    }
    renderers = {
        "outcar": lambda c: vasp.render_outcar(c, vasp.PLAIN_OUTCAR),
        "vasprun.xml": lambda c: vasp.render_vasprun(c, vasp.PLAIN_VASPRUN),
    }

    def calculation(x, a):
        return {
            "lattice": result["lattice"],
            "numbers": result["numbers"],
            "positions": x % 1,
            "polarizability": a,
        }

    displaced = [positions + a * unit @ inverse for a in amplitudes]
    result["texts"] = {
        name: render(calculation(result["batch"][0], alpha))
        for name, render in renderers.items()
    }
    result["displaced"] = {
        name: [render(calculation(x, a)) for x, a in zip(displaced, values)]
        for name, render in renderers.items()
    }
    result["displaced"]["positions"] = displaced
    return result


@sub("C30", "missing packages", cases(), 120, 3000, "something is missing, or was refused")
def missing_packages(case):
    """Imports and calls, in any order, in a process without some packages."""
    given = world(case)
    missing = set(case["missing"])
    bare = case["bare"] and missing == set(OPTIONAL)
    reference = without.answers(given, case["steps"])
    found = ask(sorted(missing), bare, given, case["steps"])
    need(len(found) == len(reference), "number of answers")
    for (kind, name), answer, want in zip(case["steps"], found, reference):
        if kind == "import":
            need(want[0] == "fine", f"import of {name} with everything", answer=want)
        table = without.IMPORTS.get(name, {}) if kind == "import" else without.CALLS[name][1]
        texts = lacking(table, missing)
        if texts:
            need(
                answer[0] == "raised"
                and "UserError" in answer[1]
                and any(text in answer[2] for text in texts),
                f"{kind} {name} without {sorted(missing)}: not the documented error",
                answer=answer,
            )
        else:
            need(
                equal(answer, want),
                f"{kind} {name} without {sorted(missing)} differs",
                answer=answer,
                everything=want,
            )
    return bool(missing)
