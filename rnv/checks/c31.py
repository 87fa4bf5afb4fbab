"""C31: what a model says about itself is true, and so are its warnings."""

import copy
import pickle
import re
import tempfile
import warnings

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.exceptions import DOFWarning, InvalidDOFException

from rnv import gens, models
from rnv.checks.c12 import images_of
from rnv.checks.c13 import Driver
from rnv.core import need, raises, sub

OPS = [
    "add",
    "add",
    "add",
    "fill",
    "fill species",
    "refused",
    "mask",
    "masked copy",
    "masked copy",
    "unmask",
    "deepcopy",
    "pickle",
    "files",
]
CODES = re.compile("\x1b\\[([0-9;]*)m")
GREEN, YELLOW, RED = "32", "33", "31"


@st.composite
def histories(draw):
    """Strategy for a model and what happens to it."""
    if draw(st.integers(0, 2)):
        crystal = draw(gens.crystals(max_atoms=8))
    else:
        crystal = draw(models.low_symmetry(max_types=2, max_count=3))
        crystal["positions"] = crystal["positions"] % 1
    return {
        "crystal": crystal,
        "kind": draw(st.sampled_from(["art", "art", "interpolation"])),
        "dummy": draw(st.integers(0, 4)) == 0,
        "steps": draw(
            st.lists(
                st.tuples(st.sampled_from(OPS), gens.SEEDS), min_size=1, max_size=8
            )
        ),
        "seed": draw(gens.SEEDS),
    }


def colour(text, core):
    """Return colour of a part of the description, or None."""
    for match in CODES.finditer(text):
        rest = text[match.end() :]
        if rest.startswith(core) and match.group(1) not in ("", "0"):
            codes = match.group(1).split(";")
            return next((c for c in codes if c in (GREEN, YELLOW, RED)), None)
    return None


def expected_colour(count, total):
    """Return colour that tells how much was specified."""
    if count == total:
        return GREEN
    return YELLOW if count else RED


def check_attention(text, mask, dummy):
    """Check remarks on masks and dummy models."""
    plain = CODES.sub("", text)
    remarks = [line for line in plain.splitlines() if "ATTENTION" in line]
    masked = [line for line in remarks if "masked" in line]
    need(len(masked) == int(any(mask)), "remark on the mask", text=plain, mask=mask)
    if any(mask):
        found = re.findall(r"(\d+)/(\d+)", masked[0])
        want = [(str(int(np.sum(mask))), str(len(mask)))]
        need(found == want, "number of masked degrees of freedom", text=plain, want=want)
    need(
        sum("dummy" in line for line in remarks) == int(dummy),
        "remark on dummy models",
        text=plain,
    )
    need(len(remarks) == int(any(mask)) + int(dummy), "remarks", text=plain)


def check_interpolation(driver, text, count):
    """Check the description of an interpolation model."""
    plain = CODES.sub("", text).splitlines()[0]
    core = f"{count}/{3 * driver.n}"
    need(
        re.findall(r"\d+/\d+", plain) == [core],
        "number of degrees of freedom",
        text=plain,
        want=core,
    )
    need("InterpolationModel" in plain, "type", text=plain)
    need(
        colour(text, core) == expected_colour(count, 3 * driver.n),
        "colour of the number of degrees of freedom",
        text=text,
    )


def check_art(driver, model, text, basis, adapted):
    """Check the table of an ART model."""
    orbits = {
        frozenset(int(image[i]) for _, _, image in driver.operations)
        for i in range(driver.n)
    }
    owner = [int(np.linalg.norm(b, axis=1).argmax()) for b in basis]
    seen, total, complete = set(), 0, True
    raw = [line for line in text.splitlines() if "│" in line]
    for line in raw:
        cells = [CODES.sub("", c).strip() for c in line.strip().strip("│").split("│")]
        need(len(cells) == 4, "cells of a row", row=line)
        if not cells[0].isdigit():
            need("index" in cells[0], "header", row=line)
            continue
        atom = int(cells[0])
        orbit = next(o for o in orbits if atom in o)
        need(orbit not in seen, "two rows for equivalent atoms", row=line)
        seen.add(orbit)
        need(cells[3] == str(len(orbit) - 1), "number of equivalent atoms", row=line)
        mine = [basis[k][atom] for k, o in enumerate(owner) if o == atom]
        need(cells[2] == f"{len(mine)}/3", "number of directions", row=line)
        need(
            colour(line, cells[2]) == expected_colour(len(mine), 3),
            "colour of the number of directions",
            row=line,
        )
        rows = [
            [float(x) for x in part.split()]
            for part in re.findall(r"\[([^\]]*)\]", cells[1])
        ]
        need(len(rows) == len(mine), "directions of a row", row=line)
        for a in mine:
            near = min(np.abs(np.array(b) - a).max() for b in rows)
            need(near < 1.1e-5, "a direction is missing from its row", row=line, want=a)
        total += len(mine) * len(orbit)
        complete = complete and len(mine) == 3
    need(seen == orbits, "rows", seen=seen, orbits=orbits)
    if adapted:
        need(total == len(basis), "the table adds up to the model", total=total)
        need(complete == (len(basis) == 3 * driver.n), "complete table")
    tuples = model.get_specification_tuples()
    need(len(tuples) == len(orbits), "specification tuples")


def check(driver, model, mask, adapted):
    """Check everything that a model says."""
    text = repr(model)
    need(str(model) == text, "str")
    basis = model.cart_basis_vectors
    need(len(basis) == len(mask), "degrees of freedom", want=len(mask))
    need(list(model.mask) == mask, "mask", found=model.mask, want=mask)
    rank = 0
    if basis:
        rank = np.linalg.matrix_rank(np.array(basis).reshape(len(basis), -1), 1e-3)
    need(rank == len(basis), "degrees of freedom are independent")
    check_attention(text, mask, driver.dummy)
    if driver.art:
        check_art(driver, model, text, basis, adapted)
    else:
        check_interpolation(driver, text, len(basis))


def aligned(driver, unit):
    """Return whether images of an ART are collinear or orthogonal.

    Otherwise which of them are degrees of freedom is a choice.
    """
    if not driver.art:
        return True
    images = np.array(
        [image for _, image in images_of(driver.crystal, driver.operations, unit)]
    )
    rows = images.reshape(len(images), -1)
    rows = rows / np.linalg.norm(rows, axis=1)[:, None]
    cosines = np.abs(rows @ rows.T)
    return bool(np.all((cosines < 1e-6) | (cosines > 1 - 1e-6)))


def data(driver, unit, rng):
    """Return amplitudes, whether to include the reference, and the order."""
    h = driver.size(unit)
    assume(h > 0.01)
    even = driver.even(unit)
    include = not driver.art and bool(rng.integers(0, 2))
    sizes = h * np.array([1.0, 0.6, 0.35])[rng.permutation(3)]
    if driver.art:
        count = 1 if even else 2
    else:
        count = int(rng.integers(1 if even or include else 2, 4))
    sizes = sizes[:count]
    pattern = rng.integers(0, 4)
    signs = rng.choice([-1.0, 1.0], count)
    if pattern == 0:
        signs[:] = 1
    elif pattern == 1:
        signs[:] = -1
    amplitudes = signs * sizes
    if not driver.art and not include and count > 1 and rng.integers(0, 5) == 0:
        amplitudes[0] = 0.0
    points = count * (1 + even) + include
    if even and np.any(amplitudes == 0):
        amplitudes[0] = h * 0.1
    # the shortest must be clearly different from zero
    assume(np.all((amplitudes == 0) | (np.abs(amplitudes) > 3e-3)))
    everything = np.concatenate([amplitudes, -amplitudes if even else []])
    return amplitudes, include, int(rng.integers(1, min(points, 4))), everything


def warned(function, everything):
    """Call, and check the warnings."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        function()
    texts = [str(w.message) for w in caught if issubclass(w.category, DOFWarning)]
    high, low = everything.max() <= 0, everything.min() >= 0
    need(
        bool(texts) == bool(high or low),
        "the warning that the data are on one side",
        amplitudes=everything,
        texts=texts,
    )
    need(
        high == any("max" in t for t in texts) and low == any("min" in t for t in texts),
        "which side the warning names",
        amplitudes=everything,
        texts=texts,
    )
    return bool(texts)


@sub(
    "C31",
    "histories",
    histories(),
    420,
    5000,
    "symmetry added a degree of freedom, some were masked, or a warning was due",
)
def run(case):
    """A model, its copies, and what they say."""
    with tempfile.TemporaryDirectory() as directory:
        driver = Driver(case, directory)
        mask, nontrivial, adapted = [], False, True
        copies = []

        def add(unit, rng, files=False):
            nonlocal mask, adapted
            adapted = adapted and aligned(driver, unit)
            amplitudes, include, order, everything = data(driver, unit, rng)
            before = len(mask)
            if files:
                positions = driver.positions(unit, amplitudes)
                return via(positions, everything, before)
            result = warned(
                lambda: driver.call(unit, amplitudes, None, order, include), everything
            )
            mask = mask + [False] * (len(driver.model.cart_basis_vectors) - before)
            need(len(mask) > before, "nothing was added")
            return result or len(mask) > before + 1

        def via(positions, everything, before):
            nonlocal mask
            # the sign of the displacement is that of the first file
            if np.all(everything > 0) or np.all(everything < 0):
                everything = np.abs(everything)
            else:
                everything = everything * np.sign(everything[0])
            result = warned(lambda: driver.via_files(positions), everything)
            mask = mask + [False] * (len(driver.model.cart_basis_vectors) - before)
            return result or len(mask) > before + 1

        check(driver, driver.model, mask, adapted)
        for name, seed in case["steps"]:
            rng = gens.rng_of(seed)
            model, count = driver.model, len(mask)
            if name == "add":
                unit = driver.free(rng)
                if unit is not None:
                    nontrivial = add(unit, rng) or nontrivial
            elif name == "files":
                unit = driver.free(rng)
                exact = driver.size(unit) > 0.03 if unit is not None else False
                if exact and np.abs(driver.lattice).max() < 30 and driver.art:
                    nontrivial = add(unit, rng, True) or nontrivial
            elif name in ("fill", "fill species"):
                limit = 3 * driver.n if name == "fill" else int(rng.integers(1, 5))
                for _ in range(limit):
                    unit = driver.free(rng)
                    if unit is None:
                        break
                    nontrivial = add(unit, rng) or nontrivial
            elif name == "refused" and count:
                unit = model.cart_basis_vectors[rng.integers(0, count)]
                if not driver.art:
                    unit = unit + 0.05 * rng.normal(size=unit.shape)
                with raises(InvalidDOFException, "direction specified before"):
                    driver.call(unit, np.array([-0.05, 0.05]))
            elif name == "mask" and count:
                mask = [bool(x) for x in rng.integers(0, 2, count)]
                model.mask = np.array(mask)
                nontrivial = nontrivial or any(mask)
            elif name == "masked copy":
                chosen = [int(k) for k in rng.permutation(count)[: rng.integers(0, 4)]]
                other = model.get_masked_model(chosen)
                new = [k in chosen for k in range(count)]
                need(type(other) is type(model), "type")
                copies.append((other, new))
                nontrivial = nontrivial or any(new)
                if rng.integers(0, 3) == 0:
                    driver.model, mask = other, list(new)
                    copies[-1] = (model, list(model.mask))
            elif name == "unmask":
                model.unmask()
                mask = [False] * count
            elif name == "deepcopy":
                copies.append((driver.model, list(mask)))
                driver.model = copy.deepcopy(model)
            elif name == "pickle":
                copies.append((driver.model, list(mask)))
                driver.model = pickle.loads(pickle.dumps(model))
            check(driver, driver.model, mask, adapted)
            for other, new in copies[-3:]:
                check(driver, other, new, adapted)
        if len(mask) == 3 * driver.n:
            rng = gens.rng_of(case["seed"])
            unit = np.zeros((driver.n, 3))
            unit[rng.integers(0, driver.n)] = gens.rotation(rng)[0]
            with raises(InvalidDOFException, "a complete model accepted more"):
                driver.call(unit, np.array([-0.05, 0.05]))
        else:
            unit = driver.free(gens.rng_of(case["seed"]))
            if unit is not None:
                add(unit, gens.rng_of(case["seed"]))
                check(driver, driver.model, mask, adapted)
    return nontrivial
