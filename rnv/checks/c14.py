"""C14: masking removes exactly the chosen contributions."""

import copy

import numpy as np
from hypothesis import strategies as st

from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.pmodel import ARTModel
from ramannoodle.structure import ReferenceStructure

from rnv import gens, models
from rnv.checks.c11 import build, configurations
from rnv.core import close, need, raises, same, sub

OPS = [
    "mask copy",
    "mask copy",
    "mask copy",
    "set mask",
    "unmask",
    "add",
    "rejected add",
    "bad mask",
    "bad index",
    "deepcopy",
    "tamper",
    "predict",
]


@st.composite
def histories(draw):
    """Strategy for operations on models derived from one another."""
    return {
        **draw(models.model_cases(max_dofs=5)),
        "initial": draw(st.integers(1, 5)),
        "ops": draw(
            st.lists(
                st.tuples(st.sampled_from(OPS), gens.SEEDS), min_size=1, max_size=10
            )
        ),
    }


@sub(
    "C14",
    "histories",
    histories(),
    700,
    9000,
    "a proper subset of at least two degrees of freedom was masked",
)
def run(case):
    """Models and their masked copies against contributions computed apart."""
    rng = gens.rng_of(case["seed"])
    total = len(case["dofs"])
    initial = min(case["initial"], total)
    first = build(case, range(initial))
    amplitudes, displacements = configurations(case, 3, rng)
    batch = case["structure"]["positions"] + displacements @ np.linalg.inv(
        case["structure"]["lattice"]
    )
    functions = [models.dof_function(dof, case["alpha"]) for dof in case["dofs"]]
    terms = np.array(
        [[f(a) for f, a in zip(functions, one)] for one in amplitudes]
    )  # samples, dofs, 3, 3
    scale = max(1.0, np.abs(terms).max())
    pool = [[first, [False] * initial]]  # model and expected mask
    nontrivial = False

    def check():
        for model, mask in pool:
            same(model.mask, np.array(mask, dtype=bool), "mask")
            need(model.mask.dtype == bool, "mask type")
            kept = ~np.array(mask, dtype=bool)
            want = case["alpha"] + terms[:, : len(mask)][:, kept].sum(axis=1)
            close(
                model.calc_polarizabilities(batch),
                want,
                "prediction with some degrees of freedom masked",
                1e-6,
                1e-7 * scale,
                mask=mask,
            )
            need(len(model.cart_basis_vectors) == len(mask), "degrees of freedom")
            need(len(model.interpolations) == len(mask), "interpolations")
            need(
                ("ATTENTION" in repr(model)) == any(mask),
                "the description tells whether something is masked",
                text=repr(model),
            )

    check()
    for name, seed in case["ops"]:
        op = gens.rng_of(seed)
        entry = pool[op.integers(0, len(pool))]
        model, mask = entry
        count = len(mask)
        if name == "mask copy":
            size = op.integers(0, count + 2)
            indexes = op.integers(0, count, size)
            given = [int(i) for i in indexes]
            if op.integers(0, 4) == 0 and size:
                given = indexes
            result = model.get_masked_model(given)
            need(type(result) is type(model), "type of the masked copy")
            need(result is not model, "the masked copy is the model")
            new = [i in set(map(int, indexes)) for i in range(count)]
            pool.append([result, new])
            nontrivial = nontrivial or (any(new) and not all(new))
            # complement: contributions add up to all
            rest = model.get_masked_model([i for i in range(count) if not new[i]])
            none = model.get_masked_model([])
            close(
                result.calc_polarizabilities(batch) + rest.calc_polarizabilities(batch),
                none.calc_polarizabilities(batch) + case["alpha"],
                "complementary maskings do not add up",
                1e-8,
                1e-9 * scale,
            )
        elif name == "set mask":
            new = op.integers(0, 2, count).astype(bool)
            model.mask = new
            entry[1] = new.tolist()
            new[:] = ~new  # the caller's array is not kept
        elif name == "unmask":
            model.unmask()
            entry[1] = [False] * count
        elif name == "add" and count < total:
            models.add(model, case["dofs"][count])
            entry[1] = mask + [False]
        elif name == "rejected add":
            with raises(InvalidDOFException, "the same DOF again"):
                models.add(model, case["dofs"][0])
        elif name == "bad mask":
            with raises(ValueError, "mask of another length"):
                model.mask = np.zeros(count + 1, dtype=bool)
            if count > 1:
                with raises(ValueError, "mask of length one"):
                    model.mask = np.ones(1, dtype=bool)
        elif name == "bad index":
            with raises(IndexError, "index beyond the last DOF"):
                model.get_masked_model([0, count])
        elif name == "deepcopy":
            pool.append([copy.deepcopy(model), list(mask)])
        elif name == "tamper":
            model.mask[:] = True
            for b in model.cart_basis_vectors:
                b *= 2
            for s in model.interpolations:
                s.c *= 2
        pool = pool[-4:] if pool[0][0] is not first else [pool[0]] + pool[1:][-3:]
        check()
    return nontrivial


@st.composite
def art_cases(draw):
    """Strategy for ART models masked by atoms."""
    structure = draw(models.low_symmetry())
    structure["positions"] = structure["positions"] % 1
    n = len(structure["numbers"])
    arts = draw(
        st.lists(
            st.tuples(st.integers(0, n - 1), st.integers(0, 2)),
            min_size=1,
            max_size=8,
            unique=True,
        )
    )
    return {"structure": structure, "arts": arts, "seed": draw(gens.SEEDS)}


@sub(
    "C14",
    "by atoms",
    art_cases(),
    400,
    5000,
    "some but not all degrees of freedom belong to the atoms",
)
def by_atoms(case):
    """ART models masked by atoms or symbols see only the others move."""
    from rnv.vasp import symbol_of  # pylint: disable=import-outside-toplevel

    structure = case["structure"]
    rng = gens.rng_of(case["seed"])
    numbers = structure["numbers"]
    n = len(numbers)
    ref = ReferenceStructure(
        list(numbers), structure["lattice"].copy(), structure["positions"].copy()
    )
    from hypothesis import assume

    assume(models.is_general(ref))
    alpha = models.symmetric(rng)
    model = ARTModel(ref, alpha)
    frames = [gens.rotation(rng) for _ in range(n)]
    slopes = []
    for atom, axis in case["arts"]:
        unit = np.zeros((n, 3))
        unit[atom] = frames[atom][axis]
        h = min(0.1, models.reach_of(unit, structure["lattice"], 0.2))
        slope = models.symmetric(rng)
        slopes.append(slope)
        model.add_art(
            atom,
            frames[atom][axis],
            np.array([-h, h]),
            np.array([alpha - h * slope, alpha + h * slope]),
        )
    d = rng.normal(size=(2, n, 3))
    inverse = np.linalg.inv(structure["lattice"])
    d = d * 0.4 / np.abs(d @ inverse).max()
    batch = structure["positions"] + d @ inverse

    def want(hidden):
        result = np.array([alpha, alpha])
        for (atom, axis), slope in zip(case["arts"], slopes):
            if atom not in hidden:
                amplitude = d[:, atom] @ frames[atom][axis]
                result = result + amplitude[:, None, None] * slope
        return result

    scale = max(1, np.abs(d).max() * 10)
    hidden = {int(a) for a in rng.integers(0, n, rng.integers(1, n + 1))}
    masked = model.get_masked_model(model.get_dof_indexes(sorted(hidden)))
    need(isinstance(masked, ARTModel), "type of the masked copy")
    close(
        masked.calc_polarizabilities(batch), want(hidden), "masked atoms", 1e-8,
        1e-9 * scale,
    )
    number = numbers[rng.integers(0, n)]
    of_species = {i for i in range(n) if numbers[i] == number}
    symbol = symbol_of(number)
    masked = masked.get_masked_model(masked.get_dof_indexes(symbol))
    close(
        masked.calc_polarizabilities(batch), want(of_species), "masked species", 1e-8,
        1e-9 * scale,
    )
    mixed = model.get_dof_indexes([symbol, *sorted(hidden)])
    masked = model.get_masked_model(mixed)
    close(
        masked.calc_polarizabilities(batch),
        want(of_species | hidden),
        "masked species and atoms",
        1e-8,
        1e-9 * scale,
    )
    masked.unmask()
    close(masked.calc_polarizabilities(batch), want(set()), "unmasked", 1e-8, 1e-9 * scale)
    close(model.calc_polarizabilities(batch), want(set()), "original", 1e-8, 1e-9 * scale)
    part = [a in hidden for a, _ in case["arts"]]
    return any(part) and not all(part)
