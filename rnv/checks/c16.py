"""C16: the route and units of specifying a degree of freedom do not matter."""

import tempfile

import numpy as np
import pymatgen.core
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.exceptions import InvalidDOFException, UserError
from ramannoodle.io.vasp import poscar, xdatcar
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

from rnv import gens, models, vasp
from rnv.checks.c12 import amplitudes_for
from rnv.checks.c13 import Driver
from rnv.checks.c12 import images_of
from rnv.core import close, need, raises, same, sub

FORMATS = ["outcar", "vasprun.xml"]


@st.composite
def cases(draw, kind="interpolation"):
    """Strategy for degrees of freedom of a crystal."""
    if draw(st.booleans()):
        crystal = draw(gens.crystals(max_atoms=8))
    else:
        crystal = draw(models.low_symmetry(max_types=4, max_count=3))
    return {
        "crystal": crystal,
        "kind": kind,
        "dummy": False,
        "count": draw(st.integers(1, 2)),
        "order": draw(st.sampled_from([1, 1, 2, 3])),
        "seed": draw(gens.SEEDS),
    }


def model_of(driver, dummy=False):
    """Return new model."""
    ref = ReferenceStructure(
        list(driver.crystal["numbers"]),
        driver.lattice.copy(),
        driver.crystal["positions"].copy(),
    )
    cls = ARTModel if driver.art else InterpolationModel
    return cls(ref, driver.alpha.copy(), dummy)


def displaced(driver, unit, amplitudes, rng):
    """Return displaced positions, some in neighboring cells."""
    result = []
    for a in amplitudes:
        p = driver.crystal["positions"] + a * unit @ driver.inverse
        p = p % 1 if rng.integers(0, 3) else p + rng.integers(-1, 2, p.shape)
        result.append(p)
    return result


def paths_of(driver, positions, polarizabilities, file_format, rng):
    """Write files."""
    paths = []
    for k, (p, polarizability) in enumerate(zip(positions, polarizabilities)):
        path = f"{driver.directory}/{rng.integers(0, 10**9)}"
        numbers = list(driver.crystal["numbers"])
        if file_format == "poscar":
            poscar.write_structure(driver.lattice, numbers, p % 1, path)
        elif file_format == "xdatcar":
            xdatcar.write_trajectory(driver.lattice, numbers, (p % 1)[None], path)
        else:
            calc = {
                "lattice": driver.lattice,
                "numbers": numbers,
                "positions": p,
                "polarizability": polarizability,
            }
            if file_format == "outcar":
                text = vasp.render_outcar(calc, vasp.PLAIN_OUTCAR)
            else:
                text = vasp.render_vasprun(calc, vasp.PLAIN_VASPRUN)
            vasp.write(path, text)
        paths.append(path)
    return paths


def plan(case, driver, rng):
    """Return degrees of freedom that can be added one after the other."""
    scratch = driver.model
    result = []
    for _ in range(case["count"]):
        unit = driver.free(rng)
        if unit is None:
            break
        if driver.art:
            h = driver.size(unit)
            amplitudes = np.array([h]) if driver.even(unit) else np.array([-h, h * 0.8])
            order = 1
        else:
            order = case["order"]
            images = images_of(driver.crystal, driver.operations, unit)
            # in units of 0.1 angstrom, or less in small cells
            amplitudes = amplitudes_for({**case, "order": order}, images, unit, True)
            amplitudes = amplitudes * driver.size(unit) / 0.1
        assume(np.abs(amplitudes).min() > 5e-3)
        polarizabilities = np.round(
            driver.alpha + 0.1 * rng.normal(size=(len(amplitudes), 3, 3)), 6
        )
        dof = (unit, amplitudes, polarizabilities, order)
        result.append(dof)
        in_memory(scratch, driver.art, dof, 1.0)
    return result


def in_memory(model, art, dof, factor):
    """Add with the displacement multiplied by a factor."""
    unit, amplitudes, polarizabilities, order = dof
    amplitudes = amplitudes * np.sign(factor)
    if art:
        atom = int(np.abs(unit).sum(axis=1).argmax())
        model.add_art(atom, unit[atom] * factor, amplitudes, polarizabilities)
    else:
        model.add_dof(unit * factor, amplitudes, polarizabilities, order)


def from_pymatgen(model, driver, dof, rng):
    """Add from structures."""
    unit, amplitudes, polarizabilities, order = dof
    structures = [
        pymatgen.core.Structure(driver.lattice, driver.crystal["numbers"], p)
        for p in displaced(driver, unit, amplitudes, rng)
    ]
    if driver.art:
        model.add_art_from_pymatgen(structures, polarizabilities)
    else:
        model.add_dof_from_pymatgen(structures, polarizabilities, order)


def from_files(model, driver, dof, file_format, rng):
    """Add from files."""
    unit, amplitudes, polarizabilities, order = dof
    positions = displaced(driver, unit, amplitudes, rng)
    paths = paths_of(driver, positions, polarizabilities, file_format, rng)
    if len(paths) == 1 and rng.integers(0, 2):
        paths = paths[0]
    if driver.art:
        model.add_art_from_files(paths, file_format)
    else:
        model.add_dof_from_files(paths, file_format, order)


def shuffled(dof, rng):
    """Return the same data in another order."""
    unit, amplitudes, polarizabilities, order = dof
    index = rng.permutation(len(amplitudes))
    return unit, amplitudes[index], polarizabilities[index], order


def reject(model, driver, dof):
    """Offer degrees of freedom that are wrong with or without polarizabilities."""
    unit, amplitudes, _, order = dof
    wrong = [np.array([amplitudes[0], amplitudes[0]])]
    if driver.even(unit):
        wrong.append(np.array([amplitudes[0], -amplitudes[0]]))
    for given in wrong:
        with raises(InvalidDOFException, "a dummy model takes duplicate amplitudes"):
            in_memory(model, driver.art, (unit, given, None, 1), 1.0)
    if not driver.art:
        points = 1 + len(amplitudes) * (2 if driver.even(unit) else 1)
        with raises(InvalidDOFException, "a dummy model takes too few points"):
            in_memory(model, False, (unit, amplitudes, None, points), 1.0)


def run(case):
    """Compare all routes."""
    rng = gens.rng_of(case["seed"])
    with tempfile.TemporaryDirectory() as directory:
        driver = Driver(case, directory)
        assume(np.abs(driver.lattice).max() < 25)
        dofs = plan(case, driver, rng)
        base = driver.model
        rows = rng.normal(size=(4, driver.n, 3))
        rows = rows * rng.choice([0.02, 0.2]) / np.abs(rows @ driver.inverse).max()
        batch = driver.crystal["positions"] + rows @ driver.inverse
        want = base.calc_polarizabilities(batch)
        scale = max(1, np.abs(want).max())

        def compare(model, tol, what):
            need(
                len(model.cart_basis_vectors) == len(base.cart_basis_vectors),
                f"number of degrees of freedom ({what})",
            )
            close(
                model.calc_polarizabilities(batch),
                want,
                f"prediction ({what})",
                tol,
                tol * scale,
            )

        for factor in (1e-4, -1.0, 300.0):
            model = model_of(driver)
            for dof in dofs:
                in_memory(model, driver.art, shuffled(dof, rng), factor)
            compare(model, 1e-7, f"displacements multiplied by {factor}")
        copies = [[np.copy(a) for a in dof[:3]] for dof in dofs]
        model = model_of(driver)
        for dof in dofs:
            from_pymatgen(model, driver, shuffled(dof, rng), rng)
        compare(model, 1e-6, "pymatgen")
        for file_format in FORMATS:
            model = model_of(driver)
            for dof in dofs:
                from_files(model, driver, shuffled(dof, rng), file_format, rng)
            compare(model, 4e-4, file_format)
        for dof, copy in zip(dofs, copies):
            for a, b in zip(dof, copy):
                same(a, b, "an argument was modified")

        # dummy models
        grouped = len(vasp.groups_of(driver.crystal["numbers"])) == len(
            set(driver.crystal["numbers"])
        )
        routes = ["memory", "pymatgen", *FORMATS]
        if grouped:
            routes += ["poscar", "xdatcar"]
        for route in routes:
            model = model_of(driver, dummy=True)
            need(model.is_dummy_model, "dummy model")
            with raises(UserError, "an empty dummy model predicts"):
                model.calc_polarizabilities(batch)
            for dof in dofs:
                unit, amplitudes, polarizabilities, order = dof
                if route == "memory":
                    nothing = (unit, amplitudes, None, order)
                    reject(model, driver, nothing)
                    in_memory(model, driver.art, nothing, 1.0)
                    with raises(InvalidDOFException, "a dummy model repeats a DOF"):
                        in_memory(model, driver.art, nothing, 1.0)
                elif route == "pymatgen":
                    from_pymatgen(model, driver, dof, rng)
                else:
                    from_files(model, driver, dof, route, rng)
                with raises(UserError, f"a dummy model predicts ({route})"):
                    model.calc_polarizabilities(batch)
            ours, theirs = model.cart_basis_vectors, base.cart_basis_vectors
            need(len(ours) == len(theirs), "DOFs of a dummy model", route=route)
            for a, b in zip(ours, theirs):
                close(abs(np.vdot(a, b)), 1.0, "DOF of a dummy model", 0, 1e-5)
            need(len(model.mask) == len(ours), "mask of a dummy model")
            masked = model.get_masked_model([0])
            with raises(UserError, "a masked dummy model predicts"):
                masked.calc_polarizabilities(batch)
    return len(base.cart_basis_vectors) > 1


RULE = "more than one degree of freedom"
sub("C16", "interpolation models", cases(), 260, 3500, RULE)(run)
sub("C16", "ART models", cases("art"), 200, 2500, RULE)(run)
