"""C13: degrees of freedom stay orthonormal; rejected additions change nothing."""

import tempfile
import warnings

import numpy as np
import pymatgen.core
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.io.vasp import poscar
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

from rnv import gens, models, vasp
from rnv.checks.c09 import clear_cut
from rnv.checks.c12 import images_of, is_even
from rnv.core import close, need, raises, same, sub
from rnv.oracle import crystal_operations

VALID = ["add", "add", "add", "add close", "add pymatgen", "add files"]
COMMON = [
    "overlap",
    "repeat",
    "symmetric duplicate",
    "wrong polarizabilities",
    "amplitudes (M,1)",
    "wrong rank of polarizabilities",
    "zero",
    "nan polarizability",
    "missing file",
    "unsupported format",
    "file with one atom more",
    "not collinear files",
    "warnings as errors",
]
INTERPOLATION = COMMON + [
    "duplicate",
    "zero amplitude",
    "too few points",
    "order zero",
    "order float",
    "one atom more",
    "displacement (3N,)",
]
ART = COMMON + [
    "three amplitudes",
    "atom beyond",
    "atom float",
    "several atoms in files",
    "one amplitude",
    "inherited add_dof",
    "inherited files",
    "inherited pymatgen",
    "direction (1,3)",
    "three files",
]


@st.composite
def histories(draw, kind):
    """Strategy for a model and additions to it."""
    if draw(st.booleans()):
        crystal = draw(gens.crystals(max_atoms=6))
    else:
        crystal = draw(models.low_symmetry(max_types=2, max_count=3))
        crystal["positions"] = crystal["positions"] % 1
    ops = INTERPOLATION if kind == "interpolation" else ART
    steps = draw(
        st.lists(
            st.tuples(
                st.one_of(st.sampled_from(VALID), st.sampled_from(ops)),
                gens.SEEDS,
            ),
            min_size=1,
            max_size=9,
        )
    )
    return {
        "crystal": crystal,
        "kind": kind,
        "dummy": draw(st.integers(0, 5)) == 0,
        "steps": steps,
        "seed": draw(gens.SEEDS),
    }


def state(model, probe):
    """Return everything observable about a model."""
    interpolations = [(s.t.copy(), s.c.copy(), s.k) for s in model.interpolations]
    result = {
        "basis": [b.copy() for b in model.cart_basis_vectors],
        "interpolations": interpolations,
        "mask": model.mask.copy(),
        "text": repr(model),
    }
    if not model.is_dummy_model:
        result["predictions"] = model.calc_polarizabilities(probe)
    return result


def check_unchanged(before, after, step):
    """Raise Violation unless two states are identical."""
    need(len(before["basis"]) == len(after["basis"]), "number of DOFs", step=step)
    for a, b in zip(before["basis"], after["basis"]):
        same(b, a, "a basis vector changed", step=step)
    need(
        len(before["interpolations"]) == len(after["interpolations"]),
        "number of interpolations",
        step=step,
    )
    for a, b in zip(before["interpolations"], after["interpolations"]):
        need(
            a[2] == b[2] and np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]),
            "an interpolation changed",
            step=step,
        )
    same(after["mask"], before["mask"], "the mask changed", step=step)
    need(before["text"] == after["text"], "the description changed", step=step)
    if "predictions" in before:
        same(after["predictions"], before["predictions"], "predictions", step=step)


def check_invariants(model, n, step):
    """Check that degrees of freedom are orthonormal and consistent."""
    basis = np.array(model.cart_basis_vectors).reshape(-1, 3 * n)
    count = len(basis)
    need(count <= 3 * n, "more DOFs than coordinates", step=step, count=count)
    close(
        basis @ basis.T, np.eye(count), "DOFs are not orthonormal", 0, 2e-5, step=step
    )
    need(model.mask.shape == (count,), "mask entries", step=step)
    need(model.mask.dtype == bool, "mask type", step=step, dtype=model.mask.dtype)
    if not model.is_dummy_model:
        need(len(model.interpolations) == count, "interpolations", step=step)


class Driver:
    """Performs additions and says what has to happen."""

    def __init__(self, case, directory):
        self.crystal = case["crystal"]
        self.lattice = self.crystal["lattice"]
        self.inverse = np.linalg.inv(self.lattice)
        self.n = len(self.crystal["numbers"])
        self.operations = crystal_operations(self.crystal)
        assume(self.operations is not None)
        self.art = case["kind"] == "art"
        self.dummy = case["dummy"]
        self.directory = directory
        rng = gens.rng_of(case["seed"])
        self.alpha = models.symmetric(rng)
        ref = ReferenceStructure(
            list(self.crystal["numbers"]),
            self.lattice.copy(),
            self.crystal["positions"].copy(),
        )
        cls = ARTModel if self.art else InterpolationModel
        self.model = cls(ref, self.alpha.copy(), self.dummy)
        self.probe = self.crystal["positions"] + rng.uniform(
            -0.05, 0.05, (3, self.n, 3)
        )

    # -- geometry ----------------------------------------------------------

    def free(self, rng):
        """Return unit displacement orthogonal to all degrees of freedom, or None."""
        basis = np.array(self.model.cart_basis_vectors).reshape(-1, 3 * self.n)
        if self.art:
            for atom in rng.permutation(self.n):
                rows = basis.reshape(-1, self.n, 3)[:, atom]
                rows = rows[np.linalg.norm(rows, axis=1) > 1e-3]
                if len(rows) >= 3:
                    continue
                axes = [self.lattice[i] for i in range(3)]
                axes += [np.array(d, dtype=float) for d in gens.DIRECTIONS]
                axes += [rng.normal(size=3)]
                direction = axes[rng.integers(0, len(axes))]
                direction = direction / np.linalg.norm(direction)
                direction = direction - rows.T @ (rows @ direction)
                if np.linalg.norm(direction) < 0.05:
                    direction = rng.normal(size=3)
                    direction = direction - rows.T @ (rows @ direction)
                unit = np.zeros((self.n, 3))
                unit[atom] = direction / np.linalg.norm(direction)
                return self.clean(unit, basis)
            return None
        if len(basis) >= 3 * self.n:
            return None
        choice = rng.integers(0, 3)
        vector = rng.normal(size=3 * self.n)
        if choice == 0:
            vector = np.zeros(3 * self.n)
            vector[rng.integers(0, 3 * self.n)] = 1
        elif choice == 1:
            vector = np.zeros((self.n, 3))
            vector[rng.integers(0, self.n)] = self.lattice[rng.integers(0, 3)]
            vector = vector.ravel() / np.linalg.norm(vector)
        vector = vector - basis.T @ (basis @ vector)
        if np.linalg.norm(vector) < 0.05:
            vector = rng.normal(size=3 * self.n)
            vector = vector - basis.T @ (basis @ vector)
        if np.linalg.norm(vector) < 1e-2:
            return None
        return self.clean(vector.reshape(self.n, 3), basis)

    def clean(self, unit, basis):
        """Return exactly orthogonal unit displacement."""
        vector = unit.ravel()
        moving = np.repeat(np.abs(unit).sum(axis=1) > 0, 3)
        for _ in range(3):
            vector = vector - basis.T @ (basis @ vector)
            vector = vector * moving
            vector = vector / np.linalg.norm(vector)
        assume(len(basis) == 0 or np.abs(basis @ vector).max() < 1e-7)
        unit = vector.reshape(self.n, 3)
        assume(clear_cut(self.crystal, self.operations, unit @ self.inverse))
        return unit

    def anything(self, rng):
        """Return a free displacement, or any if there is none."""
        unit = self.free(rng)
        if unit is None:
            basis = self.model.cart_basis_vectors
            return basis[rng.integers(0, len(basis))], False
        return unit, True

    def even(self, unit):
        """Return whether symmetry gives the opposite displacement as well."""
        return is_even(images_of(self.crystal, self.operations, unit), unit)

    def size(self, unit):
        """Return amplitude below a tenth of the cell."""
        return min(0.1, models.reach_of(unit, self.lattice, 0.1))

    # -- additions ---------------------------------------------------------

    def call(self, unit, amplitudes, polarizabilities=None, order=1, include=True):
        """Add in memory."""
        if polarizabilities is None:
            rng = np.random.default_rng(len(amplitudes))
            polarizabilities = rng.normal(size=(len(amplitudes), 3, 3))
        if self.art:
            atom = int(np.abs(unit).sum(axis=1).argmax())
            self.model.add_art(atom, unit[atom] * 2.5, amplitudes, polarizabilities)
        else:
            self.model.add_dof(
                unit * 2.5, amplitudes, polarizabilities, order, include
            )

    def positions(self, unit, amplitudes):
        """Return displaced positions."""
        return [
            (self.crystal["positions"] + a * unit @ self.inverse) % 1
            for a in amplitudes
        ]

    def via_pymatgen(self, unit, amplitudes, order=1):
        """Add from pymatgen structures."""
        structures = [
            pymatgen.core.Structure(self.lattice, self.crystal["numbers"], p)
            for p in self.positions(unit, amplitudes)
        ]
        rng = np.random.default_rng(1)
        polarizabilities = rng.normal(size=(len(amplitudes), 3, 3))
        if self.art:
            self.model.add_art_from_pymatgen(structures, polarizabilities)
        else:
            self.model.add_dof_from_pymatgen(structures, polarizabilities, order)

    def via_files(self, positions, file_format=None, order=1, numbers=None):
        """Add from files."""
        numbers = numbers if numbers is not None else self.crystal["numbers"]
        paths = []
        grouped = len(vasp.groups_of(numbers)) == len(set(numbers))
        if file_format is None:
            file_format = "vasprun.xml" if self.n % 2 else "outcar"
            if self.dummy and grouped:
                file_format = "poscar"
        for k, p in enumerate(positions):
            path = f"{self.directory}/{k}"
            if file_format == "poscar":
                poscar.write_structure(
                    self.lattice, list(numbers), p, path, overwrite=True
                )
            else:
                calc = {
                    "lattice": self.lattice,
                    "numbers": list(numbers),
                    "positions": p,
                    "polarizability": np.eye(3) * (k + 2),
                }
                if file_format == "outcar":
                    text = vasp.render_outcar(calc, vasp.PLAIN_OUTCAR)
                else:
                    text = vasp.render_vasprun(calc, vasp.PLAIN_VASPRUN)
                vasp.write(path, text)
            paths.append(path)
        if self.art:
            self.model.add_art_from_files(paths, file_format)
        else:
            self.model.add_dof_from_files(paths, file_format, order)

    def step(self, name, rng):
        """Perform one addition. Returns whether it has to be accepted."""
        unit, is_free = self.anything(rng)
        h = self.size(unit)
        even = self.even(unit)
        amplitudes = np.array([h]) if even else rng.permutation([-h, h])
        if name.startswith("add"):
            close_ones = h * rng.choice([1.0, 1e-2, 1e-3]) * np.array([1.0, 1.001])
            if even and (self.art or rng.integers(0, 2)):
                close_ones = close_ones[:1]
            elif rng.integers(0, 2):
                close_ones = close_ones[:: -1] * (1.0 if even else -1.0)
            route = {
                "add": lambda: self.call(unit, amplitudes),
                "add close": lambda: self.call(unit, close_ones),
                "add pymatgen": lambda: self.via_pymatgen(unit, amplitudes),
                "add files": lambda: self.via_files(self.positions(unit, amplitudes)),
            }[name]
            if is_free:
                route()
                return unit
            with raises(InvalidDOFException, "an existing DOF was added again"):
                route()
            return None
        self.reject(name, rng, unit, is_free, h, even, amplitudes)
        return None

    def reject(self, name, rng, unit, is_free, h, even, amplitudes):
        """Perform an addition that has to be rejected."""
        bad = InvalidDOFException
        m = len(amplitudes)
        basis = self.model.cart_basis_vectors
        if name in ("overlap", "repeat"):
            if not basis:
                return
            other = basis[rng.integers(0, len(basis))] * rng.choice([1.0, -1.0])
            if name == "overlap":
                if self.art:
                    atom = int(np.abs(other).sum(axis=1).argmax())
                    tilt = np.zeros((self.n, 3))
                    tilt[atom] = rng.normal(size=3)
                else:
                    tilt = unit if is_free else rng.normal(size=(self.n, 3))
                other = other + rng.choice([0.3, 0.02, 30.0]) * tilt
                other = other / np.linalg.norm(other)
                overlaps = [abs(np.vdot(other, b)) for b in basis]
                if max(overlaps) < 1e-3:
                    return
            with raises(bad, f"{name} was accepted"):
                self.call(other, amplitudes)
        elif name == "symmetric duplicate":
            if not even or not is_free:
                return
            with raises(bad, "amplitudes that symmetry generates were accepted"):
                self.call(unit, np.array([-h, h]))
        elif name == "duplicate":
            # duplicates need not be adjacent, nor identical to the last digit
            again = h * rng.choice([1.0, 1.0 + 1e-7])
            given = [h, again] if self.art else [h, 0.3 * h, 0.7 * h, again]
            if not self.art and rng.random() < 0.5:
                given = rng.permutation(given)
            with raises(bad, "duplicate amplitudes were accepted"):
                self.call(unit, np.array(given))
        elif name == "zero amplitude":
            with raises(bad, "zero amplitude with the reference was accepted"):
                self.call(unit, np.array([0.0, h][:: rng.choice([1, -1])]))
        elif name == "too few points":
            order = (2 * m if even else m) + 1
            with raises(bad, "too few points were accepted"):
                self.call(unit, amplitudes, order=order)
            with raises(bad, "too few points were accepted"):
                self.call(unit, amplitudes, order=order - 1, include=False)
        elif name == "order zero":
            for order in (0, -1):
                with raises((ValueError, InvalidDOFException), "order below one"):
                    self.call(unit, amplitudes, order=order)
        elif name == "order float":
            with raises((TypeError, InvalidDOFException), "order 1.5"):
                self.call(unit, amplitudes, order=1.5)
        elif name == "one atom more":
            with raises((ValueError, InvalidDOFException), name):
                self.call(np.ones((self.n + 1, 3)), amplitudes)
        elif name == "displacement (3N,)":
            with raises((ValueError, InvalidDOFException), name):
                self.call(unit.ravel(), amplitudes)
        elif name == "wrong polarizabilities":
            if self.dummy:
                return
            for shape in ((m + 1, 3, 3), (m, 3), (m, 3, 2), (m, 9)):
                with raises((ValueError, bad), f"polarizabilities {shape}"):
                    self.call(unit, amplitudes, np.ones(shape))
        elif name == "wrong rank of polarizabilities":
            if self.dummy:
                return
            with raises((ValueError, bad), name):
                self.call(unit, amplitudes, np.ones((1, m, 3, 3)))
        elif name == "amplitudes (M,1)":
            with raises((ValueError, bad), name):
                self.call(unit, amplitudes[:, None], np.ones((m, 3, 3)))
        elif name == "zero":
            with raises((ValueError, bad), "zero displacement"):
                if self.art:
                    self.model.add_art(0, np.zeros(3), amplitudes, np.ones((m, 3, 3)))
                else:
                    self.call(unit * 0, amplitudes)
            if not self.art:
                with raises((ValueError, bad), "undisplaced structures"):
                    self.via_pymatgen(unit * 0, amplitudes)
        elif name == "nan polarizability":
            if self.dummy:
                return
            with raises((ValueError, bad), name):
                self.call(unit, amplitudes, np.full((m, 3, 3), np.nan))
        elif name == "missing file":
            with raises(FileNotFoundError, name):
                path = f"{self.directory}/missing"
                if self.art:
                    self.model.add_art_from_files(path, "outcar")
                else:
                    self.model.add_dof_from_files(path, "outcar", 1)
        elif name == "unsupported format":
            with raises(ValueError, name):
                if self.art:
                    self.model.add_art_from_files(["x"], "OUTCAR")
                else:
                    self.model.add_dof_from_files(["x"], "poscars", 1)
        elif name == "file with one atom more":
            numbers = list(self.crystal["numbers"])
            positions = self.positions(unit, amplitudes)
            positions = [np.vstack([p, [[0.11, 0.13, 0.17]]]) for p in positions]
            with raises(bad, name):
                self.via_files(positions, numbers=numbers + numbers[-1:])
        elif name == "not collinear files":
            if self.art or self.n < 2:
                return
            other = np.roll(unit, 1, axis=1)
            if abs(np.vdot(other, unit)) > 0.95 or not is_free:
                return
            # both in Cartesian and in fractional coordinates
            a, b = (unit @ self.inverse).ravel(), (other @ self.inverse).ravel()
            if abs(a @ b) / np.linalg.norm(a) / np.linalg.norm(b) > 0.95:
                return
            h = min(h, self.size(other))
            given = [(unit, a * h) for a in (1.0, 0.6, 0.3)[: rng.integers(1, 4)]]
            given.insert(rng.integers(0, len(given) + 1), (other, h))
            positions = [self.positions(u, [a])[0] for u, a in given]
            with raises(bad, name):
                self.via_files(positions)
            structures = [
                pymatgen.core.Structure(self.lattice, self.crystal["numbers"], p)
                for p in positions
            ]
            with raises(bad, name + " (pymatgen)"):
                self.model.add_dof_from_pymatgen(
                    structures, rng.normal(size=(len(given), 3, 3)), 1
                )
        elif name == "warnings as errors":
            if not is_free:
                return
            one_sided = np.array([h]) if not even else None
            if one_sided is None or self.art:
                return
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                with raises(Warning, "one-sided amplitudes give a warning"):
                    self.call(unit, one_sided, include=True)
        elif name == "three amplitudes":
            with raises((ValueError, bad), name):
                self.call(unit, np.array([-h, 0.5 * h, h]))
        elif name == "atom beyond":
            with raises(IndexError, name):
                self.model.add_art(
                    self.n, np.ones(3), amplitudes, np.ones((m, 3, 3))
                )
        elif name == "atom float":
            with raises(TypeError, name):
                self.model.add_art(0.0, np.ones(3), amplitudes, np.ones((m, 3, 3)))
        elif name == "direction (1,3)":
            with raises(ValueError, name):
                self.model.add_art(
                    0, np.ones((1, 3)), amplitudes, np.ones((m, 3, 3))
                )
        elif name == "several atoms in files":
            if self.n < 2:
                return
            other = unit + np.roll(unit, 1, axis=0)
            with raises(bad, name):
                self.via_files(self.positions(other, [-h, h]))
            with raises(bad, name + " (pymatgen)"):
                self.via_pymatgen(other, [-h, h])
        elif name == "one amplitude":
            if even or not is_free:
                return
            with raises(bad, "one amplitude is not enough"):
                self.call(unit, amplitudes[:1])
            with raises(bad, "one file is not enough"):
                self.via_files(self.positions(unit, [h]))
            with raises(bad, "one structure is not enough"):
                self.via_pymatgen(unit, [h])
        elif name == "three files":
            if even:
                return
            with raises(bad, "three files"):
                self.via_files(self.positions(unit, [-h, h, 0.5 * h]))
        elif name.startswith("inherited"):
            from ramannoodle.exceptions import UserError

            with raises(UserError, name):
                if "files" in name:
                    self.model.add_dof_from_files(["x"], "outcar", 1)
                elif "pymatgen" in name:
                    self.model.add_dof_from_pymatgen([], np.ones((0, 3, 3)), 1)
                else:
                    self.model.add_dof(unit, amplitudes, np.ones((m, 3, 3)), 1)
        else:
            raise NotImplementedError(name)


def run(case):
    """Check a history of additions."""
    accepted = rejected = 0
    with tempfile.TemporaryDirectory() as directory:
        driver = Driver(case, directory)
        model = driver.model
        check_invariants(model, driver.n, "start")
        for name, seed in case["steps"]:
            rng = gens.rng_of(seed)
            before = state(model, driver.probe)
            unit = driver.step(name, rng)
            after = state(model, driver.probe)
            check_invariants(model, driver.n, name)
            if unit is None:
                check_unchanged(before, after, name)
                rejected += 1
                continue
            accepted += 1
            count = len(before["basis"])
            need(len(after["basis"]) > count, "nothing was added", step=name)
            for a, b in zip(before["basis"], after["basis"]):
                same(b, a, "an existing basis vector changed", step=name)
            for a, b in zip(before["interpolations"], after["interpolations"]):
                need(
                    a[2] == b[2]
                    and np.array_equal(a[0], b[0])
                    and np.array_equal(a[1], b[1]),
                    "an existing interpolation changed",
                    step=name,
                )
            same(after["mask"][:count], before["mask"], "mask changed", step=name)
            need(not after["mask"][count:].any(), "new DOFs are masked", step=name)
            overlap = max(abs(np.vdot(unit, b)) for b in after["basis"][count:])
            need(overlap > 1 - 1e-5, "the DOF itself was not added", overlap=overlap)
            if driver.art:
                for b in after["basis"][count:]:
                    moving = np.linalg.norm(b, axis=1) > 1e-4
                    need(moving.sum() == 1, "an ART moves one atom", step=name)
    return accepted >= 1 and rejected >= 1


RULE = "at least one accepted and one rejected addition"
sub("C13", "interpolation models", histories("interpolation"), 400, 6000, RULE)(run)
sub("C13", "ART models", histories("art"), 400, 6000, RULE)(run)
