"""C27: the workflow from calculations to spectrum gives the material's spectrum."""

import tempfile

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.io import generic
from ramannoodle.io.vasp import xdatcar
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

from rnv import gens, vasp
from rnv.checks import c17, c18
from rnv.checks.c09 import clear_cut
from rnv.checks.c12 import images_of, is_even
from rnv.core import close, need, sub
from rnv.oracle import covariant_polarizability, crystal_operations

STEP = 0.05


class Material:
    """A polarizability that is linear and obeys every symmetry of the crystal."""

    def __init__(self, crystal, step=1e-4):
        self.crystal = crystal
        self.inverse = np.linalg.inv(crystal["lattice"])
        n = len(crystal["numbers"])
        self.alpha = self.exact(np.zeros((n, 3)))
        self.slopes = np.zeros((n, 3, 3, 3))
        for atom in range(n):
            for axis in range(3):
                d = np.zeros((n, 3))
                d[atom, axis] = step
                self.slopes[atom, axis] = (self.exact(d) - self.exact(-d)) / (2 * step)

    def exact(self, cart):
        """Return (symmetric part of the) polarizability of displaced crystal."""
        alpha = covariant_polarizability(
            self.crystal["lattice"],
            self.crystal["positions"] + cart @ self.inverse,
            self.crystal["numbers"],
        )
        return (alpha + alpha.T) / 2

    def change(self, cart):
        """Return change in polarizability due to displacements."""
        return np.einsum("...nx,nxij->...ij", cart, self.slopes)

    def __call__(self, cart=None):
        """Return polarizability."""
        return self.alpha if cart is None else self.alpha + self.change(cart)


class Workflow:
    """One way from a crystal to its spectra."""

    def __init__(self, crystal, source, directory, modes=None, wavenumbers=None):
        self.crystal = crystal
        self.material = Material(crystal)
        self.source = source
        self.directory = directory
        self.files = 0
        self.n = len(crystal["numbers"])
        self.inverse = np.linalg.inv(crystal["lattice"])
        self.modes = modes
        self.wavenumbers = wavenumbers

    def file(self, cart=None, phonons=False):
        """Write calculation of displaced crystal."""
        crystal = self.crystal
        calc = {
            "lattice": crystal["lattice"],
            "numbers": list(crystal["numbers"]),
            "positions": crystal["positions"],
            "polarizability": self.material(cart),
        }
        if cart is not None:
            calc["positions"] = (calc["positions"] + cart @ self.inverse) % 1
        if phonons:
            calc["eigenvectors"] = self.modes
            calc["wavenumbers"] = self.wavenumbers
        if self.source == "outcar":
            text = vasp.render_outcar(calc, vasp.PLAIN_OUTCAR)
        else:
            text = vasp.render_vasprun(calc, vasp.PLAIN_VASPRUN)
        self.files += 1
        path = f"{self.directory}/{self.source}{self.files}"
        vasp.write(path, text)
        return path

    def reference(self):
        """Return reference structure."""
        if self.source == "memory":
            crystal = self.crystal
            return ReferenceStructure(
                list(crystal["numbers"]),
                crystal["lattice"].copy(),
                crystal["positions"].copy(),
            )
        return generic.read_ref_structure(self.file(), self.source)

    def phonons(self):
        """Return phonons."""
        if self.source == "memory":
            mass = np.array([vasp.mass_of(z)[0] for z in self.crystal["numbers"]])
            modes = self.modes / np.sqrt(mass)[:, None] @ self.inverse
            return Phonons(self.crystal["positions"], self.wavenumbers.copy(), modes)
        return generic.read_phonons(self.file(phonons=True), self.source)

    def model(self, rng, kind="art"):
        """Return complete model of interpolations or atomic Raman tensors."""
        if kind == "interpolation":
            return self.interpolation(rng)
        crystal, n = self.crystal, self.n
        operations = crystal_operations(crystal)
        assume(operations is not None)
        model = ARTModel(self.reference(), self.material())
        for atom in range(n):
            for _ in range(3):
                taken = [b[atom] for b in model.cart_basis_vectors]
                taken = np.array([b for b in taken if np.linalg.norm(b) > 1e-3])
                if len(taken) >= 3:
                    break
                direction = self.direction(rng, taken.reshape(-1, 3))
                unit = np.zeros((n, 3))
                unit[atom] = direction
                assume(clear_cut(crystal, operations, unit @ self.inverse))
                even = is_even(images_of(crystal, operations, unit), unit)
                amplitudes = np.array([STEP] if even else [-STEP, STEP])
                if self.source == "memory":
                    polarizabilities = [self.material(a * unit) for a in amplitudes]
                    model.add_art(
                        atom, direction, amplitudes, np.array(polarizabilities)
                    )
                else:
                    paths = [self.file(a * unit) for a in amplitudes]
                    model.add_art_from_files(paths, self.source)
        basis = np.array(model.cart_basis_vectors).reshape(-1, 3 * n)
        need(len(basis) <= 3 * n, "more degrees of freedom than coordinates")
        assume(len(basis) == 3 * n)
        return model

    def interpolation(self, rng):
        """Return complete model, with collective degrees of freedom if possible."""
        crystal, n = self.crystal, self.n
        operations = crystal_operations(crystal)
        assume(operations is not None)
        model = InterpolationModel(self.reference(), self.material())
        collective = len(operations) == 1
        for atom in range(n):
            for _ in range(3):
                basis = np.array(model.cart_basis_vectors).reshape(-1, 3 * n)
                if collective:
                    unit = rng.normal(size=3 * n) * rng.integers(0, 3, size=3 * n)
                    unit = unit - basis.T @ (basis @ unit)
                    assume(np.linalg.norm(unit) > 0.05)
                    unit = unit - basis.T @ (basis @ unit)
                    unit = (unit / np.linalg.norm(unit)).reshape(n, 3)
                else:
                    taken = basis.reshape(-1, n, 3)[:, atom]
                    taken = taken[np.linalg.norm(taken, axis=1) > 1e-3]
                    if len(taken) >= 3:
                        break
                    unit = np.zeros((n, 3))
                    unit[atom] = self.direction(rng, taken.reshape(-1, 3))
                assume(clear_cut(crystal, operations, unit @ self.inverse))
                even = is_even(images_of(crystal, operations, unit), unit)
                size = STEP * (np.sqrt(n) if collective else 1)
                amplitudes = size * np.array(
                    [1] if even else rng.permutation([-2, 1, 2])[: rng.integers(1, 4)]
                )
                if self.source == "memory":
                    polarizabilities = [self.material(a * unit) for a in amplitudes]
                    model.add_dof(unit, amplitudes, np.array(polarizabilities), 1)
                else:
                    paths = [self.file(a * unit) for a in amplitudes]
                    model.add_dof_from_files(paths, self.source, 1)
        basis = np.array(model.cart_basis_vectors).reshape(-1, 3 * n)
        need(len(basis) <= 3 * n, "more degrees of freedom than coordinates")
        assume(len(basis) == 3 * n)
        return model

    def direction(self, rng, taken):
        """Return unit vector orthogonal to those that are taken."""
        choice = rng.integers(0, 3)
        if choice == 0:
            direction = self.crystal["lattice"][rng.integers(0, 3)]
        elif choice == 1:
            direction = np.array(
                gens.DIRECTIONS[rng.integers(0, len(gens.DIRECTIONS))], dtype=float
            )
        else:
            direction = rng.normal(size=3)
        direction = direction / np.linalg.norm(direction)
        direction = direction - taken.T @ (taken @ direction)
        if np.linalg.norm(direction) < 0.05:
            direction = rng.normal(size=3)
            direction = direction - taken.T @ (taken @ direction)
        direction = direction - taken.T @ (taken @ direction)
        return direction / np.linalg.norm(direction)


def described(case, rng):
    """Return the crystal in another description, the atoms' order, and rotation."""
    crystal = case["crystal"]
    n = len(crystal["numbers"])
    order = rng.permutation(n) if rng.uniform() < 0.7 else np.arange(n)
    q = gens.rotation(rng, improper=rng.uniform() < 0.3)
    if rng.uniform() < 0.3:
        q = np.eye(3)
    other = crystal
    if rng.uniform() < 0.6:
        other = gens.change_basis(
            other, gens.UNIMODULAR[rng.integers(0, len(gens.UNIMODULAR))]
        )
    origin = rng.uniform(size=3) * (rng.uniform() < 0.6)
    return gens.rotate(gens.permute(gens.shift(other, origin), order), q), order, q


@st.composite
def cases(draw):
    """Strategy for materials and descriptions."""
    if draw(st.integers(0, 3)):
        crystal = draw(gens.crystals(max_atoms=5, transform=draw(st.booleans())))
    else:
        rng = gens.rng_of(draw(gens.SEEDS))
        lattice = draw(gens.lattices(("triclinic", "hexagonal", "orthorhombic")))
        numbers = draw(gens.species(2, 2))
        positions = gens.separated_positions(rng, lattice, len(numbers), 1.0)
        assume(positions is not None)
        crystal = {"lattice": lattice, "numbers": numbers, "positions": positions}
    return {
        "crystal": crystal,
        "sources": draw(
            st.permutations(["memory", "memory", "outcar", "vasprun.xml"])
        )[:2],
        "kinds": [draw(st.sampled_from(["art", "interpolation"])) for _ in range(2)],
        "settings": draw(c17.settings()),
        "length": draw(st.one_of(*[st.integers(4, 24)] * 3, st.integers(90, 330))),
        "timestep": draw(st.sampled_from([1.0, 0.5, 2.0])),
        "seed": draw(gens.SEEDS),
    }


@sub("C27", "phonon spectra", cases(), 400, 3000, "symmetry relates some atoms")
def phonon_spectra(case):
    """Phonon spectra are those of the material's own polarizability."""
    rng = gens.rng_of(case["seed"])
    crystal = case["crystal"]
    assume(np.abs(crystal["lattice"]).max() < 25)
    operations = crystal_operations(crystal)
    assume(operations is not None)
    n = len(crystal["numbers"])
    other, order, q = described(case, rng)
    assume(np.abs(other["lattice"]).max() < 25)
    modes, _ = np.linalg.qr(rng.normal(size=(3 * n, 3 * n)))
    modes = modes.reshape(-1, n, 3)
    wavenumbers = np.round(np.sort(rng.uniform(20, 1500, 3 * n))[::-1], 6)

    mass = np.array([vasp.mass_of(z)[0] for z in crystal["numbers"]])
    cart = modes / np.sqrt(mass)[:, None]
    tensors = 2 * Material(crystal).change(cart)
    size = np.linalg.norm(cart.reshape(len(cart), -1), axis=1)
    slope = max(np.abs(tensors / size[:, None, None]).max(), 1)
    want, _ = c17.expected_intensities(wavenumbers, tensors, case["settings"])
    plain = {**case["settings"], "laser": False, "bose": False}
    bare, _ = c17.expected_intensities(wavenumbers, tensors, plain)
    ones = np.repeat(np.eye(3)[None], len(wavenumbers), 0)
    factor = (
        c17.expected_intensities(wavenumbers, ones, case["settings"])[0]
        / c17.expected_intensities(wavenumbers, ones, plain)[0]
    )
    for source, kind, one, given, turn in (
        (case["sources"][0], case["kinds"][0], crystal, modes, np.eye(3)),
        (case["sources"][1], case["kinds"][1], other, modes[:, order] @ q.T, q),
    ):
        with tempfile.TemporaryDirectory() as directory:
            flow = Workflow(one, source, directory, given, wavenumbers)
            spectrum = flow.phonons().get_raman_spectrum(flow.model(rng, kind))
            # files hold six digits, and tables of masses disagree
            doubt = max(vasp.mass_of(z)[1] for z in crystal["numbers"])
            tol = (1e-5 if source == "memory" else 1e-3 + doubt) * slope * size
            bound = 150 * (np.abs(tensors).max(axis=(1, 2)) * tol + tol**2)
            bound = bound + 1e-4 * bare
            found = turn.T @ spectrum.raman_tensors @ turn
            error = np.abs(found - tensors).max(axis=(1, 2))
            need(
                np.all(error <= tol),
                "Raman tensors of the material",
                source=source,
                kind=kind,
                found=found[np.argmax(error / tol)],
                expected=tensors[np.argmax(error / tol)],
            )
            w, intensities = spectrum.measure(**c17.arguments(case["settings"]))
            close(w, wavenumbers, "wavenumbers", 1e-7, 1e-5)
            error = np.abs(intensities - want)
            need(
                np.all(error <= bound * factor),
                "spectrum of the material",
                source=source,
                kind=kind,
                found=intensities,
                expected=want,
            )
    return len(operations) > 1


@sub("C27", "MD spectra", cases(), 400, 3000, "symmetry relates some atoms")
def md_spectra(case):
    """Molecular-dynamics spectra do not depend on how the material is described."""
    rng = gens.rng_of(case["seed"])
    crystal = case["crystal"]
    assume(np.abs(crystal["lattice"]).max() < 25)
    operations = crystal_operations(crystal)
    assume(operations is not None)
    n = len(crystal["numbers"])
    other, order, q = described(case, rng)
    assume(np.abs(other["lattice"]).max() < 25)
    steps = 0.003 * np.cumsum(rng.normal(size=(case["length"], n, 3)), axis=0)
    steps *= min(1, 0.2 / np.abs(steps).max())
    spectra = []
    for source, kind, one, moves, turn in (
        ("memory", case["kinds"][0], crystal, steps, np.eye(3)),
        (case["sources"][0], case["kinds"][1], other, steps[:, order] @ q.T, q),
    ):
        with tempfile.TemporaryDirectory() as directory:
            flow = Workflow(one, source, directory)
            model = flow.model(rng, kind)
            positions = one["positions"] + moves @ np.linalg.inv(one["lattice"])
            path = Trajectory(positions, case["timestep"])
            if source != "memory" and len(vasp.groups_of(one["numbers"])) == len(
                set(one["numbers"])
            ):
                name = f"{directory}/XDATCAR"
                xdatcar.write_trajectory(
                    one["lattice"], list(one["numbers"]), positions % 1, name
                )
                path = xdatcar.read_trajectory(name, case["timestep"])
            spectrum = path.get_raman_spectrum(model)
            close(
                spectrum.polarizability_ts,
                np.concatenate([model.calc_polarizabilities(p[None]) for p in path]),
                "polarizabilities of the trajectory",
                1e-9,
                1e-9,
            )
            spectra.append(
                (
                    turn.T @ spectrum.polarizability_ts @ turn,
                    spectrum.measure(**c17.arguments(case["settings"])),
                )
            )
    (a, one), (b, two) = spectra
    tol = (1e-5 if case["sources"][0] == "memory" else 1e-3) * np.sqrt(n)
    scale = max(np.abs(Material(crystal).slopes).max(), 1) * np.abs(steps).max()
    close(b, a, "polarizabilities of the configurations", 0, tol * scale)
    need(one[0].shape == two[0].shape, "number of wavenumbers")
    close(two[0], one[0], "wavenumbers", 1e-9, 1e-9)
    if np.abs(a - a.mean(axis=0)).max() > 0.3 * scale:
        close(two[1], one[1], "spectrum", 0, 100 * tol * np.abs(one[1]).max())
    return len(operations) > 1
