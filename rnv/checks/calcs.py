"""Shared assertions about what the readers of a calculation return."""

import numpy as np

import ramannoodle.io.generic as generic
from ramannoodle.io.vasp import outcar, vasprun

from rnv import gens, vasp
from rnv.core import close, need
from rnv.oracle import close_mod1, in_unit_interval

MODULES = {"outcar": outcar, "vasprun.xml": vasprun}
LAT = {"rtol": 1e-13, "atol": 1e-13}


def separated(calc):
    """Return whether the symmetry search is well defined."""
    return gens.well_separated(calc["lattice"], calc["positions"], 1e-2)


def check_structure(path, fmt, calc):
    """All readers of structures and polarizabilities."""
    module = MODULES[fmt]
    lattice, numbers = calc["lattice"], calc["numbers"]
    positions = calc["positions"]
    for got in (module.read_positions(path), generic.read_positions(path, fmt)):
        close(got, positions, f"{fmt} read_positions", 1e-14, 1e-15)
    if separated(calc):
        for ref in (
            module.read_ref_structure(path),
            generic.read_ref_structure(path, fmt),
        ):
            close(ref.lattice, lattice, f"{fmt} reference lattice", **LAT)
            need(
                list(ref.atomic_numbers) == numbers,
                f"{fmt} reference atomic numbers",
                got=ref.atomic_numbers,
                want=numbers,
            )
            close_mod1(ref.positions, positions, f"{fmt} reference positions", 1e-14)
    if "polarizability" not in calc:
        return
    alpha = calc["polarizability"]
    for got in (
        module.read_positions_and_polarizability(path),
        generic.read_positions_and_polarizability(path, fmt),
    ):
        need(len(got) == 2, "two parts")
        close(got[0], positions, f"{fmt} positions with polarizability", 1e-14, 1e-15)
        close(got[1], alpha, f"{fmt} polarizability", 1e-14, 1e-15)
    for got in (
        module.read_structure_and_polarizability(path),
        generic.read_structure_and_polarizability(path, fmt),
    ):
        need(len(got) == 4, "four parts")
        close(got[0], lattice, f"{fmt} lattice", **LAT)
        need(list(got[1]) == numbers, f"{fmt} atomic numbers", got=got[1], want=numbers)
        close(got[2], positions, f"{fmt} positions", 1e-14, 1e-15)
        close(got[3], alpha, f"{fmt} polarizability", 1e-14, 1e-15)


def check_phonons(path, fmt, calc, wavenumber_atol):
    """All readers of phonons."""
    for ph in (MODULES[fmt].read_phonons(path), generic.read_phonons(path, fmt)):
        close(ph.ref_positions, calc["positions"], f"{fmt} phonon positions", 1e-14, 1e-15)
        close(ph.wavenumbers, calc["wavenumbers"], f"{fmt} wavenumbers", 1e-9, wavenumber_atol)
        frac = calc["eigenvectors"] @ np.linalg.inv(calc["lattice"])
        need(
            ph.displacements.shape == frac.shape,
            f"{fmt} displacements: shape",
            got=ph.displacements.shape,
        )
        for atom, number in enumerate(calc["numbers"]):
            # the mass is only known to the precision of a table of atomic masses
            mass, loose = vasp.mass_of(number)
            got, want = ph.displacements[:, atom], frac[:, atom]
            scale = np.sum(got * want) / np.sum(want * want)
            close(got, want * scale, f"{fmt} displacements of atom {atom}", 1e-9, 1e-12)
            close(
                scale * np.sqrt(mass),
                1.0,
                f"{fmt} displacements are divided by sqrt(mass)",
                loose,
                0,
                number=number,
            )


def check_trajectory(path, fmt, calc, expected, atol):
    """All readers of trajectories."""
    for traj in (
        MODULES[fmt].read_trajectory(path),
        generic.read_trajectory(path, fmt),
    ):
        need(
            np.isclose(traj.timestep, calc["timestep"], rtol=1e-12),
            f"{fmt} timestep",
            got=traj.timestep,
            want=calc["timestep"],
        )
        need(
            len(traj) == len(expected),
            f"{fmt} number of configurations",
            got=len(traj),
            want=len(expected),
        )
        close_mod1(traj.positions_ts, expected, f"{fmt} trajectory", atol)
        in_unit_interval(traj.positions_ts, f"{fmt} trajectory is wrapped")
