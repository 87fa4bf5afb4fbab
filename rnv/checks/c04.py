"""C04: vasprun.xml readers return the stated content and agree with OUTCAR."""

import numpy as np
from hypothesis import strategies as st

from ramannoodle.io.vasp import outcar, vasprun

from rnv import vasp
from rnv.checks import calcs
from rnv.core import close, need, sub
from rnv.oracle import wrap_distance

CASES = st.fixed_dictionaries(
    {"calc": vasp.calculations(md=False, many=True), "opts": vasp.vasprun_options()}
)
MD_CASES = st.fixed_dictionaries(
    {
        "calc": vasp.calculations(phonons=False, max_count=4, many=True),
        "opts": vasp.vasprun_options(),
    }
)
BOTH = st.fixed_dictionaries(
    {
        "calc": vasp.calculations(many=True),
        "xml": vasp.vasprun_options(),
        "out": vasp.outcar_options(),
    }
)


@sub("C04", "structure", MD_CASES, 500, 6000, "more than one species or a decoy structure")
def structure(case):
    """Structures and polarizabilities."""
    vasp.write("vasprun.xml", vasp.render_vasprun(case["calc"], case["opts"]))
    calcs.check_structure("vasprun.xml", "vasprun.xml", case["calc"])
    return (
        len(set(case["calc"]["numbers"])) > 1
        or case["opts"]["primitive"]
        or case["opts"]["final"]
    )


@sub("C04", "phonons", CASES, 400, 4000, "at least one imaginary mode or > 1 species")
def phonons(case):
    """Phonons (and the structure in the same file)."""
    calc = case["calc"]
    vasp.write("vasprun.xml", vasp.render_vasprun(calc, case["opts"]))
    # eigenvalues are printed with 10 decimals: sqrt is inexact near zero
    calcs.check_phonons("vasprun.xml", "vasprun.xml", calc, 1e-2)
    big = np.abs(calc["wavenumbers"]) > 20
    close(
        vasprun.read_phonons("vasprun.xml").wavenumbers[big],
        calc["wavenumbers"][big],
        "wavenumbers",
        1e-8,
        0,
    )
    calcs.check_structure("vasprun.xml", "vasprun.xml", calc)
    return bool((calc["wavenumbers"] < 0).any()) or len(set(calc["numbers"])) > 1


@sub("C04", "trajectory", MD_CASES, 400, 5000, "at least two configurations")
def trajectory(case):
    """Trajectories."""
    calc = case["calc"]
    vasp.write("vasprun.xml", vasp.render_vasprun(calc, case["opts"]))
    expected = np.round(calc["positions_ts"], 8)
    calcs.check_trajectory("vasprun.xml", "vasprun.xml", calc, expected, 1e-13)
    return len(expected) > 1


@sub("C04", "agreement", BOTH, 300, 4000, "more than one species or an imaginary mode")
def agreement(case):
    """OUTCAR and vasprun.xml of one calculation."""
    calc = {**case["calc"], "ml": [False] * len(case["calc"]["positions_ts"])}
    vasp.write("OUTCAR", vasp.render_outcar(calc, case["out"]))
    vasp.write("vasprun.xml", vasp.render_vasprun(calc, case["xml"]))
    a = outcar.read_structure_and_polarizability("OUTCAR")
    b = vasprun.read_structure_and_polarizability("vasprun.xml")
    for name, x, y in zip(("lattice", "numbers", "positions", "polarizability"), a, b):
        close(x, y, f"{name} of OUTCAR and vasprun.xml", 1e-13, 1e-13)
    p, q = outcar.read_phonons("OUTCAR"), vasprun.read_phonons("vasprun.xml")
    close(p.ref_positions, q.ref_positions, "phonon positions", 1e-13, 1e-13)
    close(p.wavenumbers, q.wavenumbers, "wavenumbers", 1e-6, 1e-2)
    close(p.displacements, q.displacements, "displacements", 1e-12, 1e-13)
    s, t = outcar.read_trajectory("OUTCAR"), vasprun.read_trajectory("vasprun.xml")
    need(len(s) == len(t) and s.timestep == t.timestep, "length and timestep")
    error = wrap_distance(s.positions_ts, t.positions_ts)
    # the OUTCAR prints five decimals of an angstrom
    bound = 1e-5 * np.abs(np.linalg.inv(calc["lattice"])).sum(axis=0).max()
    need(error.max() <= bound, "trajectories", error=error.max(), bound=bound)
    return len(set(calc["numbers"])) > 1 or bool((calc["wavenumbers"] < 0).any())
