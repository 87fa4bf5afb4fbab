"""C03: OUTCAR readers return exactly the content of the calculation."""

import numpy as np
from hypothesis import strategies as st

from rnv import vasp
from rnv.checks import calcs
from rnv.core import sub

CASES = st.fixed_dictionaries(
    {"calc": vasp.calculations(md=False, many=True), "opts": vasp.outcar_options()}
)
MD_CASES = st.fixed_dictionaries(
    {
        "calc": vasp.calculations(phonons=False, max_count=4, many=True),
        "opts": vasp.outcar_options(),
    }
)


def wide(calc):
    """Return whether columns of the OUTCAR touch one another."""
    return np.abs(calc["lattice"]).max() >= 99


@sub(
    "C03",
    "structure",
    MD_CASES,
    500,
    6000,
    "more than one species, or a symmetry block before the content",
)
def structure(case):
    """Structures and polarizabilities."""
    vasp.write("OUTCAR", vasp.render_outcar(case["calc"], case["opts"]))
    calcs.check_structure("OUTCAR", "outcar", case["calc"])
    return len(set(case["calc"]["numbers"])) > 1 or case["opts"]["symmetry_block"]


@sub(
    "C03",
    "phonons",
    CASES,
    400,
    4000,
    "at least one imaginary mode or more than one species",
)
def phonons(case):
    """Phonons (and the structure in the same file)."""
    calc = case["calc"]
    vasp.write("OUTCAR", vasp.render_outcar(calc, case["opts"]))
    calcs.check_phonons("OUTCAR", "outcar", calc, 1e-9)
    calcs.check_structure("OUTCAR", "outcar", calc)
    return bool((calc["wavenumbers"] < 0).any()) or len(set(calc["numbers"])) > 1


@sub(
    "C03",
    "trajectory",
    MD_CASES,
    500,
    6000,
    "at least one ab initio step that follows a machine-learned one, or >= 3 steps",
)
def trajectory(case):
    """Trajectories, with and without machine-learned steps."""
    calc = case["calc"]
    vasp.write("OUTCAR", vasp.render_outcar(calc, case["opts"]))
    kept = vasp.kept_steps(calc)
    inverse = np.linalg.inv(calc["lattice"])
    expected = np.array(
        [vasp.md_cart(calc, calc["positions_ts"][i]) @ inverse for i in kept]
    )
    calcs.check_trajectory("OUTCAR", "outcar", calc, expected, 1e-12)
    return len(kept) < len(calc["ml"]) or len(kept) >= 3
