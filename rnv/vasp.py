"""Renderers of VASP files and generators of calculations to render.

Numbers are rounded to the printed precision before they are rendered, so the content
of a file is known exactly. Nothing here uses the code under test.
"""

import functools

import numpy as np
from hypothesis import strategies as st

from rnv import gens


@functools.lru_cache(maxsize=None)
def symbol_of(number):
    """Return element symbol."""
    from pymatgen.core import Element  # pylint: disable=import-outside-toplevel

    return Element.from_Z(number).symbol


@functools.lru_cache(maxsize=None)
def mass_of(number):
    """Return standard atomic mass and its relative uncertainty between tables."""
    from pymatgen.core import Element  # pylint: disable=import-outside-toplevel

    loose = number in (43, 61) or number > 83
    return float(Element.from_Z(number).atomic_mass), 1.5e-2 if loose else 1e-3


def groups_of(numbers):
    """Return [(number, count)] of consecutive equal numbers."""
    groups = []
    for number in numbers:
        if groups and groups[-1][0] == number:
            groups[-1][1] += 1
        else:
            groups.append([number, 1])
    return [tuple(g) for g in groups]


# --------------------------------------------------------------------------
# POSCAR and XDATCAR
# --------------------------------------------------------------------------


def fmt(value, style):
    """Return text of a number."""
    if style == "fixed":
        return f"{value:20.16f}"
    if style == "sci":
        return f"{value: .17e}"
    if style == "SCI":
        return f"{value: .17E}"
    if style == "tight":
        return repr(float(value))
    if style == "plus":
        return f"{value:+.17g}"
    raise ValueError(style)


STYLES = ["fixed", "sci", "SCI", "tight", "plus"]


def row(vector, opts, rng, trailing=""):
    """Return one line of a vector."""
    sep = opts["sep"]
    lead = opts["lead"]
    return lead + sep.join(fmt(v, opts["style"]) for v in vector) + trailing + opts["eol"]


def render_poscar_header(structure, opts, rng):
    """Render the first lines. Returns text and effective scale."""
    lattice = structure["lattice"]
    scale = opts["scale"]
    if opts["volume"]:
        text_scale = -abs(np.linalg.det(lattice))
        factor = scale  # printed vectors are lattice / scale
    else:
        text_scale = factor = scale
    lines = opts["label"] + opts["eol"]
    lines += opts["lead"] + fmt(text_scale, opts["style"]) + opts["scale_trail"]
    lines += opts["eol"]
    for vector in lattice / factor:
        lines += row(vector, opts, rng)
    groups = groups_of(structure["numbers"])
    lines += opts["lead"] + opts["sep"].join(symbol_of(g[0]) for g in groups)
    lines += opts["eol"]
    lines += opts["lead"] + opts["sep"].join(str(g[1]) for g in groups) + opts["eol"]
    return lines, factor


def render_block(structure, positions, factor, opts, rng, mode_line):
    """Render mode line and positions."""
    text = mode_line + opts["eol"]
    if opts["cart"]:
        values = positions @ structure["lattice"] / factor
    else:
        values = positions
    for index, vector in enumerate(values):
        trailing = ""
        if opts["selective"]:
            flags = rng.choice(["T", "F"], 3)
            trailing += "  " + " ".join(flags)
        if opts["trailing"]:
            trailing += "  " + symbol_of(structure["numbers"][index])
            trailing += rng.choice(["", str(index + 1), " ! site 0.5 0.5 0.5"])
        text += row(vector, opts, rng, trailing)
    return text


def render_poscar(structure, opts):
    """Render a POSCAR."""
    rng = gens.rng_of(opts["seed"])
    text, factor = render_poscar_header(structure, opts, rng)
    if opts["selective"]:
        text += opts["selective_line"] + opts["eol"]
    mode = opts["cart_line"] if opts["cart"] else opts["direct_line"]
    text += render_block(
        structure, structure["positions"], factor, opts, rng, mode
    )
    if opts["velocities"]:
        text += opts["velocities"] + opts["eol"]
        for vector in rng.normal(size=structure["positions"].shape):
            text += row(vector, opts, rng)
    if not opts["final_newline"] and text.endswith(opts["eol"]):
        text = text[: -len(opts["eol"])]
    return text


def render_xdatcar(structure, positions_ts, opts):
    """Render an XDATCAR."""
    rng = gens.rng_of(opts["seed"])
    text, factor = render_poscar_header(structure, opts, rng)
    opts = {**opts, "cart": False, "selective": False}
    for index, positions in enumerate(positions_ts):
        line = f"{opts['direct_word']} configuration={index + 1:6d}"
        text += render_block(structure, positions, factor, opts, rng, line)
    if not opts["final_newline"] and text.endswith(opts["eol"]):
        text = text[: -len(opts["eol"])]
    return text


PLAIN = {
    "style": "fixed",
    "sep": "  ",
    "lead": "  ",
    "eol": "\n",
    "scale": 1.0,
    "volume": False,
    "scale_trail": "",
    "label": "comment",
    "cart": False,
    "cart_line": "Cartesian",
    "direct_line": "Direct",
    "direct_word": "Direct",
    "selective": False,
    "selective_line": "Selective dynamics",
    "trailing": False,
    "velocities": "",
    "final_newline": True,
    "seed": 0,
}


@st.composite
def poscar_options(draw):
    """Strategy for ways to write the same structure."""
    return {
        "style": draw(st.sampled_from(STYLES)),
        "sep": draw(st.sampled_from(["  ", " ", "\t", "     "])),
        "lead": draw(st.sampled_from(["  ", "", "\t", " "])),
        "eol": draw(st.sampled_from(["\n", "\n", " \n", "\r\n"])),
        "scale": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 5.43, 0.031, 17.25])),
        "volume": draw(st.sampled_from([False, False, True])),
        "scale_trail": draw(st.sampled_from(["", " ", "  "])),
        "label": draw(
            st.sampled_from(
                ["comment", "", "Sr Ti O", "  1.0", "Direct", "Selective", "a b c # 1 2 3"]
            )
        ),
        "cart": draw(st.booleans()),
        "cart_line": draw(
            st.sampled_from(["Cartesian", "cartesian", "C", "c", "cart", "CARTESIAN  "])
        ),
        "direct_line": draw(
            st.sampled_from(["Direct", "direct", "D", "d", "DIRECT", "Direct lattice"])
        ),
        "direct_word": draw(st.sampled_from(["Direct", "direct", "DIRECT"])),
        "selective": draw(st.booleans()),
        "selective_line": draw(
            st.sampled_from(["Selective dynamics", "s", "S", "selective", "SELECTIVE"])
        ),
        "trailing": draw(st.booleans()),
        "velocities": draw(st.sampled_from(["", "", "Cartesian", "Direct", " "])),
        "final_newline": draw(st.sampled_from([True, True, False])),
        "seed": draw(gens.SEEDS),
    }


# --------------------------------------------------------------------------
# calculations: OUTCAR and vasprun.xml
# --------------------------------------------------------------------------

SUFFIXES = ["", "_pv", "_sv", "_h", "_s_GW", "_3"]


@st.composite
def calculations(
    draw,
    phonons=True,
    md=True,
    max_types=4,
    max_count=3,
    kinds=("cubic", "orthorhombic", "hexagonal", "triclinic", "skewed", "lefthanded"),
    polarizability=True,
    min_steps=1,
    many=False,
):
    """Strategy for the physical content of a calculation."""
    numbers = draw(gens.species(max_types, max_count))
    if many and draw(st.integers(0, 19)) == 7:  # many atoms
        numbers = numbers + [numbers[-1]] * draw(st.integers(12, 20 if phonons else 130))
    rng_seed = draw(gens.SEEDS)
    lattice = np.round(draw(gens.lattices(kinds)), 9)
    rng = gens.rng_of(rng_seed)
    n = len(numbers)
    positions = np.round(gens.make_positions(rng, (n, 3)), 8)
    positions = np.where(positions >= 1, 0, positions)
    calc = {"lattice": lattice, "numbers": numbers, "positions": positions}
    if polarizability:
        # symmetric parts and small asymmetric noise, as VASP prints
        a = rng.normal(size=(3, 3)) * rng.choice([0.1, 1, 30])
        calc["polarizability"] = np.round(
            np.eye(3) * rng.uniform(1, 9) + a + rng.normal(size=(3, 3)) * 1e-5, 6
        )
    if phonons:
        q, _ = np.linalg.qr(rng.normal(size=(3 * n, 3 * n)))
        calc["eigenvectors"] = np.round(q.reshape((3 * n, n, 3)), 6)
        wavenumbers = np.sort(rng.uniform(0, 1000, 3 * n))[::-1]
        imaginary = draw(st.integers(0, min(4, 3 * n)))
        if imaginary:
            wavenumbers[-imaginary:] *= -1
        calc["wavenumbers"] = np.round(wavenumbers, 6)
    if md:
        steps = draw(st.integers(min_steps, 6))
        if many and len(numbers) < 12 and draw(st.integers(0, 19)) == 7:  # many steps
            steps = draw(st.integers(30, 130))
        walk = positions + np.cumsum(rng.normal(size=(steps, n, 3)) * 0.15, axis=0)
        calc["positions_ts"] = walk if draw(st.booleans()) else walk % 1
        calc["ml"] = [bool(b) for b in rng.integers(0, 2, steps)]
        if draw(st.booleans()):
            calc["ml"] = [False] * steps
        calc["timestep"] = draw(st.sampled_from([1.0, 0.5, 2.0, 0.25, 12.5, 0.1, 0.0625, 24.1888]))
    return calc


OUTCAR_LAYOUTS = ["box", "local", "vrhfin"]


@st.composite
def outcar_options(draw):
    """Strategy for layouts of an OUTCAR."""
    return {
        "layout": draw(st.sampled_from(OUTCAR_LAYOUTS)),
        "suffix_seed": draw(gens.SEEDS),
        "symmetry_block": draw(st.booleans()),
        "stress_blocks": draw(st.booleans()),
        "noise": draw(st.booleans()),
        "duplicate_dielectric": draw(st.booleans()),
        "potcar_kind": draw(st.sampled_from(["PAW_PBE", "PAW", "PAW_GGA"])),
    }


PLAIN_OUTCAR = {
    "layout": "box",
    "suffix_seed": 0,
    "symmetry_block": False,
    "stress_blocks": False,
    "noise": False,
    "duplicate_dielectric": False,
    "potcar_kind": "PAW_PBE",
}


def _lattice_block(lattice, lead):
    reciprocal = np.linalg.inv(lattice).T
    text = f"{lead}direct lattice vectors                 reciprocal lattice vectors\n"
    for v, r in zip(lattice, reciprocal):
        text += "   " + " ".join(f"{x:13.9f}" for x in v)
        text += "   " + " ".join(f"{x:13.9f}" for x in r) + "\n"
    lengths = [np.linalg.norm(v) for v in lattice]
    text += "\n  length of vectors\n  " + " ".join(f"{x:13.9f}" for x in lengths)
    return text + "\n\n"


def render_outcar(calc, opts):
    """Render an OUTCAR. Returns text."""
    rng = gens.rng_of(opts["suffix_seed"])
    lattice, numbers = calc["lattice"], calc["numbers"]
    groups = groups_of(numbers)
    positions = calc["positions"]
    potcars = []
    for number, _ in groups:
        name = symbol_of(number) + str(rng.choice(SUFFIXES))
        potcars.append(f" POTCAR:    {opts['potcar_kind']} {name} 07Sep2000\n")
    text = " vasp.6.3.0 20Jan22 (build Mar 29 2022 16:24:06) complex\n\n"
    text += " INCAR:\n   PREC = Normal\n   POTIM = 3.75\n   IBRION = 6\n\n"
    text += "".join(potcars)
    if opts["layout"] == "box":
        text += " " + "-" * 77 + "\n"
        text += "|     For optimal performance we recommend to set         |\n"
        text += " " + "-" * 77 + "\n\n"
        headers = potcars
    elif opts["layout"] == "local":
        headers = potcars
    else:
        headers = potcars
    for number_group, line in zip(groups, headers):
        text += line
        if opts["layout"] == "local":
            text += "  local pseudopotential read in\n"
            text += "  partial core-charges read in\n"
        else:
            text += f"   VRHFIN ={symbol_of(number_group[0])}: d3 s1\n"
            text += f"   LEXCH  = PE\n   TITEL  = {line.strip()[8:].strip()}\n"
        text += "   number of l-projection  operators is LMAX  =           6\n\n"
    decoy = np.roll(lattice, 1, axis=0) * 0.5
    if opts["symmetry_block"]:
        text += "  positions in direct lattice\n  No initial velocities read in\n\n"
        text += "                                     Primitive cell\n\n"
        text += "  volume of cell :    1243.1447\n\n"
        text += _lattice_block(decoy, "  ").replace(
            "vectors                 recip", "vectors                    recip"
        )
        text += "  position of ions in fractional coordinates (direct lattice)\n"
        for v in (positions + 0.123) % 1:
            text += "  " + " ".join(f"{x:12.9f}" for x in v) + "\n"
        text += "\n"
    if opts["noise"]:
        text += " total amount of memory used by VASP MPI-rank0    36 kBytes\n"
    text += f"   number of dos      NEDOS =    301   number of ions     NIONS = {len(numbers):6d}\n"
    text += "   ions per type =           "
    text += "".join(f" {count:3d}" for _, count in groups) + "\n"
    text += "   NGX,Y,Z   is equivalent  to a cutoff of   8.18,  8.18,  8.31 a.u.\n"
    timestep = calc.get("timestep", 0.5)
    text += f"   POTIM  ={timestep:7.4f}    time-step for ionic-motion\n"
    text += "   TEIN   =    0.0    initial temperature\n"
    text += " Write flags\n   LWAVE        =      F    write WAVECAR\n\n\n"
    text += f"  volume of cell : {abs(np.linalg.det(lattice)):12.2f}\n"
    text += _lattice_block(lattice, "      ")
    text += " k-points in reciprocal lattice and weights: K-Points\n"
    text += "   0.25000000  0.25000000  0.25000000       0.250\n\n"
    text += " position of ions in fractional coordinates (direct lattice)\n"
    for v in positions:
        text += "  " + " ".join(f"{x:11.8f}" for x in v) + "\n"
    text += "\n position of ions in cartesian coordinates  (Angst):\n"
    for v in positions @ lattice:
        text += "  " + " ".join(f"{x:11.8f}" for x in v) + "\n"
    text += "\n"
    for index, step in enumerate(calc.get("positions_ts", [])):
        if opts["stress_blocks"]:
            text += "  volume of cell :     1243.14\n"
            text += _lattice_block(lattice, "      ")
        ml = calc["ml"][index]
        text += " " if not ml else "  "
        text += "POSITION                                       TOTAL-FORCE (eV/Angst)"
        text += " (ML)\n" if ml else "\n"
        text += " " + "-" * 83 + "\n"
        for x in md_cart(calc, step):
            text += " " + " ".join(f"{c:12.5f}" for c in x)
            text += "    " + " ".join(f"{c:13.6f}" for c in rng.normal(size=3)) + "\n"
        text += " " + "-" * 83 + "\n"
        text += "    total drift:                                0.0  0.0  0.0\n\n"
    if "polarizability" in calc:
        if opts["noise"]:
            text += " MACROSCOPIC STATIC DIELECTRIC TENSOR (excluding local field effects in DFT)\n"
            text += " " + "-" * 54 + "\n"
            for v in calc["polarizability"] * 1.7 + 0.3:
                text += "      " + " ".join(f"{x:13.6f}" for x in v) + "\n"
            text += " " + "-" * 54 + "\n\n"
        for _ in range(2 if opts["duplicate_dielectric"] else 1):
            text += " MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)\n"
            text += " " + "-" * 54 + "\n"
            for v in calc["polarizability"]:
                text += "      " + " ".join(f"{x:13.6f}" for x in v) + "\n"
            text += " " + "-" * 54 + "\n\n\n"
    if "wavenumbers" in calc:
        text += " Eigenvectors and eigenvalues of the dynamical matrix\n"
        text += " ----------------------------------------------------\n\n\n"
        cart = positions @ lattice
        for index, (w, e) in enumerate(zip(calc["wavenumbers"], calc["eigenvectors"])):
            thz = abs(w) * 0.0299792458
            kind = "f/i=" if w < 0 or (w == 0 and np.signbit(w)) else "f  ="
            text += f"{index + 1:4d} {kind}{thz:12.6f} THz {thz * 6.283185:12.6f} 2PiTHz"
            text += f"{abs(w):12.6f} cm-1 {abs(w) * 0.1239842:12.6f} meV\n"
            text += "             X         Y         Z           dx          dy          dz\n"
            for x, d in zip(cart, e):
                text += "    " + " ".join(f"{c:10.6f}" for c in x)
                text += "  " + " ".join(f"{c:12.6f}" for c in d) + "\n"
            text += "\n"
        text += " Eigenvectors after division by SQRT(mass)\n\n"
        text += "   1 f  =   99.000000 THz   152.894455 2PiTHz  999.691808 cm-1   100.6 meV\n"
    return text


def md_cart(calc, step):
    """Return Cartesian positions of an MD step, as printed."""
    return np.round(step @ calc["lattice"], 5)


def kept_steps(calc):
    """Return indexes of the MD steps that are kept."""
    kept = []
    previous_ml = False
    for index, ml in enumerate(calc["ml"]):
        if previous_ml and not ml:
            previous_ml = False
            continue  # repeats the machine-learned step
        previous_ml = ml
        kept.append(index)
    return kept


@st.composite
def vasprun_options(draw):
    """Strategy for layouts of a vasprun.xml."""
    return {
        "primitive": draw(st.sampled_from([False, True, "bare"])),
        "final": draw(st.booleans()),
        "selective": draw(st.booleans()),
        "pretty": draw(st.booleans()),
        "pad": draw(st.booleans()),
        "imaginary_dielectric": draw(st.booleans()),
        "velocities": draw(st.booleans()),
        "seed": draw(gens.SEEDS),
    }


PLAIN_VASPRUN = {
    "primitive": False,
    "final": False,
    "selective": False,
    "pretty": True,
    "pad": True,
    "imaginary_dielectric": False,
    "velocities": False,
    "seed": 0,
}


def _varray(name, rows, nl, digits=8):
    text = f'<varray name="{name}" >{nl}'
    for v in rows:
        text += "<v> " + " ".join(f"{x:16.{digits}f}" for x in v) + f" </v>{nl}"
    return text + f"</varray>{nl}"


def _structure(
    name, lattice, positions, nl, digits=8, selective=False, velocities=False
):
    attribute = f' name="{name}"' if name else ""
    text = f"<structure{attribute} >{nl}<crystal>{nl}"
    text += _varray("basis", lattice, nl, 9)
    text += f'<i name="volume"> {abs(np.linalg.det(lattice)):.8f} </i>{nl}'
    text += _varray("rec_basis", np.linalg.inv(lattice).T, nl, 9)
    text += f"</crystal>{nl}" + _varray("positions", positions, nl, digits)
    if selective:
        text += f'<varray type="logical" name="selective">{nl}'
        text += f"<v type=\"logical\"> T F T </v>{nl}" * len(positions)
        text += f"</varray>{nl}"
    if velocities:
        text += _varray("velocities", np.sin(positions * 37) * 1e-2, nl, digits)
    return text + f"</structure>{nl}"


def eigenvalues_of(wavenumbers):
    """Return VASP's dynamical-matrix eigenvalues."""
    thz = np.abs(wavenumbers) * 0.0299792458
    return -np.sign(wavenumbers) * thz**2


def render_vasprun(calc, opts):
    """Render a vasprun.xml."""
    nl = "\n" if opts["pretty"] else ""
    lattice, numbers, positions = calc["lattice"], calc["numbers"], calc["positions"]
    n = len(numbers)
    text = '<?xml version="1.0" encoding="ISO-8859-1"?>\n<modeling>' + nl
    text += f'<generator><i name="program" type="string">vasp </i></generator>{nl}'
    text += f'<incar><i name="POTIM">      3.75000000</i></incar>{nl}'
    if opts["primitive"]:
        other = _structure(
            "primitive_cell", lattice * 0.7, (positions + 0.3) % 1, nl
        )
        if opts["primitive"] != "bare":
            other = f"<primitive_cell>{nl}{other}</primitive_cell>{nl}"
        text += other
    timestep = calc.get("timestep", 0.5)
    text += f'<parameters>{nl}<separator name="general" >{nl}'
    text += f'<i type="string" name="SYSTEM">unknown</i></separator>{nl}'
    text += f'<separator name="ionic" >{nl}<i type="int" name="NSW">     1</i>{nl}'
    text += f'<i name="TEBEG"> 300.0 </i>{nl}<i name="POTIM">{timestep:14.8f}</i>{nl}'
    text += f"</separator>{nl}</parameters>{nl}"
    groups = groups_of(numbers)
    text += f"<atominfo>{nl}<atoms>{n:8d} </atoms>{nl}<types>{len(groups):6d} </types>{nl}"
    text += f'<array name="atoms" >{nl}<dimension dim="1">ion</dimension>{nl}'
    text += f'<field type="string">element</field>{nl}<field type="int">atomtype</field>{nl}'
    text += f"<set>{nl}"
    index = 0
    for t, (number, count) in enumerate(groups):
        for _ in range(count):
            name = symbol_of(number)
            name = f"{name:<2s}" if opts["pad"] else name
            text += f"<rc><c>{name}</c><c>{t + 1:4d}</c></rc>{nl}"
            index += 1
    text += f"</set>{nl}</array>{nl}"
    text += f'<array name="atomtypes" >{nl}<dimension dim="1">type</dimension>{nl}<set>{nl}'
    for number, count in groups:
        name = symbol_of(number)
        text += f"<rc><c>{count:4d}</c><c>{name:<2s}</c><c>  1.0</c></rc>{nl}"
    text += f"</set>{nl}</array>{nl}</atominfo>{nl}"
    text += _structure(
        "initialpos",
        lattice,
        positions,
        nl,
        selective=opts["selective"],
        velocities=opts["velocities"],
    )
    for step in calc.get("positions_ts", []):
        text += _structure(
            "",
            lattice,
            np.round(step, 8),
            nl,
            selective=opts["selective"],
            velocities=opts["velocities"],
        )
    text += f"<calculation>{nl}<scstep><energy><i name=\"alphaZ\">1.0</i></energy></scstep>{nl}"
    text += _structure("", lattice, (positions + 0.2) % 1, nl)
    text += _varray("forces", positions * 0.1, nl)
    if "polarizability" in calc:
        if opts["imaginary_dielectric"]:
            text += _varray("epsilon", calc["polarizability"] * 1.3 + 1, nl)
        text += _varray("dielectric_dft", calc["polarizability"], nl)
    if "wavenumbers" in calc:
        text += f"<dynmat>{nl}"
        text += _varray("hessian", np.ones((3 * n, 3 * n)) * 0.5, nl)
        values = eigenvalues_of(calc["wavenumbers"])
        text += '<v name="eigenvalues"> ' + " ".join(f"{v:.10f}" for v in values)
        text += f" </v>{nl}"
        text += _varray(
            "eigenvectors", calc["eigenvectors"].reshape((3 * n, 3 * n)), nl
        )
        text += f"</dynmat>{nl}"
    text += f"</calculation>{nl}"
    if opts["final"]:
        text += _structure("finalpos", lattice, (positions + 0.1) % 1, nl)
    return text + "</modeling>\n"


def write(path, text):
    """Write text verbatim."""
    with open(path, "w", encoding="utf-8", newline="") as file:
        file.write(text)
    return path
