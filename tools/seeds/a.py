P = "ramannoodle/"
bug("C01-columns", "C01", [(P + "io/vasp/poscar.py",
'''        result += f"     {vector[0]:9.16f}   {vector[1]:9.16f}   {vector[2]:9.16f}\\n"
''',
'''        result += "".join(f"{component:20.16f}" for component in vector) + "\\n"
''')],
"a lattice component of -10 angstroms or less",
"lattice components are written in fixed-width columns without a separator, so large negative ones run into the previous column",
'''
from ramannoodle.io.vasp import poscar
lattice = np.array([[12.5, -11.25, 0.5], [3.0, 14.0, -10.75], [0.0, 1.0, 13.0]])
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "POSCAR"
    poscar.write_structure(lattice, [22, 8], positions, path)
    read_lattice, numbers, read_positions = poscar.read_structure(path)
check(np.allclose(read_lattice, lattice), "lattice")
check(numbers == [22, 8], "numbers")
check(np.allclose(read_positions, positions), "positions")
''')

bug("C01-frames", "C01", [(P + "io/vasp/xdatcar.py",
'''        for index, positions in enumerate(positions_ts):
            config_label = f"Direct configuration= {index+1:>6}\\n"
            positions_str = _get_positions_str(positions)
            file.write(config_label)
            file.write(positions_str)''',
'''        previous = ""
        for index, positions in enumerate(positions_ts):
            positions_str = _get_positions_str(positions)
            if positions_str == previous:
                continue
            file.write(f"Direct configuration= {index+1:>6}\\n")
            file.write(positions_str)
            previous = positions_str''')],
"a trajectory with two identical consecutive configurations",
"a configuration that repeats the previous one is not written",
'''
from ramannoodle.io.vasp import xdatcar
a = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
series = np.array([a, a, a + 0.01, a])
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "XDATCAR"
    xdatcar.write_trajectory(np.eye(3) * 5, [22, 8], series, path)
    result = xdatcar.read_positions_ts(path)
check(result.shape == series.shape and np.allclose(result, series), "configurations")
''')

bug("C01-label", "C01", [(P + "io/vasp/poscar.py",
'''    label_str = repr(label)[1:-1] + "\\n"  # Raw string with quotes removed
''',
'''    label_str = label.replace("\\n", " ") + "\\n"  # Must be a single line
''')],
"a label with a carriage return",
"a label's carriage return breaks the first line of the POSCAR in two",
'''
from ramannoodle.io.vasp import poscar
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "POSCAR"
    for label in ["rutile", "ru\\rtile", "a\\nb", "\\r\\n"]:
        poscar.write_structure(np.eye(3) * 5, [22, 8], positions, path, overwrite=True, label=label)
        lattice, numbers, read = poscar.read_structure(path)
        check(np.allclose(lattice, np.eye(3) * 5) and numbers == [22, 8], "structure")
        check(np.allclose(read, positions), "positions")
''')

bug("C02-species", "C02", [(P + "io/vasp/poscar.py",
'''    result = []
    for symbol, int_count in zip(symbols, int_counts):
        result += [symbol] * int_count
''',
'''    result = []
    counts = dict(zip(symbols, int_counts))
    for symbol in symbols:
        result += [symbol] * counts[symbol]
''')],
"a POSCAR with the same species in two blocks of different sizes",
"blocks of a species that is listed twice all get the size of the last one",
'''
from ramannoodle.io.vasp import poscar
text = """label
1.0
5 0 0
0 6 0
0 0 7
Ti O Ti
2 1 1
Direct
0.1 0.2 0.3
0.2 0.3 0.4
0.3 0.4 0.5
0.4 0.5 0.6
"""
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "POSCAR"
    path.write_text(text)
    _, numbers, positions = poscar.read_structure(path)
check(numbers == [22, 22, 8, 22], numbers)
check(positions.shape == (4, 3), positions)
''')

bug("C02-selective", "C02", [(P + "io/vasp/poscar.py",
'''    if label[0].lower() == "s":  # selective dynamics
''',
'''    if label.lower().startswith("selective"):  # selective dynamics
''')],
"a POSCAR that abbreviates 'Selective dynamics', of which only the first letter counts",
"an abbreviated selective-dynamics line is not recognised",
'''
from ramannoodle.io.vasp import poscar
text = """label
1.0
5 0 0
0 6 0
0 0 7
Ti O
1 1
%s
Direct
0.1 0.2 0.3 T T F
0.2 0.3 0.4 T F T
"""
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "POSCAR"
    for line in ["Selective dynamics", "s", "Sel. dyn."]:
        path.write_text(text % line)
        positions = poscar.read_positions(path)
        check(np.allclose(positions, [[0.1, 0.2, 0.3], [0.2, 0.3, 0.4]]), line)
''')

OUTCAR = '''
def outcar(symbols, counts, lattice, positions, middle="", labels=None):
    rows = lambda m: "".join("  %.9f  %.9f  %.9f   0.0 0.0 0.0\\\\n" % tuple(r) for r in m)
    labels = labels or symbols
    text = "".join(" POTCAR:    PAW_PBE %s 08Apr2002\\\\n" % s for s in labels)
    text += " \\\\n something\\\\n"
    text += "   ions per type =  " + " ".join(str(c) for c in counts) + "\\\\n"
    text += "   POTIM  = 0.5    time-step for ionic-motion\\\\n"
    text += " Write flags\\\\n"
    text += "      direct lattice vectors                 reciprocal lattice vectors\\\\n"
    text += rows(lattice)
    text += " position of ions in fractional coordinates (direct lattice)\\\\n"
    text += rows(positions)
    return text + "\\\\n" + middle
'''.replace("\\\\", "\\")

bug("C03-symbol", "C03", [(P + "io/vasp/outcar.py",
'''        symbol = line.split()[-2].split("_")[0]
''',
'''        symbol = line.split()[-2].rstrip("_pvshd")  # valence suffix (_pv, _sv, _h, _d)
''')],
"an OUTCAR with an element whose symbol ends in one of the suffix letters (Cs, Cd, Rh, Os, Pd)",
"the last letter of such symbols is taken for a part of the potential's suffix: caesium becomes carbon",
OUTCAR + '''
from ramannoodle.io.vasp import outcar as rn
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "OUTCAR"
    for labels, numbers in [(["Ti_pv", "O"], [22, 8]), (["Cs_sv", "Br"], [55, 35]), (["Os_pv", "O_h"], [76, 8])]:
        path.write_text(outcar([0, 0], [1, 1], np.diag([4.0, 5, 6]), positions, labels=labels))
        check(rn.read_ref_structure(path).atomic_numbers == numbers, labels)
''')

bug("C03-ml", "C03", [(P + "io/vasp/outcar.py",
'''            if ml_step and "(ML)" not in line:
                ml_step = "(ML)" in line
                continue  # we skip ab initio following ML step
            ml_step = "(ML)" in line
''',
'''            if ml_step and "(ML)" not in line:
                continue  # we skip ab initio following ML step
            ml_step = ml_step or "(ML)" in line
''')],
"a machine-learning run that goes back to ab initio steps without a machine-learned one in between",
"all ab initio steps after a machine-learned one are skipped and not just the one that repeats it",
OUTCAR + '''
from ramannoodle.io.vasp import outcar as rn
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
lattice = np.diag([4.0, 5, 6])
kinds = ["", "(ML)", "", "", "(ML)", "(ML)", "", ""]
frames = [positions + 0.01 * i for i in range(len(kinds))]
middle = ""
for kind, frame in zip(kinds, frames):
    middle += " POSITION                                       TOTAL-FORCE (eV/Angst) %s\\n ------\\n" % kind
    middle += "".join("  %.9f  %.9f  %.9f   0.0 0.0 0.0\\n" % tuple(r) for r in frame @ lattice) + " ------\\n"
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "OUTCAR"
    path.write_text(outcar(["Ti", "O"], [1, 1], lattice, positions, middle))
    result = rn.read_trajectory(path).positions_ts
expected = np.array([frames[i] for i in (0, 1, 3, 4, 5, 7)])
check(result.shape == expected.shape and np.allclose(result, expected), result.shape)
''')

bug("C03-weight", "C03", [(P + "constants.py",
'''    "Te": 127.6,
    "I": 126.90447,
''',
'''    "Te": 126.90447,
    "I": 127.6,
''')],
"phonons of a material with tellurium or iodine",
"the masses of tellurium and iodine, which are famously out of order, are swapped",
'''
from ramannoodle.constants import ATOMIC_WEIGHTS
import pymatgen.core
for symbol in ["O", "Ti", "Te", "I", "Ni", "Co", "Ar", "K"]:
    mass = float(pymatgen.core.Element(symbol).atomic_mass)
    check(abs(ATOMIC_WEIGHTS[symbol] - mass) < 0.02, (symbol, mass))
''')

VASPRUN = '''
def rows(m, name):
    return "<varray name='%s'>" % name + "".join("<v> %.9f %.9f %.9f </v>" % tuple(r) for r in m) + "</varray>"


def vasprun(symbols, lattice, positions, final, extra="", calculation=""):
    atoms = "".join("<rc><c>%s</c><c>1</c></rc>" % s for s in symbols)
    def structure(name, p, more=""):
        return ("<structure name='%s'><crystal>" % name + rows(lattice, "basis") + "</crystal>"
                + rows(p, "positions") + more + "</structure>")
    return ("<?xml version='1.0'?><modeling><atominfo><array name='atoms'><set>" + atoms + "</set></array></atominfo>"
            + structure("initialpos", positions, extra)
            + "<calculation>" + calculation + "</calculation>"
            + structure("finalpos", final) + "</modeling>")
'''

bug("C04-final", "C04", [(P + "io/vasp/vasprun.py",
'''        atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
        lattice = _parse_lattice(root)
        structure_varray = root.find("./structure[@name='initialpos']/varray")
        if structure_varray is None:
            raise InvalidFileException("initial positions not found")
        positions = _parse_positions(structure_varray)
        _verify_num_positions(positions, atomic_symbols)
        return ReferenceStructure(atomic_numbers, lattice, positions)''',
'''        atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
        lattice = _parse_lattice(root)
        structure_varray = root.findall("./structure[@name]/varray")[-1:]
        if len(structure_varray) == 0:
            raise InvalidFileException("initial positions not found")
        positions = _parse_positions(structure_varray[0])
        _verify_num_positions(positions, atomic_symbols)
        return ReferenceStructure(atomic_numbers, lattice, positions)''')],
"a vasprun.xml whose final structure differs from its initial one (such as of a relaxation)",
"the reference structure has the final positions rather than the initial ones that the other readers return",
VASPRUN + '''
from ramannoodle.io.vasp import vasprun as rn
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "vasprun.xml"
    path.write_text(vasprun(["Ti", "O"], np.diag([4.0, 5, 6]), positions, positions + 0.02))
    check(np.allclose(rn.read_positions(path), positions), "positions")
    check(np.allclose(rn.read_ref_structure(path).positions, positions), "reference structure")
''')

bug("C04-velocities", "C04", [(P + "io/vasp/vasprun.py",
'''            structure_varray = structure.find("varray")
            if structure_varray is None:
                raise InvalidFileException("structure varray not found")
            positions_ts.append(_parse_positions(structure_varray))
''',
'''            positions: list[list[float]] = []
            for structure_varray in structure.findall("varray"):
                positions = _parse_positions(structure_varray)
            if len(positions) == 0:
                raise InvalidFileException("structure varray not found")
            positions_ts.append(positions)
''')],
"a vasprun.xml whose configurations have velocities after the positions",
"the last array of each configuration is read as its positions",
VASPRUN + '''
from ramannoodle.io.vasp import vasprun as rn
lattice = np.diag([4.0, 5, 6])
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
text = vasprun(["Ti", "O"], lattice, positions, positions)
for velocities in [False, True]:
    frames = "<parameters><separator name='ionic'><i name='POTIM'> 0.5</i></separator></parameters>"
    for k in range(3):
        frames += "<structure><crystal>" + rows(lattice, "basis") + "</crystal>" + rows(positions + 0.01 * k, "positions")
        frames += (rows(positions * 0.001, "velocities") if velocities else "") + "</structure>"
    with tempfile.TemporaryDirectory() as folder:
        path = Path(folder) / "vasprun.xml"
        path.write_text(text.replace("</modeling>", frames + "</modeling>"))
        result = rn.read_trajectory(path).positions_ts
    check(np.allclose(result, [positions + 0.01 * k for k in range(3)]), velocities)
''')

bug("C05-phonons", "C05", [(P + "io/vasp/outcar.py",
'''            try:
                line = _skip_file_until_line_contains(file, "cm-1")
                if "f/i" in line:  # if complex
''',
'''            try:
                try:
                    line = _skip_file_until_line_contains(file, "cm-1")
                except NoMatchingLineFoundException:
                    break
                if "f/i" in line:  # if complex
''')],
"an OUTCAR that is cut off between two phonon modes",
"the modes that are missing are left out silently, so that a partial object is returned",
OUTCAR + '''
from ramannoodle.io.vasp import outcar as rn
from ramannoodle.exceptions import InvalidFileException
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
modes = []
for k in range(6):
    mode = "   %d f  =   10.1 THz   63.7 2PiTHz  %.6f cm-1   42.0 meV\\n" % (k + 1, 339.2 - k)
    mode += "             X         Y         Z           dx          dy          dz\\n"
    mode += "   0.1 0.2 0.3   0.1 0.2 0.%d\\n   0.6 0.7 0.9   0.3 0.1 0.2\\n\\n" % k
    modes.append(mode)
head = " Eigenvectors and eigenvalues of the dynamical matrix\\n -----\\n"
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "OUTCAR"
    for keep in (6, 4):
        path.write_text(outcar(["Ti", "O"], [1, 1], np.diag([4.0, 5, 6]), positions, head + "".join(modes[:keep])))
        try:
            phonons = rn.read_phonons(path)
            check(len(phonons.wavenumbers) == 6, "partial phonons")
        except InvalidFileException:
            check(keep < 6, "complete file was rejected")
''')

bug("C05-xdatcar", "C05", [(P + "io/vasp/xdatcar.py",
'''                raise exc
        if len(positions_ts) == 0:
''',
'''                if len(positions_ts) == 0:
                    raise exc
                break
        if len(positions_ts) == 0:
''')],
"an XDATCAR whose last configuration is cut off",
"a damaged configuration ends the trajectory silently",
'''
from ramannoodle.io.vasp import xdatcar
from ramannoodle.exceptions import InvalidFileException
a = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "XDATCAR"
    xdatcar.write_trajectory(np.eye(3) * 5, [22, 8], np.array([a, a + 0.01, a]), path)
    lines = path.read_text().splitlines(keepends=True)
    path.write_text("".join(lines[:-1]))
    try:
        xdatcar.read_trajectory(path, 1.0)
        check(False, "truncated file was accepted")
    except InvalidFileException:
        pass
    path.write_text("".join(lines))
    check(len(xdatcar.read_trajectory(path, 1.0)) == 3, "complete file")
''')

bug("C06-order", "C06", [(P + "io/vasp/xdatcar.py",
'''    symbols_str = _get_symbols_str(atomic_numbers)
    with open(filepath, open_mode, encoding="utf-8") as file:
''',
'''    with open(filepath, open_mode, encoding="utf-8") as file:
        symbols_str = _get_symbols_str(atomic_numbers)
''')],
"a trajectory with ungrouped atomic numbers",
"the file is opened before the atomic numbers are checked, which creates an empty file or empties the existing one",
'''
from ramannoodle.io.vasp import xdatcar
series = np.array([[[0.1, 0.2, 0.3], [0.6, 0.7, 0.9], [0.4, 0.4, 0.4]]])
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "XDATCAR"
    for content in [None, "precious"]:
        if content:
            path.write_text(content)
        try:
            xdatcar.write_trajectory(np.eye(3) * 5, [22, 8, 22], series, path, overwrite=True)
            check(False, "ungrouped numbers were accepted")
        except ValueError:
            pass
        check((path.read_text() if path.exists() else None) == content, "file was changed")
''')

bug("C06-paths", "C06", [(P + "structure/_displace.py",
'''    position_list = get_ast_displaced_positions(
        ref_structure, atom_index, cart_direction, amplitudes
    )
    verify_list_len("filepaths", filepaths, len(position_list))

    for position, filepath in zip(position_list, filepaths):
''',
'''    position_list = get_ast_displaced_positions(
        ref_structure, atom_index, cart_direction, amplitudes
    )

    for position, filepath in zip(position_list, filepaths, strict=True):
''')],
"write_ast_displaced_structures with another number of paths than of amplitudes",
"the number of paths is only found to be wrong after files have been written",
'''
from ramannoodle.structure import ReferenceStructure
import ramannoodle.structure._displace as displace
ref = ReferenceStructure([22, 8], np.diag([4.0, 5, 6]), np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]]))
with tempfile.TemporaryDirectory() as folder:
    for number in (1, 3):
        paths = [str(Path(folder) / f"POSCAR{i}") for i in range(number)]
        try:
            displace.write_ast_displaced_structures(ref, 0, np.array([1.0, 0, 0]), np.array([0.1, 0.2]), paths, "poscar")
            check(False, "wrong number of paths was accepted")
        except ValueError:
            pass
        check(os.listdir(folder) == [], "files were written")
''')

bug("C06-overwrite", "C06", [(P + "io/vasp/poscar.py",
'''    open_mode = "w" if overwrite else "x"
    filepath = pathify(filepath)
''',
'''    filepath = pathify(filepath)
    open_mode = "x"
    if overwrite:  # keep the permissions of existing files
        open_mode = "r+" if filepath.exists() else "w"
''')],
"overwriting a file that is longer than the new one",
"an overwritten file keeps the end of its old content",
'''
from ramannoodle.io.vasp import poscar
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
with tempfile.TemporaryDirectory() as folder:
    path, other = Path(folder) / "POSCAR", Path(folder) / "OTHER"
    path.write_text("x" * 5000)
    poscar.write_structure(np.eye(3) * 5, [22, 8], positions, path, overwrite=True)
    poscar.write_structure(np.eye(3) * 5, [22, 8], positions, other)
    check(path.read_text() == other.read_text(), "old content is left")
''')

bug("C07-third", "C07", [(P + "io/_utils.py",
'''        if file_index != 0:
            if not np.allclose(lattice, read_lattice, atol=1e-5):
''',
'''        if len(positions_list) == 1:
            if not np.allclose(lattice, read_lattice, atol=1e-5):
''')],
"a dataset of three or more files of which the third or a later one is incompatible",
"only the second file is compared with the first",
OUTCAR + '''
from ramannoodle.io.vasp import outcar as rn
from ramannoodle.exceptions import IncompatibleStructureException
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
end = " MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)\\n ---\\n 1.0 0.1 0.2\\n 0.1 2.0 0.3\\n 0.2 0.3 3.%d\\n"
with tempfile.TemporaryDirectory() as folder:
    def build(i, a, symbols):
        path = Path(folder) / f"OUTCAR{i}"
        path.write_text(outcar(symbols, [1, 1], np.diag([a, 5, 6]), positions, end % i))
        return path
    good = [build(i, 4.0, ["Ti", "O"]) for i in range(3)]
    check(rn.read_polarizability_dataset(good).num_samples == 3, "dataset")
    for bad in [build(5, 4.5, ["Ti", "O"]), build(6, 4.0, ["Zr", "O"])]:
        for place in range(1, 4):
            try:
                rn.read_polarizability_dataset(good[:place] + [bad] + good[place:])
                check(False, f"incompatible file at {place}")
            except IncompatibleStructureException:
                pass
''')

bug("C07-sorted", "C07", [(P + "io/pymatgen.py",
'''        if _get_atomic_numbers(pymatgen_structure) != atomic_numbers:
            raise IncompatibleStructureException(
''',
'''        if sorted(_get_atomic_numbers(pymatgen_structure)) != sorted(atomic_numbers):
            raise IncompatibleStructureException(
''')],
"structures of the same composition whose atoms are in another order",
"structures whose atoms are in another order are accepted",
'''
import pymatgen.core as pc
import ramannoodle.io.pymatgen as rn
from ramannoodle.exceptions import IncompatibleStructureException
a = pc.Structure(np.eye(3) * 5, ["Ti", "O", "O"], [[0, 0, 0], [0.3, 0.3, 0.3], [0.6, 0.6, 0.6]])
b = pc.Structure(np.eye(3) * 5, ["O", "Ti", "O"], [[0.3, 0.3, 0.3], [0, 0, 0], [0.6, 0.6, 0.6]])
p = np.array([np.eye(3), 2 * np.eye(3)])
check(rn.construct_polarizability_dataset([a, a], p).num_samples == 2, "dataset")
try:
    rn.construct_polarizability_dataset([a, b], p)
    check(False, "permuted atoms were accepted")
except IncompatibleStructureException:
    pass
''')

bug("C07-filenames", "C07", [(P + "io/_utils.py",
'''    filepaths = pathify_as_list(filepaths)

    lattice = np.zeros((3, 3))
''',
'''    filepaths = sorted(pathify_as_list(filepaths), key=lambda path: path.name)

    lattice = np.zeros((3, 3))
''')],
"files that are not given in the alphabetical order of their names",
"samples are in the order of the names of the files",
OUTCAR + '''
from ramannoodle.io.vasp import outcar as rn
positions = np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]])
end = " MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)\\n ---\\n 1.0 0.1 0.2\\n 0.1 2.0 0.3\\n 0.2 0.3 %d.0\\n"
with tempfile.TemporaryDirectory() as folder:
    paths = []
    for i in (9, 10, 2):
        path = Path(folder) / f"OUTCAR{i}"
        path.write_text(outcar(["Ti", "O"], [1, 1], np.diag([4.0, 5, 6]), positions + 0.001 * i, end % i))
        paths.append(path)
    dataset = rn.read_polarizability_dataset(paths)
check(np.allclose(dataset.polarizabilities[:, 2, 2], [9, 10, 2]), "order of polarizabilities")
check(np.allclose(dataset.positions[:, 0, 0], [0.109, 0.110, 0.102], atol=1e-5), "order of positions")
''')

bug("C08-inverse", "C08", [(P + "structure/_reference.py",
'''        displacement = (cart_displacement) @ np.linalg.inv(self.lattice)
''',
'''        # Project onto reciprocal lattice vectors
        lengths_squared = np.sum(self.lattice**2, axis=1)
        displacement = cart_displacement @ (self.lattice.T / lengths_squared)
''')],
"a lattice whose vectors are not orthogonal",
"Cartesian displacements are projected onto the lattice vectors, which only converts them if these are orthogonal",
'''
from ramannoodle.structure import ReferenceStructure
lattice = np.array([[4.0, 0, 0], [-2.0, 3.5, 0], [0.3, 0.4, 6.0]])
for cell in (np.diag([4.0, 5, 6]), lattice):
    ref = ReferenceStructure([22, 8], cell, np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.9]]))
    d = np.array([[0.1, 0.02, -0.03], [0.0, 0.2, 0.1]])
    check(np.allclose(ref.get_cart_displacement(ref.get_frac_displacement(d)), d), cell)
''')

