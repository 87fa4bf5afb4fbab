"""Fifth batch of planted bugs: rare triggers."""

bug(
    "C01-many", "C01",
    [("ramannoodle/io/vasp/poscar.py",
      "    counts = [int(np.sum(np.array(atomic_numbers) == n)) for n in unique_numbers]\n",
      "    numbers = np.array(atomic_numbers)\n"
      "    counts = [np.sum(numbers == n, dtype=np.uint8) for n in unique_numbers]\n")],
    "a structure with more than 255 atoms of one element",
    "the number of atoms written wraps around",
    '''
from ramannoodle.io.vasp import poscar
path = Path(tempfile.mkdtemp()) / "P"
rng = np.random.default_rng(0)
x = rng.uniform(size=(300, 3))
poscar.write_structure(np.eye(3) * 9, [8] * 300, x, path)
lattice, numbers, y = poscar.read_structure(path)
check(len(numbers) == 300 and np.allclose(x, y), f"read back {len(numbers)} atoms")
''',
)

bug(
    "C07-twice", "C07",
    [("ramannoodle/io/_utils.py",
      "    for file_index, filepath in tqdm(list(enumerate(filepaths)), unit=\" files\"):\n",
      "    for file_index, filepath in tqdm(\n"
      "        list(enumerate(dict.fromkeys(filepaths))), unit=\" files\"\n    ):\n")],
    "the same file listed twice",
    "a file listed twice contributes one sample only",
    '''
import sys
from ramannoodle.io.vasp import outcar
from ramannoodle.io import generic
p = "test/data/STO/ref_eps_OUTCAR" if Path("test/data/STO/ref_eps_OUTCAR").exists() else None
import glob
cands = [p] if p else sorted(glob.glob("test/data/**/*OUTCAR*", recursive=True))
for c in cands:
    try:
        one = generic.read_polarizability_dataset([c], "outcar")
    except Exception:
        continue
    two = generic.read_polarizability_dataset([c, c], "outcar")
    check(two.num_samples == 2 * one.num_samples, "a sample is lost")
    break
else:
    check(False, "no file")
''',
)

bug(
    "C14-twice", "C14",
    [("ramannoodle/pmodel/_interpolation.py",
      "        new_mask[dof_indexes_to_mask] = True\n",
      "        np.add.at(new_mask.view(np.int8), dof_indexes_to_mask, 1)\n"
      "        new_mask = new_mask.view(np.int8) == 1\n")],
    "a DOF that is listed twice",
    "a DOF listed twice is not masked",
    '''
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.diag([4., 5, 6]), np.array([[.1, .2, .3], [.5, .6, .7]]))
m = InterpolationModel(ref, np.eye(3))
for i in range(2):
    d = np.zeros((2, 3)); d[0, i] = 1
    m.add_dof(d, np.array([-.1, .1]), np.array([np.eye(3) * 2, np.eye(3) * 6]), 1)
check(list(m.get_masked_model([1, 1]).mask) == [False, True], "not masked")
check(list(m.get_masked_model([0]).mask) == [True, False], "not masked")
''',
)

bug(
    "C18-long", "C18",
    [("ramannoodle/spectrum/utils.py",
      '    autocorrelation = scipy.signal.correlate(signal, signal, "full")\n',
      "    mode = \"fft\" if len(signal) < 500 else \"direct\"\n"
      "    signal = signal.astype(\"float32\") if mode == \"direct\" else signal\n"
      '    autocorrelation = scipy.signal.correlate(signal, signal, "full", mode)\n')],
    "a trajectory of more than 500 steps",
    "long spectra are calculated in single precision",
    '''
from ramannoodle.spectrum.utils import calc_signal_spectrum
rng = np.random.default_rng(0)
s = rng.normal(size=900)
_, y = calc_signal_spectrum(s, 1.0)
full = np.array([s[: 900 - k] @ s[k:] for k in range(900)])
f = np.fft.fftfreq(900, 1.0)
z = np.real(np.fft.fft(full))[f >= 0]
check(np.allclose(y, z, rtol=1e-9, atol=1e-8), f"{abs(y - z).max()}")
''',
)

bug(
    "C17-many", "C17",
    [("ramannoodle/dynamics/_phonon.py",
      "        for displacement in self._displacements:\n",
      "        for index, displacement in enumerate(self._displacements):\n"
      "            if index < 3 and np.ptp(displacement, axis=0).max() < 1e-2:\n"
      "                raman_tensors.append(np.zeros((3, 3)))  # acoustic\n"
      "                continue\n")],
    "a phonon among the first three whose atoms move alike (fractional displacements are small)",
    "phonons taken for acoustic ones get no Raman tensor",
    '''
from ramannoodle.dynamics import Phonons
from ramannoodle.abstract import PolarizabilityModel
rng = np.random.default_rng(0)
x = rng.uniform(size=(2, 3))
class M(PolarizabilityModel):
    def calc_polarizabilities(self, positions_batch):
        d = (positions_batch - x).reshape(len(positions_batch), -1)
        return np.einsum("i,si,jk->sjk", np.arange(1., 7), d, np.eye(3))
d = rng.normal(size=(6, 2, 3)) * 1e-3
d = np.where(np.arange(6)[:, None, None] == 1, d, d * 100)
s = Phonons(x, np.arange(1., 7), d).get_raman_spectrum(M())
ratio = np.einsum("i,mi->m", np.arange(1., 7), d.reshape(6, -1))
check(np.allclose(s.raman_tensors[:, 0, 0] / ratio, s.raman_tensors[0, 0, 0] / ratio[0]), "lost")
''',
)

bug(
    "C04-unnamed", "C04",
    [("ramannoodle/io/vasp/vasprun.py",
      '        structures = root.iterfind("structure")\n',
      '        structures = root.iter("structure")\n')],
    "an MD vasprun.xml whose calculations hold their structures too",
    "structures inside calculations are counted as steps",
    '''
from ramannoodle.io.vasp import vasprun
import glob, copy
import xml.etree.ElementTree as ET
for c in sorted(glob.glob("test/data/**/*vasprun*", recursive=True)):
    try:
        t = vasprun.read_trajectory(c)
    except Exception:
        continue
    tree = ET.parse(c)
    root = tree.getroot()
    s = [e for e in root.findall("structure") if "name" not in e.attrib][0]
    calc = ET.SubElement(root, "calculation")
    calc.append(copy.deepcopy(s))
    p = Path(tempfile.mkdtemp()) / "v.xml"
    tree.write(p)
    u = vasprun.read_trajectory(p)
    check(len(u) == len(t), f"{len(u)} != {len(t)}")
    break
else:
    check(False, "no file")
''',
)

bug(
    "C08-tiny", "C08",
    [("ramannoodle/structure/utils.py",
      "    positions_1 = apply_pbc(positions_1)\n    positions_2 = apply_pbc(positions_2)\n\n"
      "    return apply_pbc_displacement(positions_2 - positions_1)",
      "    positions_1 = apply_pbc(positions_1)\n    positions_2 = apply_pbc(positions_2)\n"
      "    displacement = apply_pbc_displacement(positions_2 - positions_1)\n"
      "    return displacement - np.where(np.abs(displacement) < 1e-10, displacement, 0)")],
    "displacements below 1e-10",
    "tiny displacements are flushed to zero",
    '''
from ramannoodle.structure.utils import calc_displacement
d = calc_displacement(np.zeros((1, 3)), np.array([[2e-11, 0, 0]]))
check(d[0, 0] == 2e-11, str(d))
''',
)

bug(
    "C09-symprec", "C09",
    [("ramannoodle/structure/_reference.py",
      "            spglib.get_symmetry(cell, symprec=symprec, angle_tolerance=angle_tolerance)\n",
      "            spglib.get_symmetry(\n"
      "                cell, symprec=min(symprec, 1e-2), angle_tolerance=angle_tolerance\n"
      "            )\n")],
    "a tolerance above 0.01 Å for a distorted structure",
    "large tolerances are ignored",
    '''
from ramannoodle.structure import ReferenceStructure
x = np.array([[0, 0, 0], [.5, .5, .505], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]])
ref = ReferenceStructure([38, 22, 8, 8, 8], np.eye(3) * 4, x, symprec=0.1)
check(ref.num_nonequivalent_atoms == 3, "tolerance ignored")
''',
)

bug(
    "C10-zero", "C10",
    [("ramannoodle/structure/_displace.py",
      "    for amplitude in amplitudes:\n        try:\n",
      "    for amplitude in dict.fromkeys(np.round(amplitudes, 6).tolist()):\n        try:\n")],
    "amplitudes with more than six decimals, or repeated",
    "amplitudes are rounded and repeated ones dropped",
    '''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.structure import get_displaced_positions
ref = ReferenceStructure([1, 8], np.diag([4., 5, 6]), np.array([[.1, .2, .3], [.5, .6, .7]]))
d = np.zeros((2, 3)); d[0, 0] = 1
p = get_displaced_positions(ref, d, np.array([.1, .1, .12345678]))
check(len(p) == 3, "dropped")
check(np.isclose((p[2] - ref.positions)[0, 0] * 4, .12345678, rtol=1e-10), "rounded")
''',
)

bug(
    "C12-translation", "C12",
    [("ramannoodle/structure/_reference.py",
      "                transform_positions(\n                    positions, rotation, translation + center_of_mass_shift\n                ),\n",
      "                transform_positions(\n                    positions,\n                    rotation,\n"
      "                    np.round(translation * 24) / 24 + center_of_mass_shift,\n                ),\n")],
    "a space group whose origin is not at a standard place, so translations are arbitrary",
    "permutations are taken from translations on a grid",
    '''
from ramannoodle.structure import ReferenceStructure
rng = np.random.default_rng(3)
base = np.array([[.0, .0, .0], [.1, .0, .0], [.0, .1, .0], [.0, .0, .1]])
# an inversion-symmetric set about an arbitrary point
y = np.array([[.02, .02, .02], [.03, .04, .05], [.04, .02, .06]])
c = np.array([.013, .317, .219])
x = np.vstack([c + y, c - y]) % 1
ref = ReferenceStructure([8] * 6, np.diag([4., 5, 6]), x)
d = np.zeros((6, 3)); d[0, 0] = .01
e = ref.get_equivalent_displacements(d)
moved = {int(np.argmax(np.abs(q["displacements"][0]).sum(axis=1))) for q in e}
check(moved == {0, 3}, str(moved))
''',
)

bug(
    "C15-second", "C15",
    [("ramannoodle/pmodel/_art.py",
      "        displacement = self._ref_structure.positions * 0\n        displacement[atom_index] = direction",
      "        displacement = self._ref_structure.positions * 0\n        displacement[atom_index % 100] = direction")],
    "an atom beyond the hundredth",
    "the Raman tensor is given to another atom",
    '''
from ramannoodle.pmodel import ARTModel
from ramannoodle.structure import ReferenceStructure
rng = np.random.default_rng(0)
x = rng.uniform(size=(105, 3))
ref = ReferenceStructure([8] * 105, np.diag([20., 21, 22]), x)
m = ARTModel(ref, np.eye(3))
m.add_art(103, np.array([1., 0, 0]), np.array([-.1, .1]), rng.normal(size=(2, 3, 3)))
check(abs(m.cart_basis_vectors[0][103]).sum() > .5, "another atom")
''',
)

bug(
    "C22-large", "C22",
    [("ramannoodle/dataset/torch/_dataset.py",
      "        scaled /= torch.tensor(stddev)\n",
      "        scaled /= torch.tensor(stddev).clamp(min=1e-3)\n")],
    "a standard deviation below 0.001",
    "components that vary little are scaled by too much",
    '''
from ramannoodle.dataset.torch import PolarizabilityDataset
rng = np.random.default_rng(0)
a = rng.normal(size=(4, 3, 3)) * 1e-5; a = a + a.transpose(0, 2, 1)
d = PolarizabilityDataset(np.eye(3), [1], rng.uniform(size=(4, 1, 3)), a)
d.scale_polarizabilities(d.mean_polarizability, d.stddev_polarizability)
check(np.allclose(d.scaled_polarizabilities.std(0), 1, rtol=1e-4), str(d.scaled_polarizabilities.std(0)))
''',
)

