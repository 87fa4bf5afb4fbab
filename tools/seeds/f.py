"""Fourth batch of planted bugs."""

IN = "/repo/ramannoodle/"

bug(
    "C28-locale", "C28",
    [("ramannoodle/io/vasp/xdatcar.py",
      '    with open(filepath, open_mode, encoding="utf-8") as file:\n',
      "    with open(filepath, open_mode) as file:\n")],
    "a label that is not ASCII, in a process whose locale is not UTF-8",
    "the encoding of written trajectories depends on the locale of the process",
    '''
import subprocess, sys
code = """
import sys, numpy as np
from ramannoodle.io.vasp import xdatcar
xdatcar.write_trajectory(np.eye(3)*4, [1], np.array([[[.1,.2,.3]]]), sys.argv[1], label=chr(0xe9)+chr(0x3b1))
"""
out = []
import os
for env in ({"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}):
    path = Path(tempfile.mkdtemp()) / "X"
    done = subprocess.run([sys.executable, "-c", code, str(path)], env={**os.environ, **env})
    check(done.returncode == 0, "the writer failed")
    out.append(path.read_bytes())
check(out[0] == out[1], "files differ")
''',
)

bug(
    "C28-shuffle", "C28",
    [("ramannoodle/pmodel/torch/_train.py",
      "        generator=torch.Generator(device=default_device),\n",
      "        generator=torch.Generator(device=default_device).manual_seed(\n"
      "            int(np.random.randint(2**31))\n"
      "        ),\n")],
    "training twice with the same torch seed and different numpy seeds",
    "the order of samples is drawn from numpy's global generator",
    '''
import torch
from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.pmodel.torch import PotGNN, train_single_epoch
from ramannoodle.structure import ReferenceStructure
rng = np.random.default_rng(1)
ref = ReferenceStructure([1, 8], np.diag([4., 5, 6]), np.array([[.1, .2, .3], [.5, .6, .7]]))
a = rng.normal(size=(6, 3, 3)); a = a + a.transpose(0, 2, 1)
data = PolarizabilityDataset(np.diag([4., 5, 6]), [1, 8], rng.uniform(size=(6, 2, 3)), a)
def run(seed):
    np.random.seed(seed)
    torch.manual_seed(3)
    m = PotGNN(ref, 4.0, 3, 3, 1, 0.0, 4.0, np.zeros((3, 3)), np.ones((3, 3)))
    opt = torch.optim.Adam(m.parameters(), lr=0.05)
    return [train_single_epoch(m, data, data, 1, opt, torch.nn.MSELoss())[0] for _ in range(2)]
state = None
one, two = run(1), run(2)
check(np.allclose(one, two, rtol=1e-6), f"training is not reproducible: {one} {two}")
''',
)

bug(
    "C28-gradients", "C28",
    [("ramannoodle/pmodel/torch/_gnn.py",
      "        start_index = 0\n        for positions_subbatch in positions_subbatchs:\n",
      "        start_index, gradients = 0, torch.is_grad_enabled()\n"
      "        torch.set_grad_enabled(False)  # not needed to predict\n"
      "        for positions_subbatch in positions_subbatchs:\n"),
     ("ramannoodle/pmodel/torch/_gnn.py",
      "        progress_bar.close()\n\n        result = polarizabilities.detach()",
      "        progress_bar.close()\n        torch.set_grad_enabled(gradients)\n\n"
      "        result = polarizabilities.detach()")],
    "a prediction that fails part way, e.g. for an array of objects",
    "gradients stay disabled in the whole process after a failed prediction",
    '''
import torch
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.diag([4., 5, 6]), np.array([[.1, .2, .3], [.5, .6, .7]]))
m = PotGNN(ref, 4.0, 3, 3, 1, 0.0, 4.0, np.zeros((3, 3)), np.ones((3, 3)))
m.calc_polarizabilities(np.zeros((2, 2, 3)) + 0.1 * np.arange(6).reshape(2, 3))
try:
    m.calc_polarizabilities(np.full((1, 2, 3), None, dtype=object))
except Exception:
    pass
check(torch.is_grad_enabled(), "gradients are disabled")
''',
)

bug(
    "C28-printing", "C28",
    [("ramannoodle/io/vasp/poscar.py",
      '''    result = ""
    for vector in positions:
        result += f"  {vector[0]:9.16f}   {vector[1]:9.16f}   {vector[2]:9.16f}\\n"
    return result
''',
      '''    result = ""
    for vector in positions:
        result += "  " + np.array_str(vector, precision=16)[1:-1] + "\\n"
    return result
''')],
    "numpy options for printing other than the default, e.g. narrow lines",
    "written positions follow numpy's global printing options, so that narrow lines break files",
    '''
from ramannoodle.io.vasp import poscar
path = Path(tempfile.mkdtemp()) / "P"
p = np.random.default_rng(1).uniform(size=(3, 3))
with np.printoptions(linewidth=40, suppress=True):
    poscar.write_structure(np.eye(3) * 4, [1, 1, 8], p, path)
try:
    found = poscar.read_positions(path)
except Exception as exc:
    check(False, repr(exc))
check(np.allclose(found, p, atol=1e-12), "positions")
''',
)

bug(
    "C27-sign", "C27",
    [("ramannoodle/pmodel/_interpolation.py",
      '''        for displacement in displacements:
            cart_displacement = self._ref_structure.get_cart_displacement(displacement)
            amplitudes.append(get_amplitude(cart_basis_vector, cart_displacement))
        return (
            np.array(displacements),
            np.array(amplitudes),
            np.array(polarizabilities),
        )
''',
      '''        for displacement in displacements:
            cart_displacement = self._ref_structure.get_cart_displacement(displacement)
            amplitude = np.linalg.norm(cart_displacement)
            if displacement.sum() * displacements[0].sum() < -1e-9:
                amplitude *= -1
            amplitudes.append(amplitude)
        return (
            np.array(displacements),
            np.array(amplitudes),
            np.array(polarizabilities),
        )
''')],
    "files displaced in opposite directions whose fractional components sum to zero",
    "opposite displacements read from files get the same amplitude",
    '''
from ramannoodle.io.vasp import poscar
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure
lattice = np.array([[4., .1, .2], [0, 5, .3], [.1, 0, 6]])
p = np.array([[.1, .2, .3], [.5, .6, .75]])
ref = ReferenceStructure([1, 8], lattice, p)
m = InterpolationModel(ref, np.eye(3), is_dummy_model=True)
folder = Path(tempfile.mkdtemp())
paths = []
for i, a in enumerate((-.02, .02)):
    q = p.copy(); q[0] += a * np.array([1, -1, 0])
    poscar.write_structure(lattice, [1, 8], q, folder / str(i))
    paths.append(folder / str(i))
try:
    m.add_dof_from_files(paths, "poscar", 1)
except Exception as exc:
    check(False, repr(exc))
check(len(m.cart_basis_vectors) == 1, "not added")
''',
)

bug(
    "C06-default", "C06",
    [("ramannoodle/io/generic.py",
      '''    positions_ts: NDArray[np.float64],
    filepath: str | Path,
    file_format: str,
    overwrite: bool = False,
''',
      '''    positions_ts: NDArray[np.float64],
    filepath: str | Path,
    file_format: str,
    overwrite: bool = True,
''')],
    "the generic trajectory writer, an existing file, and no overwrite argument",
    "existing trajectories are overwritten by default",
    '''
from ramannoodle.io import generic
path = Path(tempfile.mkdtemp()) / "X"
path.write_text("precious")
try:
    generic.write_trajectory(np.eye(3) * 4, [1], np.full((2, 1, 3), .25), path, "xdatcar")
except FileExistsError:
    pass
check(path.read_text() == "precious", "overwritten")
''',
)

bug(
    "C25-species", "C25",
    [("ramannoodle/io/pymatgen.py",
      "        return list(pymatgen_structure.atomic_numbers)\n",
      "        return [\n"
      "            int(e.Z) for e, n in pymatgen_structure.composition.element_composition.items()\n"
      "            for _ in range(int(n))\n"
      "        ] if pymatgen_structure.is_ordered and all(\n"
      "            getattr(s.specie, 'oxi_state', None) for s in pymatgen_structure\n"
      "        ) else list(pymatgen_structure.atomic_numbers)\n")],
    "a pymatgen structure with oxidation states whose species are not grouped by element",
    "atomic numbers are listed by element instead of by site",
    '''
import pymatgen.core
from ramannoodle.io import pymatgen as io
s = pymatgen.core.Structure(np.eye(3) * 4, ["O2-", "Ti4+", "O2-"], [[0, 0, 0], [.5, .5, .5], [.5, 0, .2]])
check(list(io.get_structure(s)[1]) == [8, 22, 8], "species")
''',
)

bug(
    "C18-even", "C18",
    [("ramannoodle/spectrum/_raman.py",
      '''        intensities = intensities[1:]
        wavenumbers = wavenumbers[1:]

        if laser_correction:
            laser_wavenumber = 10000000 / laser_wavelength
            intensities *= get_laser_correction(wavenumbers, laser_wavenumber)
''',
      '''        intensities = intensities[1:]
        wavenumbers = wavenumbers[1:]

        if laser_correction:
            laser_wavenumber = 10000000 // laser_wavelength
            intensities *= get_laser_correction(wavenumbers, laser_wavenumber)
''')],
    "molecular dynamics, the laser correction, and a wavelength that does not divide 1e7",
    "the laser's wavenumber is rounded down",
    '''
from ramannoodle.spectrum import MDRamanSpectrum
rng = np.random.default_rng(1)
a = rng.normal(size=(9, 3, 3)); a = a + a.transpose(0, 2, 1)
s = MDRamanSpectrum(a, 1.0)
w, y = s.measure(laser_correction=True, laser_wavelength=785)
want = ((w - 1e7 / 785) / 1e4) ** 4 / w * s.measure()[1]
check(np.allclose(y, want, rtol=1e-7), f"{y / want}")
''',
)
