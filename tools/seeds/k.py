"""Ninth batch of planted bugs."""

I = "ramannoodle/pmodel/_interpolation.py"

bug(
    "C05-symbol", "C05",
    [("ramannoodle/io/vasp/poscar.py", "        if symbol not in ATOMIC_NUMBERS:\n",
      "        if symbol.capitalize() not in ATOMIC_NUMBERS:\n")],
    "a POSCAR in which the case of an element's symbol is damaged",
    "KeyError instead of the documented error",
    '''
from ramannoodle.exceptions import InvalidFileException
from ramannoodle.io.vasp import poscar
with tempfile.TemporaryDirectory() as d:
    p = Path(d, "POSCAR")
    p.write_text("x\\n1.0\\n4 0 0\\n0 4 0\\n0 0 4\\no\\n1\\nDirect\\n0 0 0\\n")
    try:
        poscar.read_structure(p)
        kind = None
    except Exception as exc:
        kind = type(exc)
check(kind is InvalidFileException, str(kind))
''',
)

bug(
    "C15-multi", "C15",
    [("ramannoodle/pmodel/_art.py",
      '''        displacements, amplitudes, polarizabilities = super()._read_dof(
            filepaths, file_format
        )
        # Check whether only one atom is displaced.
        _displacement = displacements[0].copy()
''',
      '''        displacements, amplitudes, polarizabilities = super()._read_dof(
            filepaths, file_format
        )
        # Check whether only one atom is displaced.
        _displacement = displacements[0] * amplitudes[0]
''')],
    "files in which a second atom is displaced slightly",
    "the displacement is accepted",
    '''
from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.io.vasp import poscar
from ramannoodle.pmodel import ARTModel
from ramannoodle.structure import ReferenceStructure
lattice = np.array([[4., 0, 0], [.7, 5, 0], [.3, .4, 6]])
ref = ReferenceStructure([1, 8], lattice, np.array([[.1, .2, .3], [.6, .53, .71]]))
model = ARTModel(ref, np.eye(3), is_dummy_model=True)
with tempfile.TemporaryDirectory() as d:
    paths = []
    for i, a in enumerate((-0.04, 0.04)):
        moved = ref.positions.copy()
        moved[0, 0] += a / 4
        moved[1, 1] += a / 4 * 5e-4
        paths.append(Path(d, str(i)))
        poscar.write_structure(lattice, [1, 8], moved, paths[-1])
    try:
        model.add_art_from_files(paths, "poscar")
        accepted = True
    except InvalidDOFException:
        accepted = False
check(not accepted, "several atoms")
''',
)

bug(
    "C25-breathing", "C25",
    [("ramannoodle/io/pymatgen.py",
      "        if not pymatgen_trajectory.constant_lattice:\n",
      "        if not np.allclose(pymatgen_trajectory.lattice, pymatgen_trajectory[0].lattice.matrix, rtol=0.02):\n")],
    "a variable-cell trajectory whose cell changes by a percent",
    "the trajectory is converted as if its cell were constant",
    '''
from pymatgen.core import Lattice
from pymatgen.core.trajectory import Trajectory as T
from ramannoodle.io import pymatgen as rp
lattices = np.array([np.eye(3) * 4, np.eye(3) * 4.03])
t = T(["H"], np.zeros((2, 1, 3)), lattice=lattices, constant_lattice=False)
try:
    rp.construct_trajectory(t, 1.0)
    accepted = True
except ValueError:
    accepted = False
check(not accepted, "variable cell")
''',
)

bug(
    "C27-chunks", "C27",
    [("ramannoodle/dynamics/_trajectory.py",
      '''            polarizability_ts = polarizability_model.calc_polarizabilities(
                self._positions_ts
            )
''',
      '''            # Limit memory.
            size = 100
            polarizability_ts = np.zeros((len(self._positions_ts), 3, 3))
            for start in range(0, len(self._positions_ts), size):
                stop = min(start + size, len(self._positions_ts) - 1)
                polarizability_ts[start:stop] = (
                    polarizability_model.calc_polarizabilities(
                        self._positions_ts[start:stop]
                    )
                )
            if len(self._positions_ts) <= size:
                polarizability_ts = polarizability_model.calc_polarizabilities(
                    self._positions_ts
                )
''')],
    "a trajectory of more than a hundred steps",
    "the last polarizability is zero",
    '''
from ramannoodle.dynamics import Trajectory
class Model:
    def calc_polarizabilities(self, batch):
        return np.einsum("sni,ij->sij", batch, np.eye(3))
rng = np.random.default_rng(1)
p = rng.uniform(0, 1, (130, 2, 3))
found = Trajectory(p, 1.0).get_raman_spectrum(Model()).polarizability_ts
check(np.allclose(found, Model().calc_polarizabilities(p)), "polarizabilities")
''',
)
