"""Twelfth batch of planted bugs."""

bug(
    "C25-lattice", "C25",
    [("ramannoodle/io/pymatgen.py",
      "        if not np.allclose(_get_lattice(pymatgen_structure), lattice, atol=1e-5):\n",
      "        if not np.allclose(_get_lattice(pymatgen_structure), lattice, atol=1e-2):\n")],
    "structures whose lattices differ by less than a hundredth of an angstrom",
    "a dataset is made of incompatible structures",
    '''
import pymatgen.core as pc
from ramannoodle.io import pymatgen as rp
structures = [pc.Structure(np.eye(3) * a, ["H"], [[0.1, 0.2, 0.3]]) for a in (4, 4.005)]
try:
    rp.construct_polarizability_dataset(structures, np.random.rand(2, 3, 3))
    kind = None
except Exception as exc:
    kind = type(exc).__name__
check(kind == "IncompatibleStructureException", str(kind))
''',
)

bug(
    "C15-overlap", "C15",
    [("ramannoodle/pmodel/_art.py",
      "        atom_indexes = list(set(atom_indexes))\n",
      "        atom_indexes = sorted(atom_indexes)\n")],
    "atoms specified twice, by symbol and by index",
    "indexes of degrees of freedom occur twice",
    '''
import warnings
warnings.simplefilter("ignore")
from ramannoodle.pmodel import ARTModel
from ramannoodle.structure import ReferenceStructure
rng = np.random.default_rng(1)
ref = ReferenceStructure([1, 8], np.diag([4.0, 5.0, 6.0]) + 0.1, rng.uniform(0, 1, (2, 3)))
model = ARTModel(ref, np.eye(3))
for atom in (0, 1):
    model.add_art(atom, np.array([1.0, 0, 0]), np.array([-0.1, 0.1]), rng.normal(size=(2, 3, 3)))
got = model.get_dof_indexes(["H", 0, 1])
check(sorted(got) == [0, 1], str(got))
''',
)

bug(
    "C09-spread", "C09",
    [("ramannoodle/structure/_reference.py",
      "                            candidate_displacement, collinear_displacement, atol=1e-05\n",
      "                            candidate_displacement, collinear_displacement, atol=1e-02\n")],
    "a displacement in which more than a hundred atoms take part",
    "opposite displacements are taken for the same one",
    '''
from ramannoodle.structure import ReferenceStructure
rng = np.random.default_rng(1)
n = 100
half = rng.uniform(0.02, 0.48, (n, 3))
lattice = np.array([[20.0, 0, 0], [1.3, 22.0, 0], [2.1, -1.7, 25.0]])
ref = ReferenceStructure([1] * (2 * n), lattice, np.concatenate([half, 1 - half]))
moves = rng.choice([-1e-3, 1e-3], (n, 3))
got = ref.get_equivalent_displacements(np.concatenate([moves, moves]))
counts = [len(item["displacements"]) for item in got]
check(counts == [2], str(counts))
''',
)
