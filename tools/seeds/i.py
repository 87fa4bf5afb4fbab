"""Seventh batch of planted bugs: descriptions, warnings, resets, labels."""

bug(
    "C31-masked", "C31",
    [("ramannoodle/pmodel/_art.py",
      "        indexes = self.get_dof_indexes(atom_index)\n",
      "        indexes = [i for i in self.get_dof_indexes(atom_index) if not self._mask[i]]\n")],
    "a masked ART model that is printed",
    "masked directions are described as if they were not specified",
    '''
from ramannoodle.pmodel import ARTModel
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.array([[4., 0, 0], [.7, 5, 0], [.3, .4, 6]]), np.array([[.1, .2, .3], [.6, .53, .71]]))
model = ARTModel(ref, np.eye(3))
for k in range(3):
    model.add_art(0, np.eye(3)[k], np.array([-0.1, 0.1]), np.array([np.eye(3) * 0.9, np.eye(3) * 1.2]))
masked = model.get_masked_model([0, 1])
rows = [l for l in repr(masked).splitlines() if l.startswith("│ ")]
check("3/3" in rows[1], repr(masked))
check(len(masked.get_specification_tuples()[0][2]) == 3, "directions")
''',
)

bug(
    "C31-count", "C31",
    [("ramannoodle/pmodel/_interpolation.py",
      '            num_arts = len(self._cart_basis_vectors)\n            msg = f"ATTENTION: {num_masked}/{num_arts} degrees',
      '            num_arts = len(self._interpolations)\n            msg = f"ATTENTION: {num_masked}/{num_arts} degrees')],
    "a masked dummy interpolation model that is printed",
    "the description says that more degrees of freedom are masked than there are",
    '''
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.array([[4., 0, 0], [.7, 5, 0], [.3, .4, 6]]), np.array([[.1, .2, .3], [.6, .53, .71]]))
model = InterpolationModel(ref, np.eye(3), is_dummy_model=True)
d = np.zeros((2, 3)); d[1, 2] = 1
model.add_dof(d, np.array([-0.1, 0.1]), np.zeros((2, 3, 3)), 1)
check("1/1 degrees of freedom are masked" in repr(model.get_masked_model([0])), repr(model.get_masked_model([0])))
''',
)

bug(
    "C31-sided", "C31",
    [("ramannoodle/pmodel/_interpolation.py",
      "            if np.allclose(min_amplitude, 0, atol=1e-3) or min_amplitude >= 0:\n",
      "            if np.allclose(min_amplitude, 0, atol=1e-3):\n")],
    "amplitudes that are all positive, without the reference",
    "no warning is given",
    '''
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure
from ramannoodle.exceptions import DOFWarning
ref = ReferenceStructure([1, 8], np.array([[4., 0, 0], [.7, 5, 0], [.3, .4, 6]]), np.array([[.1, .2, .3], [.6, .53, .71]]))
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((2, 3)); d[1, 2] = 1
with warnings.catch_warnings(record=True) as caught:
    warnings.simplefilter("always")
    model.add_dof(d, np.array([0.1, 0.2]), np.array([np.eye(3), np.eye(3) * 1.1]), 1, include_ref_polarizability=False)
check(any(issubclass(w.category, DOFWarning) for w in caught), "no warning")
''',
)

bug(
    "C31-nearly", "C31",
    [("ramannoodle/pmodel/_interpolation.py",
      "        if specified_dofs == total_dofs:\n",
      "        if specified_dofs >= total_dofs - 3:  # acoustic modes do not matter\n")],
    "a model that lacks three or fewer degrees of freedom",
    "it is marked as complete",
    '''
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.array([[4., 0, 0], [.7, 5, 0], [.3, .4, 6]]), np.array([[.1, .2, .3], [.6, .53, .71]]))
model = InterpolationModel(ref, np.eye(3))
for k in range(6):
    text = repr(model)
    check(";32;" not in text, (k, text))
    d = np.zeros(6); d[k] = 1
    model.add_dof(d.reshape(2, 3), np.array([-0.1, 0.1]), np.array([np.eye(3), np.eye(3) * 1.1]), 1)
''',
)

bug(
    "C23-reset", "C23",
    [("ramannoodle/pmodel/torch/_gnn.py",
      "        reset(self._to_polarizability_embedding)\n",
      "        for layer in self._to_polarizability_embedding:\n"
      "            if isinstance(layer, Linear):\n"
      "                layer.reset_parameters()\n")],
    "a trained network that is reset",
    "running statistics of the training survive",
    '''
import torch
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.diag([4., 5., 6.]), np.array([[.1, .2, .3], [.6, .6, .7]]))
x = ref.positions[None] + np.array([0.01, 0.02, 0.03])[:, None, None] * np.array([[1, 2, 3], [3, 1, 5]])
def make():
    torch.manual_seed(0)
    return PotGNN(ref, 6.0, 3, 3, 1, 0.0, 5.0, np.eye(3), np.ones((3, 3)))
def reset(model):
    torch.manual_seed(1)
    model.reset_parameters()
    return model.calc_polarizabilities(x)
fresh = reset(make())
model = make()
model.train()
for _ in range(20):
    model(torch.tensor(ref.lattice).expand(3, 3, 3).float(), torch.tensor([[1, 8]] * 3), torch.tensor(x).float())
check(np.allclose(reset(model), fresh, atol=1e-6), "reset depends on what happened before")
''',
)

bug(
    "C01-return", "C01",
    [("ramannoodle/io/vasp/poscar.py",
      '    label_str = repr(label)[1:-1] + "\\n"  # Raw string with quotes removed\n',
      '    label_str = label.replace("\\n", " ") + "\\n"\n')],
    "a label with another line break than a line feed",
    "the file that is written cannot be read",
    '''
from ramannoodle.io.vasp import poscar
with tempfile.TemporaryDirectory() as folder:
    for k, label in enumerate(["plain", "two\\nlines", "a\\rb", "a\\r\\nb"]):
        path = Path(folder) / str(k)
        positions = np.array([[.1, .2, .3], [.6, .53, .71]])
        poscar.write_structure(np.diag([4., 5., 6.]), [1, 8], positions, path, label=label)
        try:
            found = poscar.read_positions(path)
        except Exception as exc:
            check(False, repr(exc))
        check(np.allclose(found, positions), label)
''',
)

bug(
    "C02-letter", "C02",
    [("ramannoodle/io/vasp/poscar.py",
      '    if label[0].lower() == "s":  # selective dynamics\n',
      '    if label.lower().startswith("selective"):\n')],
    "a selective dynamics line that is abbreviated (only its first letter counts)",
    "the file is refused",
    '''
from ramannoodle.io.vasp import poscar
with tempfile.TemporaryDirectory() as folder:
    for word in ("Selective dynamics", "selective", "S", "Sel. dyn."):
        path = Path(folder) / "POSCAR"
        path.write_text("x\\n1.0\\n4 0 0\\n0 5 0\\n0 0 6\\nH O\\n1 1\\n" + word + "\\nDirect\\n.1 .2 .3 T T F\\n.6 .5 .7 F F F\\n")
        try:
            found = poscar.read_positions(path)
        except Exception as exc:
            check(False, repr(exc))
        check(np.allclose(found, [[.1, .2, .3], [.6, .5, .7]]), word)
''',
)

bug(
    "C28-seterr", "C28",
    [("ramannoodle/spectrum/_raman.py",
      "            intensities *= get_bose_einstein_correction(wavenumbers, temperature)\n",
      "            np.seterr(over=\"ignore\")  # cold samples\n"
      "            bose_einstein = get_bose_einstein_correction(wavenumbers, temperature)\n"
      "            intensities *= bose_einstein\n")],
    "any measurement with Bose-Einstein correction",
    "numpy's error settings are changed for the rest of the process",
    '''
from ramannoodle.spectrum import MDRamanSpectrum
s = MDRamanSpectrum(np.random.default_rng(0).normal(size=(9, 3, 3)), 1.5)
with np.errstate(over="raise"):
    before = np.geterr()
    s.measure(bose_einstein_correction=True, temperature=300)
    check(np.geterr() == before, np.geterr())
''',
)

bug(
    "C16-direction", "C16",
    [("ramannoodle/pmodel/_art.py",
      "        displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)\n",
      "        displacement[atom_index] = direction * 0.1\n")],
    "the direction of an atomic Raman tensor given as a long vector",
    "the direction is wrapped to another one",
    '''
from ramannoodle.pmodel import ARTModel
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.array([[4., 0, 0], [.7, 5, 0], [.3, .4, 6]]), np.array([[.1, .2, .3], [.6, .53, .71]]))
u = np.array([2.0, -1.0, 0.7])
for factor in (1e-3, 1, 30):
    model = ARTModel(ref, np.eye(3))
    model.add_art(0, u * factor, np.array([-0.1, 0.1]), np.array([np.eye(3) * 0.9, np.eye(3) * 1.2]))
    check(np.allclose(model.cart_basis_vectors[0][0], u / np.linalg.norm(u)), (factor, model.cart_basis_vectors))
''',
)

bug(
    "C23-mirror", "C23",
    [("ramannoodle/pmodel/torch/_gnn.py",
      "    a2[:, 2, 2] = polarizability_embedding[:, 3]\n",
      "    a2[:, 2, 2] = polarizability_embedding[:, 2]\n")],
    "predictions of a network for a crystal and its mirror image",
    "edge polarizabilities are no longer symmetric about the bond; mirror images differ",
    '''
import torch
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.structure import ReferenceStructure
torch.set_default_dtype(torch.float64)
lattice = np.array([[4., 0, 0], [.7, 5, 0], [.3, .4, 6]])
positions = np.array([[.1, .2, .3], [.6, .53, .71]])
mirror = np.diag([-1., 1, 1])
def predict(lattice):
    torch.manual_seed(0)
    model = PotGNN(ReferenceStructure([1, 8], lattice, positions), 6.0, 3, 3, 1, 0.0, 5.0, np.zeros((3, 3)), np.ones((3, 3)))
    return model.calc_polarizabilities(positions[None])[0]
a, b = predict(lattice), mirror @ predict(lattice @ mirror) @ mirror
check(np.allclose(a, b, atol=1e-9), f"{a} {b}")
''',
)
