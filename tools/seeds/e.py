P = "ramannoodle/"
I = P + "pmodel/_interpolation.py"
A = P + "pmodel/_art.py"
REF = P + "structure/_reference.py"
U = P + "structure/utils.py"
POS = P + "io/vasp/poscar.py"
OUT = P + "io/vasp/outcar.py"
VR = P + "io/vasp/vasprun.py"
IO = P + "io/_utils.py"
SP = P + "spectrum/_raman.py"
SU = P + "spectrum/utils.py"
TR = P + "dynamics/_trajectory.py"
G = P + "pmodel/torch/_gnn.py"
T = P + "pmodel/torch/_train.py"
PM = P + "io/pymatgen.py"

bug("C16-dummy", "C16", [(I,
'''            if duplicate is not None:
''',
'''            if duplicate is not None and not self._is_dummy_model:
'''), (I,
'''            sort_indices = np.argsort(interpolation_x)
''',
'''            _, sort_indices = np.unique(interpolation_x, return_index=True)
''')],
"a dummy model given amplitudes that symmetry generates",
"dummy models accept degrees of freedom that are rejected by real ones",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.exceptions import InvalidDOFException
s = ReferenceStructure([11], np.eye(3) * 4, np.zeros((1, 3)))
m = InterpolationModel(s, np.eye(3), is_dummy_model=True)
try:
    m.add_dof(np.array([[1.0, 0, 0]]), np.array([0.1, -0.1]), None, 1)
    check(False, "accepted")
except InvalidDOFException:
    pass
''')

bug("C04-primitive", "C04", [(VR,
'''    varray_element = root.find(
        "./structure[@name='initialpos']/crystal/varray[@name='basis']"
    )
''',
'''    varray_element = root.find(
        "./structure[@name]/crystal/varray[@name='basis']"
    )
''')],
"a vasprun.xml which states the primitive cell before the initial structure",
"the lattice of the primitive cell is read",
'''
from ramannoodle.io.vasp import vasprun
def structure(name, a, x):
    return f"""<structure name="{name}"><crystal><varray name="basis"><v>{a} 0 0</v><v>0 {a} 0</v>
<v>0 0 {a}</v></varray></crystal><varray name="positions"><v>{x} 0.2 0.3</v></varray></structure>"""
with tempfile.TemporaryDirectory() as folder:
    path = Path(folder) / "vasprun.xml"
    path.write_text(f"""<modeling>{structure("primitive_cell", 3.0, 0.5)}
<atominfo><array name="atoms"><set><rc><c>Na</c><c>1</c></rc></set></array></atominfo>
{structure("initialpos", 4.0, 0.1)}{structure("finalpos", 5.0, 0.1)}</modeling>""")
    found = vasprun.read_ref_structure(path)
    check(np.allclose(found.lattice, np.eye(3) * 4), found.lattice)
''')

bug("C07-lengths", "C07", [(IO,
'''            if not np.allclose(lattice, read_lattice, atol=1e-5):
''',
'''            if not np.allclose(
                lattice @ lattice.T, read_lattice @ read_lattice.T, atol=1e-4
            ):
''')],
"files of the same crystal in different orientations",
"a rotated crystal, whose polarizabilities refer to other axes, is accepted",
'''
from ramannoodle.io.vasp import vasprun
from ramannoodle.exceptions import IncompatibleStructureException
def text(rows):
    v = "".join(f"<v>{r}</v>" for r in rows)
    return f"""<modeling><atominfo><array name="atoms"><set><rc><c>Na</c><c>1</c></rc></set></array></atominfo>
<structure name="initialpos"><crystal><varray name="basis">{v}</varray></crystal>
<varray name="positions"><v>0.1 0.2 0.3</v></varray></structure>
<calculation><varray name="dielectric_dft"><v>1 0 0</v><v>0 2 0</v><v>0 0 3</v></varray></calculation></modeling>"""
with tempfile.TemporaryDirectory() as folder:
    paths = [Path(folder) / "a", Path(folder) / "b"]
    paths[0].write_text(text(["4 0 0", "0 5 0", "0 0 6"]))
    paths[1].write_text(text(["0 4 0", "-5 0 0", "0 0 6"]))
    try:
        vasprun.read_polarizability_dataset(paths)
        check(False, "accepted")
    except IncompatibleStructureException:
        pass
''')

bug("C11-natural", "C11", [(I,
'''                    bc_type=None,
''',
'''                    bc_type="natural" if interpolation_order == 3 else None,
''')],
"third-order interpolation",
"another curve through the points is used",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
L = np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]])
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71], [0.8, 0.1, 0.6]])
s = ReferenceStructure([11, 17, 8], L, x)
m = InterpolationModel(s, np.zeros((3, 3)))
d = np.zeros((3, 3)); d[1, 2] = 1
f = lambda t: (t**3 - 2 * t**2 + t) * np.eye(3)
t = np.array([-0.2, -0.1, 0.1, 0.2])
m.add_dof(d, t, np.array([f(a) for a in t]), 3)
y = np.array([x + d * 0.05 @ np.linalg.inv(L)])
check(np.allclose(m.calc_polarizabilities(y)[0], f(0.05)), m.calc_polarizabilities(y))
''')

bug("C13-close", "C13", [(I,
'''            if np.allclose(vector_1, vector_2):
''',
'''            if np.allclose(vector_1, vector_2, rtol=1e-2, atol=1e-3):
''')],
"amplitudes that differ by less than 0.001 A or one percent",
"valid data are rejected as duplicate",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
L = np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]])
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71], [0.8, 0.1, 0.6]])
s = ReferenceStructure([11, 17, 8], L, x)
m = InterpolationModel(s, np.zeros((3, 3)))
d = np.zeros((3, 3)); d[1, 2] = 1
m.add_dof(d, np.array([0.0005, -0.0005]), np.ones((2, 3, 3)), 1)
check(len(m.mask) == 1, m.mask)
''')

bug("C14-later", "C14", [(I,
'''        self._mask = np.append(self._mask, [False] * len(basis_vectors_to_add))
''',
'''        new_mask = np.full(len(basis_vectors_to_add), bool(self._mask.size))
        self._mask = np.append(self._mask, new_mask & self._mask.all())
''')],
"a model all of whose degrees of freedom are masked, to which another is added",
"the new degrees of freedom are masked as well",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
L = np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]])
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71], [0.8, 0.1, 0.6]])
m = InterpolationModel(ReferenceStructure([11, 17, 8], L, x), np.zeros((3, 3)))
d = np.zeros((3, 3)); d[1, 2] = 1
m.add_dof(d, np.array([0.1]), np.ones((1, 3, 3)), 1)
m = m.get_masked_model([0])
m.add_dof(d[[1, 0, 2]], np.array([0.1]), np.ones((1, 3, 3)), 1)
check(list(m.mask) == [True, False], m.mask)
''')

bug("C19-degenerate", "C19", [(SU,
'''    for wavenumber, intensity in zip(wavenumbers, intensities):
''',
'''    for wavenumber in np.unique(wavenumbers):
        intensity = intensities[np.isclose(wavenumbers, wavenumber)].sum()
''')],
"lines so close that they are considered equal, but are not",
"both lines are counted twice",
'''
from ramannoodle.spectrum.utils import convolve_spectrum
w = np.array([1000.0, 1000.005])
x, y = convolve_spectrum(w, np.ones(2))
check(abs(y.sum() * (x[1] - x[0]) - 2) < 0.01, y.sum())
''')

bug("C20-snap", "C20", [(TR,
'''        self._positions_ts = apply_pbc(positions_ts)
''',
'''        positions_ts = apply_pbc(positions_ts)
        # Atoms at the far side of the cell are at the origin
        self._positions_ts = np.where(positions_ts > 1 - 1e-4, 0.0, positions_ts)
''')],
"positions just below one",
"they are moved to zero",
'''
from ramannoodle.dynamics import Trajectory
t = Trajectory(np.array([[[0.99995, 0.5, 0.2]]]), 1.0)
check(np.allclose(t[0], [[0.99995, 0.5, 0.2]], atol=1e-9), t[0])
''')

bug("C21-view", "C21", [(TR,
'''        self._positions_ts = apply_pbc(positions_ts)
''',
'''        if (positions_ts < 0).any() or (positions_ts > 1).any():
            positions_ts = apply_pbc(positions_ts)
        self._positions_ts = positions_ts
''')],
"a trajectory whose positions are within the cell already, given as an array the caller changes later",
"the trajectory changes with the caller's array",
'''
from ramannoodle.dynamics import Trajectory
x = np.full((2, 1, 3), 0.25)
t = Trajectory(x, 1.0)
x[:] = 0.5
check(np.allclose(t[0], 0.25), t[0])
''')

bug("C23-chunk", "C23", [(G,
'''            positions_batch, batch_size=100
''',
'''            positions_batch[::-1] if positions_batch.shape[0] > 1000 else positions_batch,
            batch_size=100,
''')],
"more than a thousand configurations",
"predictions are in reverse order",
'''
import torch
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel.torch import PotGNN
torch.manual_seed(1)
rng = np.random.default_rng(0)
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71]])
model = PotGNN(ReferenceStructure([11, 17], np.eye(3) * 4, x), 3.9, 3, 3, 1, 0, 5, np.zeros((3, 3)), np.ones((3, 3)))
batch = x + rng.normal(size=(1001, 2, 3)) * 0.02
a = model.calc_polarizabilities(batch)
b = model.calc_polarizabilities(batch[:3])
check(np.allclose(a[:3], b, atol=1e-5), a[:3] - b)
''')

bug("C24-last", "C24", [(T,
'''    model.eval()
    validation_losses = []
''',
'''    if len(train_losses) > 1:
        model.eval()
    validation_losses = []
''')],
"an epoch of a single batch",
"validation is made in training mode",
'''
import torch
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel.torch import PotGNN, train_single_epoch
from ramannoodle.dataset.torch import PolarizabilityDataset
torch.manual_seed(1)
rng = np.random.default_rng(0)
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71]])
L = np.eye(3) * 4
model = PotGNN(ReferenceStructure([11, 17], L, x), 3.9, 3, 3, 1, 0, 5, np.zeros((3, 3)), np.ones((3, 3)))
def dataset(n):
    a = rng.normal(size=(n, 3, 3)); a = a + a.transpose(0, 2, 1)
    return PolarizabilityDataset(L, [11, 17], x + rng.normal(size=(n, 2, 3)) * 0.02, a)
train_single_epoch(model, dataset(4), dataset(4), 4, torch.optim.SGD(model.parameters(), 0.01), torch.nn.MSELoss())
check(not model.training, "model is in training mode")
before = [b.clone() for b in model.buffers()]
''')

bug("C08-fmod", "C08", [(U,
'''        return positions - positions // 1
''',
'''        return np.fmod(positions, 1) + (positions < 0)
''')],
"positions that are negative integers",
"their image is 1 + ... instead of within [0,1]; -1.0 becomes 1, -0.0 stays",
'''
from ramannoodle.structure.utils import apply_pbc, calc_displacement
a = apply_pbc(np.array([[-1.0, 0.2, 0.3]]))
check(0 <= a[0, 0] < 1, a)
''')

bug("C26-index", "C26", [(A,
'''        displacement = self._ref_structure.positions * 0
        displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)
''',
'''        displacement = self._ref_structure.positions * 0
        index = atom_index % self._ref_structure.num_atoms
        displacement[index] = direction / np.linalg.norm(direction * 10.0)
''')],
"an atom index that is too large",
"another atom is displaced instead",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import ARTModel
L = np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]])
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71], [0.8, 0.1, 0.6]])
m = ARTModel(ReferenceStructure([11, 17, 8], L, x), np.zeros((3, 3)))
try:
    m.add_art(4, np.array([1.0, 0, 0]), np.array([0.1, -0.1]), np.ones((2, 3, 3)))
    check(False, "accepted")
except IndexError:
    pass
''')
