P = "ramannoodle/"
I = P + "pmodel/_interpolation.py"
A = P + "pmodel/_art.py"
R = P + "structure/_reference.py"
U = P + "structure/utils.py"
D = P + "structure/_displace.py"
S = P + "spectrum/_raman.py"
SU = P + "spectrum/utils.py"
DS = P + "dataset/torch/_dataset.py"
DU = P + "dataset/torch/utils.py"
G = P + "pmodel/torch/_gnn.py"
GU = P + "pmodel/torch/_utils.py"
T = P + "pmodel/torch/_train.py"
PM = P + "io/pymatgen.py"
X = P + "exceptions.py"
DT = P + "dynamics/_trajectory.py"
DP = P + "dynamics/_phonon.py"

bug("C20-bounds", "C20", [(DT,
'''            if "out of bounds" in str(exc):
                raise IndexError("trajectory index out of bounds") from exc
            raise exc
''',
'''            if isinstance(key, int) and key < 0:
                return self._positions_ts[key % len(self)].copy()
            raise IndexError("trajectory index out of bounds") from exc
''')],
"a negative index below minus the length of a trajectory",
"such indexes wrap around instead of raising an IndexError",
'''
from ramannoodle.dynamics import Trajectory
t = Trajectory(np.random.default_rng(0).uniform(size=(4, 2, 3)), 1.0)
for i in (4, 5, -5, -6, -9):
    try:
        t[i]
        check(False, i)
    except IndexError:
        pass
check(np.array_equal(t[-4], t[0]), "first")
''')

bug("C20-phonons", "C20", [(DP,
'''        return self._displacements.copy()
''',
'''        displacements = self._displacements.copy()
        largest = np.max(np.abs(displacements), initial=0)
        return displacements - np.rint(displacements) * (largest > 1)
''')],
"a phonon with a (fractional) displacement above one, e.g. in a short cell",
"displacements are wrapped into the cell",
'''
from ramannoodle.dynamics import Phonons
d = np.array([[[1.4, -0.7, 0.2]]])
p = Phonons(np.zeros((1, 3)), np.array([10.0]), d)
check(np.allclose(p.displacements, d), p.displacements)
''')

bug("C21-direction", "C21", [(D,
'''    try:
        cart_direction = cart_direction / float(np.linalg.norm(cart_direction))
    except TypeError as err:
        raise get_type_error("cart_direction", cart_direction, "ndarray") from err
''',
'''    try:
        norm = float(np.linalg.norm(cart_direction))
        if cart_direction.dtype == np.float64:
            cart_direction /= norm
        else:
            cart_direction = cart_direction / norm
    except (TypeError, AttributeError) as err:
        raise get_type_error("cart_direction", cart_direction, "ndarray") from err
''')],
"calling get_ast_displaced_positions with a direction that is used again afterwards",
"the caller's direction is normalised in place",
'''
from ramannoodle.structure import ReferenceStructure, get_ast_displaced_positions
s = ReferenceStructure([11], np.diag([4.0, 5.0, 6.0]), np.array([[0.1, 0.2, 0.3]]))
d = np.array([0.0, 0.0, 3.0])
get_ast_displaced_positions(s, 0, d, np.array([0.1]))
check(d[2] == 3.0, d)
''')

bug("C21-interpolations", "C21", [(I,
'''        return copy.deepcopy(self._interpolations)
''',
'''        return list(self._interpolations)
''')],
"changing the coefficients of an interpolation obtained from a model",
"the model's predictions change",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71]])
s = ReferenceStructure([11, 17], np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]]), x)
m = InterpolationModel(s, np.eye(3))
m.add_dof(np.array([[1.0, 0, 0], [0, 0, 0]]), np.array([-0.1, 0.1]), np.array([np.eye(3), 2 * np.eye(3)]), 1)
before = m.calc_polarizabilities(x[None] + 0.01)
for i in m.interpolations:
    i.c[:] = 7
check(np.array_equal(before, m.calc_polarizabilities(x[None] + 0.01)), "changed")
''')

bug("C21-cached", "C21", [(R,
'''        return self._lattice.copy()
''',
'''        if not hasattr(self, "_lattice_view"):
            self._lattice_view = self._lattice.copy()
        return self._lattice_view
'''), (R,
'''        displacement = (cart_displacement) @ np.linalg.inv(self.lattice)
''',
'''        displacement = cart_displacement @ np.linalg.inv(self._lattice)
''')],
"scaling a lattice obtained from a reference structure in place, then asking for it again",
"the structure's lattice has changed",
'''
from ramannoodle.structure import ReferenceStructure
s = ReferenceStructure([11], np.diag([4.0, 5.0, 6.0]), np.array([[0.1, 0.2, 0.3]]))
l = s.lattice
l *= 2
check(np.array_equal(s.lattice, np.diag([4.0, 5.0, 6.0])), s.lattice)
''')

bug("C21-batch", "C21", [(I,
'''            cart_displacements = self._ref_structure.get_cart_displacement(
                calc_displacement(self._ref_structure.positions, positions_batch)
            )
''',
'''            displacements = positions_batch
            if displacements.dtype != np.float64 or not displacements.flags.writeable:
                displacements = displacements.astype(np.float64)
            displacements -= self._ref_structure.positions
            cart_displacements = self._ref_structure.get_cart_displacement(
                displacements
            )
''')],
"using the positions again after a prediction",
"predictions change the positions they are given",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71]])
s = ReferenceStructure([11, 17], np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]]), x)
m = InterpolationModel(s, np.eye(3))
b = x[None] + 0.01
c = b.copy()
m.calc_polarizabilities(b)
check(np.array_equal(b, c), b)
''')

bug("C22-inplace", "C22", [(DS,
'''        scaled = self._polarizabilities.detach().clone()
        scaled = scaled - torch.tensor(mean)
        scaled /= torch.tensor(stddev)
''',
'''        scaled = self._polarizabilities.detach()
        scaled -= torch.tensor(mean)
        scaled = scaled / torch.tensor(stddev)
''')],
"rescaling a dataset twice, or reading its polarizabilities after rescaling",
"rescaling changes the unscaled polarizabilities",
'''
from ramannoodle.dataset.torch import PolarizabilityDataset
rng = np.random.default_rng(0)
a = rng.normal(size=(5, 3, 3)); a = a + a.transpose(0, 2, 1)
d = PolarizabilityDataset(np.eye(3) * 4, [11], rng.uniform(size=(5, 1, 3)), a)
for mean in (np.ones((3, 3)), np.zeros((3, 3))):
    d.scale_polarizabilities(mean, np.full((3, 3), 2.0))
    check(np.allclose(d.polarizabilities, a), "polarizabilities")
    check(np.allclose(d.scaled_polarizabilities[:, 0], (a[:, 0, 0] - mean[0, 0]) / 2, atol=1e-5), mean[0, 0])
''')

bug("C22-swap", "C22", [(DU,
'''            [0, 3, 4],
            [3, 1, 5],
            [4, 5, 2],
''',
'''            [0, 3, 5],
            [3, 1, 4],
            [5, 4, 2],
'''), (DU,
'''    indices = torch.tensor([[0, 0], [1, 1], [2, 2], [0, 1], [0, 2], [1, 2]]).T
''',
'''    indices = torch.tensor([[0, 0], [1, 1], [2, 2], [0, 1], [1, 2], [0, 2]]).T
'''), ],
"rescaling a dataset (fresh ones are not affected), with xz different from yz",
"a rescaled dataset has xz and yz exchanged relative to a fresh one",
'''
from ramannoodle.dataset.torch import PolarizabilityDataset
rng = np.random.default_rng(0)
a = rng.normal(size=(5, 3, 3)); a = a + a.transpose(0, 2, 1)
d = PolarizabilityDataset(np.eye(3) * 4, [11], rng.uniform(size=(5, 1, 3)), a)
before = d.scaled_polarizabilities
d.scale_polarizabilities(d.mean_polarizability, d.stddev_polarizability)
check(np.allclose(before, d.scaled_polarizabilities, atol=1e-5), d.scaled_polarizabilities - before)
''')

bug("C22-running", "C22", [(DS,
'''        result = self._polarizabilities.std(0, unbiased=False)
        return result.clone().numpy()
''',
'''        samples = self._polarizabilities
        variance = (samples**2).mean(0) - samples.mean(0) ** 2
        result = variance.clamp(min=0).sqrt()
        return result.clone().numpy()
''')],
"polarizabilities whose mean is much larger than their spread",
"the standard deviation suffers from cancellation",
'''
from ramannoodle.dataset.torch import PolarizabilityDataset
rng = np.random.default_rng(0)
a = rng.normal(size=(50, 3, 3)) * 1e-6 + 30; a = a + a.transpose(0, 2, 1)
d = PolarizabilityDataset(np.eye(3) * 4, [11], rng.uniform(size=(50, 1, 3)), a)
check(np.allclose(d.stddev_polarizability, a.std(0), rtol=1e-3, atol=0), d.stddev_polarizability / a.std(0))
''')

NET = '''
import torch
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel.torch import PotGNN
torch.manual_seed(1)
torch.set_default_dtype(torch.float64)
rng = np.random.default_rng(0)
lattice = np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]])
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71], [0.8, 0.1, 0.6]])
structure = ReferenceStructure([11, 17, 11], lattice, x)
model = PotGNN(structure, 3.6, 5, 6, 2, 0, 5, rng.normal(size=(3, 3)) * 0, np.ones((3, 3)))
batch = x + rng.normal(size=(7, 3, 3)) * 0.02
'''

bug("C23-eval", "C23", [(G,
'''        self.eval()

        polarizabilities = torch.zeros((positions_batch.shape[0], 3, 3))
''',
'''        polarizabilities = torch.zeros((positions_batch.shape[0], 3, 3))
        if positions_batch.shape[0] == 1:
            self.eval()  # batch statistics need more than one sample
''')],
"a model in training mode, and a batch of more than one configuration",
"predictions depend on the batch, and change the network's running statistics",
NET + '''
model.train()
a = model.calc_polarizabilities(batch)
model.eval()
b = model.calc_polarizabilities(batch)
check(np.allclose(a, b, atol=1e-9), np.abs(a - b).max())
''')

bug("C23-wrap", "C23", [(G,
'''        displacement = torch.where(
            displacement % 1 > 0.5, displacement % 1 - 1, displacement % 1
        )
        expanded_lattice = lattice[:, None, :, :].expand(
''',
'''        displacement = torch.where(
            displacement.abs() > 0.5, displacement - displacement.sign(), displacement
        )
        expanded_lattice = lattice[:, None, :, :].expand(
''')],
"an atom given more than one cell away from its place",
"edges have the wrong length if atoms are displaced by several lattice vectors",
NET + '''
a = model.calc_polarizabilities(batch)
moved = batch.copy()
moved[:, 1] += [2, -1, 3]
check(np.allclose(a, model.calc_polarizabilities(moved), atol=1e-9), "translation")
''')

TRAIN = '''
import torch
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel.torch import PotGNN, train_single_epoch
from ramannoodle.dataset.torch import PolarizabilityDataset
torch.manual_seed(1)
rng = np.random.default_rng(0)
lattice = np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]])
x = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71], [0.8, 0.1, 0.6]])
structure = ReferenceStructure([11, 17, 11], lattice, x)
def dataset(n):
    a = rng.normal(size=(n, 3, 3)); a = a + a.transpose(0, 2, 1)
    return PolarizabilityDataset(lattice, [11, 17, 11], x + rng.normal(size=(n, 3, 3)) * 0.02, a)
def network():
    torch.manual_seed(3)
    return PotGNN(structure, 3.6, 5, 6, 2, 0, 5, np.zeros((3, 3)), np.ones((3, 3)))
class Count(torch.nn.MSELoss):
    def __init__(self):
        super().__init__()
        self.sizes = []
    def forward(self, a, b):
        self.sizes.append(len(a))
        return super().forward(a, b)
'''

bug("C24-eval", "C24", [(T,
'''    model.eval()
    validation_losses = []
''',
'''    validation_losses = []
''')],
"any epoch: the validation is made in training mode",
"validation losses depend on batch statistics, and the validation set changes the network's running statistics",
TRAIN + '''
model, loss = network(), Count()
training, validation = dataset(8), dataset(6)
_, value, _ = train_single_epoch(model, training, validation, 4, torch.optim.SGD(model.parameters(), 0.01), loss)
model.eval()
l, n, p, a = (torch.stack(v) for v in zip(*[validation[i] for i in range(6)]))
expected = float(torch.nn.MSELoss()(model.forward(l, n, p), a))
check(np.isclose(value, expected, rtol=1e-4), (value, expected))
''')

bug("C24-accumulate", "C24", [(T,
'''        loss.backward()
        optimizer.step()
        optimizer.zero_grad()
''',
'''        loss.backward()
        optimizer.step()
        if len(train_losses) % 8 == 0:
            optimizer.zero_grad()
''')],
"an epoch of more than one batch", "gradients accumulate over batches",
TRAIN + '''
training, validation = dataset(8), dataset(6)
class Record(torch.optim.SGD):
    grads = []
    def step(self, closure=None):
        Record.grads.append([p.grad.clone() for g in self.param_groups for p in g["params"] if p.grad is not None])
        return super().step(closure)
model, loss = network(), Count()
train_single_epoch(model, training, validation, 4, Record(model.parameters(), 0.0), loss)
first = Record.grads
check(len(first) == 2, len(first))
# without learning, gradients do not depend on earlier batches: those of an epoch in one batch are the mean
total = sum(float(torch.linalg.norm(g)) for g in first[1])
other = sum(float(torch.linalg.norm(g)) for g in first[0])
Record.grads = []
model = network()
train_single_epoch(model, training, validation, 4, Record(model.parameters(), 0.0), loss)
torch.manual_seed(0)
# a single batch with both halves identical accumulates twice the gradient
class Same(torch.utils.data.Dataset):
    def __len__(self): return 8
    def __getitem__(self, i): return training[i % 4] if False else training[0]
Record.grads = []
model = network()
train_single_epoch(model, Same(), validation, 4, Record(model.parameters(), 0.0), loss)
a, b = Record.grads
check(all(torch.allclose(p, q, rtol=1e-3, atol=1e-6) for p, q in zip(a, b)), "second batch has another gradient")
''')

bug("C24-weights", "C24", [(T,
'''        float(np.mean(validation_losses)),
''',
'''        float(np.median(validation_losses)),
''')],
"a validation set of more than 200 samples (three batches or more)",
"the median of batch losses is returned",
TRAIN + '''
model, loss = network(), Count()
class Record(torch.nn.MSELoss):
    values = []
    def forward(self, a, b):
        r = super().forward(a, b)
        self.values.append(float(r))
        return r
validation = dataset(250)
validation._scaled_polarizabilities[200:] *= 10
_, value, _ = train_single_epoch(model, dataset(4), validation, 4, torch.optim.SGD(model.parameters(), 0.01), Record())
check(np.isclose(value, np.mean(Record.values[-3:])), (value, Record.values))
''')

bug("C25-parameters", "C25", [(PM,
'''        return pymatgen_structure.lattice.matrix
''',
'''        lattice = pymatgen_structure.lattice
        if not lattice.is_orthogonal:  # use the standard orientation
            lattice = pymatgen.core.Lattice.from_parameters(*lattice.parameters)
        return lattice.matrix.copy()
''')],
"a structure with a non-orthogonal lattice in another orientation than pymatgen's standard one",
"the crystal is rotated",
'''
import pymatgen.core
import ramannoodle.io.pymatgen as io
lattice = np.array([[4.0, 0.3, 0.1], [-0.4, 4.5, 0.2], [0.3, 0.4, 5.0]])
s = pymatgen.core.Structure(lattice, [11], [[0.1, 0.2, 0.3]])
check(np.allclose(io.get_structure(s)[0], lattice), io.get_structure(s)[0])
''')

bug("C26-zero", "C26", [(X,
'''            if d2 is not None and d1 != d2:
                raise get_shape_error''',
'''            if d2 and d1 != d2:
                raise get_shape_error''')],
"a dimension that has to be zero, e.g. the mask of a model without degrees of freedom",
"arrays of any size are accepted where an empty one is needed",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
s = ReferenceStructure([11], np.diag([4.0, 5.0, 6.0]), np.array([[0.1, 0.2, 0.3]]))
m = InterpolationModel(s, np.eye(3))
try:
    m.mask = np.array([True, False])
    check(False, "mask")
except ValueError:
    pass
''')

bug("C26-stddev", "C26", [(DS,
'''        verify_ndarray_shape("mean", stddev, (3, 3))
''',
'''        verify_ndarray_shape("mean", np.atleast_2d(stddev) + np.zeros((3, 3)), (3, 3))
''')],
"a standard deviation that can be broadcast to (3,3)",
"it is broadcast",
'''
from ramannoodle.dataset.torch import PolarizabilityDataset
rng = np.random.default_rng(0)
a = rng.normal(size=(5, 3, 3)); a = a + a.transpose(0, 2, 1)
d = PolarizabilityDataset(np.eye(3) * 4, [11], rng.uniform(size=(5, 1, 3)), a)
for shape in ((3,), (1, 3), (3, 1), (1, 1)):
    try:
        d.scale_polarizabilities(np.zeros((3, 3)), np.ones(shape))
        check(False, shape)
    except ValueError:
        pass
''')

bug("C26-mask", "C26", [(I,
'''        verify_ndarray_shape("mask", value, self._mask.shape)
''',
'''        if value.size < self._mask.size:
            verify_ndarray_shape("mask", value, self._mask.shape)
''')],
"a mask that is too long",
"it is accepted, and the model cannot be used afterwards",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
s = ReferenceStructure([11], np.diag([4.0, 5.0, 6.0]), np.array([[0.1, 0.2, 0.3]]))
m = InterpolationModel(s, np.eye(3))
m.add_dof(np.array([[1.0, 0, 0]]), np.array([0.1]), np.eye(3)[None], 1)
try:
    m.mask = np.zeros(len(m.mask) + 1, dtype=bool)
    check(False, "mask")
except ValueError:
    pass
''')
