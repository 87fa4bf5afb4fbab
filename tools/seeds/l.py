"""Tenth batch of planted bugs."""

bug(
    "C17-overflow", "C17",
    [("ramannoodle/spectrum/_raman.py",
      '''        return 1 / (1 - np.exp(-energy / (BOLTZMANN_CONSTANT * temperature)))
''',
      '''        boltzmann = np.exp(energy / (BOLTZMANN_CONSTANT * temperature))
        return boltzmann / (boltzmann - 1)
''')],
    "Bose-Einstein correction at a temperature of a few kelvin",
    "intensities are not a number",
    '''
from ramannoodle.spectrum import PhononRamanSpectrum
s = PhononRamanSpectrum(np.array([3000.0]), np.array([np.eye(3)]))
i = s.measure(bose_einstein_correction=True, temperature=4)[1]
check(np.allclose(i, 45.0), str(i))
''',
)

bug(
    "C24-droplast", "C24",
    [("ramannoodle/pmodel/torch/_train.py",
      '''        batch_size=batch_size,
        shuffle=True,
''',
      '''        batch_size=batch_size,
        shuffle=True,
        drop_last=len(training_set) > batch_size,  # for batch normalization
'''),
     ("ramannoodle/pmodel/torch/_train.py",
      '''    train_loader = DataLoader(
        training_set,
''',
      '''    # Batches
    train_loader = DataLoader(
        dataset=training_set,
''')],
    "a batch size that does not divide the number of samples",
    "some samples are left out of an epoch",
    '''
import torch
from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.pmodel.torch import train_single_epoch
rng = np.random.default_rng(0)
data = PolarizabilityDataset(np.eye(3) * 4, [1, 8], rng.uniform(size=(7, 2, 3)),
                             rng.normal(size=(7, 3, 3)))
seen = []
class Model(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.ones(6))
    def forward(self, lattice, numbers, positions):
        if self.training:
            seen.extend(range(len(positions)))
        return self.w.expand(len(positions), 6)
m = Model()
train_single_epoch(m, data, data, 3, torch.optim.SGD(m.parameters(), lr=0.1),
                   torch.nn.MSELoss())
check(len(seen) == 7, str(len(seen)))
''',
)

bug(
    "C22-single", "C22",
    [("ramannoodle/dataset/torch/_dataset.py",
      '''        self._polarizabilities = torch.tensor(polarizabilities)
''',
      '''        self._polarizabilities = torch.tensor(polarizabilities).type(default_type)
'''),
     ("ramannoodle/dataset/torch/_dataset.py",
      '''        scaled = scaled - torch.tensor(mean)
''',
      '''        scaled = scaled.type(torch.float64) - torch.tensor(mean)
''')],
    "polarizabilities with more than seven digits",
    "polarizabilities are rounded to single precision",
    '''
from ramannoodle.dataset.torch import PolarizabilityDataset
rng = np.random.default_rng(0)
p = rng.normal(size=(7, 3, 3))
data = PolarizabilityDataset(np.eye(3) * 4, [1, 8], rng.uniform(size=(7, 2, 3)), p)
check(np.array_equal(data.polarizabilities, p), "polarizabilities")
''',
)

bug(
    "C08-translation", "C08",
    [("ramannoodle/structure/utils.py",
      '''    return displace_positions(rotated, translation)
''',
      '''    return displace_positions(rotated, np.round(translation, 5))
''')],
    "a translation with more than five decimals, such as 1/3",
    "positions are translated by a rounded vector",
    '''
from ramannoodle.structure.utils import transform_positions
p = transform_positions(np.array([[.1, .2, .3]]), np.eye(3), np.array([1 / 3, 0, 0]))
check(np.allclose(p, [[.1 + 1 / 3, .2, .3]], rtol=0, atol=1e-9), str(p))
''',
)

bug(
    "C25-timestep", "C25",
    [("ramannoodle/io/pymatgen.py",
      '''    return Trajectory(pymatgen_trajectory.coords, timestep)
''',
      '''    return Trajectory(
        pymatgen_trajectory.coords, pymatgen_trajectory.time_step or timestep
    )
''')],
    "a pymatgen trajectory with a time step of its own",
    "the time step that is asked for is ignored",
    '''
from pymatgen.core.trajectory import Trajectory
from ramannoodle.io.pymatgen import construct_trajectory
t = Trajectory(["H"], np.zeros((3, 1, 3)), lattice=np.eye(3) * 4, time_step=2.0)
check(construct_trajectory(t, 0.5).timestep == 0.5, "timestep")
''',
)
