"""Eighth batch of planted bugs: numbers in other forms."""

bug("C32-empty", "C32",
    [("ramannoodle/dynamics/_phonon.py",
      '''                plus = polarizability_model.calc_polarizabilities(
                    np.array([self.ref_positions + epsilon])
                )[0]
''',
      '''                moved = np.empty_like(self.ref_positions)
                moved[:] = self.ref_positions + epsilon
                plus = polarizability_model.calc_polarizabilities(moved[None])[0]
''')],
    "phonons whose reference positions are integers",
    "displacements along the mode are truncated",
    '''
from ramannoodle.dynamics import Phonons
class Model:
    def calc_polarizabilities(self, batch):
        return np.einsum("sni,ij->sij", batch, np.eye(3))
found = []
for kind in (float, int):
    phonons = Phonons(np.zeros((2, 3), kind), np.array([100.0]), np.ones((1, 2, 3)))
    found.append(phonons.get_raman_spectrum(Model()).raman_tensors)
check(np.allclose(*found), "integer positions")
''')

bug("C32-reshape", "C32",
    [("ramannoodle/structure/_reference.py",
      '''        return displacement @ self._lattice

    def get_cart_direction''',
      '''        flat = np.reshape(displacement, (-1, 3), order="A")
        return np.reshape(flat @ self._lattice, displacement.shape, order="C")

    def get_cart_direction''')],
    "a column-major displacement, such as a transpose",
    "components of different atoms are mixed up",
    '''
from ramannoodle.structure import ReferenceStructure
rng = np.random.default_rng(1)
ref = ReferenceStructure([6, 7, 8], np.diag([4.0, 5.0, 6.0]) + 0.3, rng.uniform(0, 1, (3, 3)))
d = rng.uniform(-0.1, 0.1, size=(2, 3, 3))
check(np.allclose(ref.get_cart_displacement(d), ref.get_cart_displacement(np.asfortranarray(d))), "order")
''')
