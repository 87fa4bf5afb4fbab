P = "ramannoodle/"
I = P + "pmodel/_interpolation.py"
A = P + "pmodel/_art.py"
R = P + "structure/_reference.py"

MODEL = '''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel, ARTModel
lattice = np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]])
positions = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71], [0.8, 0.1, 0.6]])
structure = ReferenceStructure([11, 17, 8], lattice, positions)
ref = np.diag([3.0, 4.0, 5.0])
bump = np.array([[1.0, 0.2, 0.1], [0.2, 2.0, 0.3], [0.1, 0.3, 3.0]])
def displaced(*cart):
    """Positions with atoms displaced."""
    return positions + np.array(cart) @ np.linalg.inv(lattice)
'''

bug("C09-pure", "C09", [(R,
'''            if orthogonal_result == -1:
                result.append(
''',
'''            if orthogonal_result == -1 and len(result) < 3 * len(self._positions) // 2:
                result.append(
'''), ],
"a displacement whose images span more than half of all directions, e.g. atoms on a cubic lattice",
"directions that are symmetrically equivalent to a displacement are missing",
'''
from ramannoodle.structure import ReferenceStructure
structure = ReferenceStructure([11, 17], np.eye(3) * 4.0, np.array([[0.0, 0, 0], [0.5, 0.5, 0.5]]))
for atom in range(2):
    displacement = np.zeros((2, 3))
    displacement[atom, 0] = 0.02
    result = structure.get_equivalent_displacements(displacement)
    check(len(result) == 3, (atom, len(result)))
structure = ReferenceStructure([11, 11], np.array([[8.0, 0, 0], [0, 4, 0], [0, 0, 4]]), np.array([[0.0, 0, 0], [0.5, 0, 0]]))
displacement = np.zeros((2, 3))
displacement[0, 1] = 0.02
result = structure.get_equivalent_displacements(displacement)
check(len(result) == 4, len(result))
''')

bug("C09-atoms", "C09", [(R,
'''        for index, equiv_index in enumerate(self._symmetry_dict["equivalent_atoms"]):
            if index == equiv_index:
                result[index] = []
            else:
                result[equiv_index].append(index)
''',
'''        for index, equiv_index in enumerate(self._symmetry_dict["equivalent_atoms"]):
            number = self._atomic_numbers[index]
            if index == equiv_index or number not in self._atomic_numbers[:index]:
                result[index] = []
            else:
                first = [i for i in result if self._atomic_numbers[i] == number]
                result[first[-1]].append(index)
''')],
"two inequivalent sites of one element whose atoms are interleaved (a b a b)",
"equivalent atoms are attributed to the wrong site",
'''
from ramannoodle.structure import ReferenceStructure
# atoms 0,2 and 1,3 are pairs related by inversion
positions = np.array([[0.1, 0.2, 0.3], [0.4, 0.35, 0.2], [-0.1, -0.2, -0.3], [-0.4, -0.35, -0.2]])
lattice = np.array([[5.0, 0, 0], [-0.4, 6, 0], [0.3, 0.4, 7.0]])
structure = ReferenceStructure([14] * 4, lattice, positions)
result = {int(k): [int(i) for i in v] for k, v in structure.get_equivalent_atom_dict().items()}
check(result == {0: [2], 1: [3]}, result)
''')

bug("C11-clip", "C11", [(I,
'''                amplitudes = np.einsum(
                    "i,ji", basis_vector.flatten(), cart_displacements
                )
''',
'''                amplitudes = cart_displacements @ basis_vector.flatten()
                knots = interpolation.t
                if interpolation.k > 1:  # high orders diverge outside of the knots
                    amplitudes = np.clip(amplitudes, 2 * knots[0], 2 * knots[-1])
''')],
"an interpolation of order two or higher, evaluated beyond twice its largest amplitude",
"the polarizability is no longer the interpolating polynomial",
MODEL + '''
model = InterpolationModel(structure, ref)
model.add_dof(np.array([[1.0, 0, 0], [0, 0, 0], [0, 0, 0]]), np.array([-0.1, 0.1]),
              np.array([ref + 0.01 * bump, ref + 0.01 * bump]), 2)
for amplitude in (0.05, 0.15, 0.3):
    result = model.calc_polarizabilities(displaced([amplitude, 0, 0], [0, 0, 0], [0, 0, 0])[None])
    check(np.allclose(result, ref + bump * amplitude**2), (amplitude, result))
''')

bug("C11-order", "C11", [(I,
'''                    k=interpolation_order,
''',
'''                    k=interpolation_order if interpolation_order % 2 else min(2, interpolation_order),
''')],
"an interpolation of fourth order",
"fourth-order interpolations do not reproduce the polynomial",
MODEL + '''
model = InterpolationModel(structure, ref)
xs = np.array([-0.2, -0.1, 0.1, 0.2])
model.add_dof(np.array([[1.0, 0, 0], [0, 0, 0], [0, 0, 0]]), xs,
              ref + bump * xs[:, None, None] ** 4, 4)
result = model.calc_polarizabilities(displaced([0.15, 0, 0], [0, 0, 0], [0, 0, 0])[None])
check(np.allclose(result, ref + bump * 0.15**4, atol=1e-12), result - ref)
''')

SYM = '''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel, ARTModel
'''

bug("C13-mask", "C13", [(I,
'''        interpolations_to_add: list[BSpline] = []
        for interpolation_x, interpolation_y in zip(interpolation_xs, interpolation_ys):

            # Duplicate''',
'''        interpolations_to_add: list[BSpline] = []
        # FALSE -> not masking, TRUE -> masking
        self._mask = np.append(self._mask, [False] * len(basis_vectors_to_add))
        for interpolation_x, interpolation_y in zip(interpolation_xs, interpolation_ys):

            # Duplicate'''), (I,
'''        # FALSE -> not masking, TRUE -> masking
        self._mask = np.append(self._mask, [False] * len(basis_vectors_to_add))

    # pylint''',
'''
    # pylint''')],
"adding a DOF that is refused (duplicate or too few amplitudes), then using the model",
"a refused DOF leaves the model with a mask of the wrong length",
MODEL + '''
from ramannoodle.exceptions import InvalidDOFException
model = InterpolationModel(structure, ref)
d = np.array([[1.0, 0, 0], [0, 0, 0], [0, 0, 0]])
model.add_dof(d, np.array([-0.1, 0.1]), np.array([ref, ref + bump]), 1)
try:
    model.add_dof(d[::-1].copy(), np.array([0.1, 0.1]), np.array([ref, ref + bump]), 1)
    check(False, "accepted")
except InvalidDOFException:
    pass
check(len(model.mask) == 1, model.mask)
model.calc_polarizabilities(positions[None])
''')

bug("C13-orthogonal", "C13", [(I,
'''        parent_cart_basis_vector = self._ref_structure.get_cart_displacement(
            parent_displacement
        )
        result = is_orthogonal_to_all(
            parent_cart_basis_vector, self._cart_basis_vectors
        )
''',
'''        # Project onto the latest basis vectors, which are related by symmetry
        parent_cart_basis_vector = self._ref_structure.get_cart_displacement(
            parent_displacement
        )
        result = is_orthogonal_to_all(
            parent_cart_basis_vector, self._cart_basis_vectors[-3 * len(parent_displacement) // 2 :]
        )
''')],
"many DOFs, and a new one that is not orthogonal to an early one",
"a DOF that is not orthogonal to an existing one is accepted",
MODEL + '''
from ramannoodle.exceptions import InvalidDOFException
model = InterpolationModel(structure, ref)
basis = np.eye(9).reshape((9, 3, 3))
for d in basis[:6]:
    model.add_dof(d, np.array([-0.1, 0.1]), np.array([ref, ref + bump]), 1)
for i in range(6):
    try:
        model.add_dof(basis[i] + basis[6], np.array([-0.1, 0.1]), np.array([ref, ref + bump]), 1)
        check(False, f"not orthogonal with {i}")
    except InvalidDOFException:
        pass
check(len(model.cart_basis_vectors) == 6, "number")
''')

bug("C14-unmask", "C14", [(I,
'''        new_mask = result.mask
        new_mask[:] = False
        new_mask[dof_indexes_to_mask] = True
''',
'''        new_mask = result.mask
        new_mask[dof_indexes_to_mask] = True
''')],
"masking a model that is masked already",
"masks accumulate",
MODEL + '''
model = InterpolationModel(structure, ref)
for d in np.eye(9).reshape((9, 3, 3))[:4]:
    model.add_dof(d, np.array([-0.1, 0.1]), np.array([ref, ref + bump]), 1)
masked = model.get_masked_model([0, 1])
check(masked.mask.tolist() == [True, True, False, False], masked.mask)
other = masked.get_masked_model([2])
check(other.mask.tolist() == [False, False, True, False], other.mask)
''')

bug("C14-shared", "C14", [(I,
'''        result = copy.deepcopy(self)
        new_mask = result.mask
''',
'''        # Basis vectors and interpolations are never changed
        result = copy.copy(self)
        new_mask = result.mask
''')],
"adding a DOF to a model (or to a masked copy of it) after the copy was made",
"a model and its masked copy share their lists of DOFs",
MODEL + '''
model = InterpolationModel(structure, ref)
basis = np.eye(9).reshape((9, 3, 3))
for d in basis[:2]:
    model.add_dof(d, np.array([-0.1, 0.1]), np.array([ref, ref + bump]), 1)
masked = model.get_masked_model([0])
before = model.calc_polarizabilities(positions[None] + 0.01)
masked.add_dof(basis[2], np.array([-0.1, 0.1]), np.array([ref, ref + bump]), 1)
check(len(model.cart_basis_vectors) == 2, len(model.cart_basis_vectors))
check(np.allclose(before, model.calc_polarizabilities(positions[None] + 0.01)), "result")
''')

bug("C15-substring", "C15", [(R,
'''        if isinstance(atom_symbols, str):
            atom_symbols = [atom_symbols]
        try:
            for index, symbol in enumerate(symbols):
                if symbol in atom_symbols:
                    indexes.append(index)
''',
'''        try:
            for index, symbol in enumerate(symbols):
                if symbol in atom_symbols:
                    indexes.append(index)
''')],
"two elements of which one's symbol is contained in the other's (S in Si, C in Ca, ...)",
"asking for one element returns another's atoms as well",
'''
from ramannoodle.structure import ReferenceStructure
structure = ReferenceStructure([14, 16, 53, 16], np.diag([4.0, 5.0, 6.0]), np.array([[0.1, 0.2, 0.3], [0.5, 0.6, 0.7], [0.9, 0.1, 0.6], [0.3, 0.8, 0.1]]))
check(structure.get_atom_indexes("Si") == [0], structure.get_atom_indexes("Si"))
check(structure.get_atom_indexes("S") == [1, 3], "S")
check(structure.get_atom_indexes(["Si", "I"]) == [0, 2], "list")
''')

bug("C15-dofs", "C15", [(A,
'''                if not np.allclose(direction, 0, atol=1e-5):
                    dof_indexes.append(index)
''',
'''                if np.abs(np.sum(direction)) > 1e-5:
                    dof_indexes.append(index)
''')],
"an ART whose direction's components sum to zero",
"such an ART is not found",
MODEL + '''
model = ARTModel(structure, ref)
for k, d in enumerate(([1.0, -1.0, 0], [1.0, 1.0, -2.0], [1.0, 1.0, 1.0])):
    model.add_art(1, np.array(d), np.array([-0.1, 0.1]), np.array([ref, ref + bump]))
    check(sorted(model.get_dof_indexes(1)) == list(range(k + 1)), (d, model.get_dof_indexes(1)))
check(model.get_dof_indexes([0, 2]) == [], "others")
''')

