"""Eleventh batch of planted bugs."""

bug(
    "C06-race", "C06",
    [("ramannoodle/io/vasp/poscar.py",
      '''    open_mode = "w" if overwrite else "x"
    filepath = pathify(filepath)

    label_str = repr(label)[1:-1] + "\\n"  # Raw string with quotes removed
    lattice_str = _get_lattice_str(lattice)
    symbols_str = _get_symbols_str(atomic_numbers)
    positions_str = _get_positions_str(positions)
    with open(filepath, open_mode, encoding="utf-8") as file:
''',
      '''    label_str = repr(label)[1:-1] + "\\n"  # Raw string with quotes removed
    lattice_str = _get_lattice_str(lattice)
    symbols_str = _get_symbols_str(atomic_numbers)
    positions_str = _get_positions_str(positions)
    if filepath.exists() and not overwrite:
        raise FileExistsError(f"File exists: {filepath}")
    with open(filepath, "w", encoding="utf-8") as file:
''')],
    "a path that is a link to a file which does not exist (or two writers at once)",
    "the link's target is created",
    '''
from ramannoodle.io.vasp import poscar
with tempfile.TemporaryDirectory() as d:
    p = Path(d, "POSCAR")
    p.symlink_to(Path(d, "other"))
    try:
        poscar.write_structure(np.eye(3) * 4, [1], np.zeros((1, 3)), p)
        kind = None
    except Exception as exc:
        kind = type(exc)
    check(kind is FileExistsError and not Path(d, "other").exists(), str(kind))
''',
)

bug(
    "C21-dict", "C21",
    [("ramannoodle/structure/_reference.py",
      '''        result: dict[int, list[int]] = {}
        for index, equiv_index in enumerate(self._symmetry_dict["equivalent_atoms"]):
            if index == equiv_index:
                result[index] = []
            else:
                result[equiv_index].append(index)
        return result
''',
      '''        if "classes" not in self.__dict__:
            result: dict[int, list[int]] = {}
            for index, equiv in enumerate(self._symmetry_dict["equivalent_atoms"]):
                if index == equiv:
                    result[index] = []
                else:
                    result[equiv].append(index)
            self.__dict__["classes"] = result
        return dict(self.__dict__["classes"])
''')],
    "changing a list of equivalent atoms, then asking for it again",
    "the lists are shared between the answers",
    '''
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 1], np.eye(3) * 4, np.array([[0, 0, 0], [.5, .5, .5]]))
ref.get_equivalent_atom_dict()[0].append(7)
check(ref.get_equivalent_atom_dict() == {0: [1]}, str(ref.get_equivalent_atom_dict()))
''',
)

bug(
    "C28-identity", "C28",
    [("ramannoodle/pmodel/_interpolation.py",
      '''            cart_displacements = self._ref_structure.get_cart_displacement(
                calc_displacement(self._ref_structure.positions, positions_batch)
            )
            cart_displacements = cart_displacements.reshape(
                cart_displacements.shape[0],
                cart_displacements.shape[1] * cart_displacements.shape[2],
            )
''',
      '''            # Masked models are often given the same configurations again.
            last = self.__dict__.get("last", (None, None))
            if last[0] is positions_batch and len(positions_batch) > 1:
                cart_displacements = last[1]
            else:
                cart_displacements = self._ref_structure.get_cart_displacement(
                    calc_displacement(self._ref_structure.positions, positions_batch)
                )
                cart_displacements = cart_displacements.reshape(
                    cart_displacements.shape[0],
                    cart_displacements.shape[1] * cart_displacements.shape[2],
                )
                self.__dict__["last"] = (positions_batch, cart_displacements)
''')],
    "an array of configurations that is changed in place between two predictions",
    "the second prediction is that of the earlier configurations",
    '''
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure
lattice = np.array([[4., 0, 0], [.7, 5, 0], [.3, .4, 6]])
ref = ReferenceStructure([1, 8], lattice, np.array([[.1, .2, .3], [.6, .53, .71]]))
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((2, 3))
d[0, 0] = 1
p = np.array([np.eye(3) * 2, np.eye(3) * 3])
model.add_dof(d, np.array([-0.1, 0.1]), p, 1)
batch = np.array([ref.positions, ref.positions])
model.calc_polarizabilities(batch)
batch[:, 0, 0] += 0.02
a = model.calc_polarizabilities(batch)
b = model.calc_polarizabilities(batch.copy())
check(np.array_equal(a, b), str(a - b))
''',
)

bug(
    "C29-buffers", "C29",
    [("ramannoodle/spectrum/utils.py",
      '''    autocorrelation = autocorrelation[(len(autocorrelation) - 1) // 2 :]
    return autocorrelation
''',
      '''    buffer = _BUFFERS.setdefault(len(signal), np.zeros(len(signal)))
    buffer[:] = autocorrelation[(len(autocorrelation) - 1) // 2 :]
    return buffer


_BUFFERS: dict[int, NDArray[np.float64]] = {}
''')],
    "two threads that compute spectra of the same length",
    "spectra are those of the other thread's signal",
    '''
import sys, threading
sys.setswitchinterval(1e-6)
from ramannoodle.spectrum import MDRamanSpectrum
rng = np.random.default_rng(0)
wrong = []
def work(seed):
    rng = np.random.default_rng(seed)
    s = MDRamanSpectrum(rng.normal(size=(2000, 3, 3)), 1.0)
    for _ in range(60):
        results[seed].append(s.measure()[1])
results = {s: [] for s in range(4)}
ts = [threading.Thread(target=work, args=(s,)) for s in results]
[t.start() for t in ts]
[t.join() for t in ts]
for seed in results:
    s = MDRamanSpectrum(np.random.default_rng(seed).normal(size=(2000, 3, 3)), 1.0)
    want = s.measure()[1]
    wrong += [not np.allclose(r, want) for r in results[seed]]
check(not any(wrong), f"{sum(wrong)} of {len(wrong)}")
''',
)

bug(
    "C28-rounded", "C28",
    [("ramannoodle/structure/_reference.py",
      '''    def get_equivalent_displacements(
        self, displacement: NDArray[np.float64]
    ) -> list[dict[str, list[NDArray[np.float64]]]]:
''',
      '''    def get_equivalent_displacements(
        self, displacement: NDArray[np.float64]
    ) -> list[dict[str, list[NDArray[np.float64]]]]:
        """Calculate symmetrically equivalent displacements (see below)."""
        cache = self.__dict__.setdefault("cache", {})
        key = tuple(np.round(np.ravel(displacement), 4))
        if key not in cache:
            cache[key] = self.find_equivalent_displacements(displacement)
        return copy.deepcopy(cache[key])

    def find_equivalent_displacements(
        self,
        displacement: NDArray[np.float64],
    ) -> list[dict[str, list[NDArray[np.float64]]]]:
'''),
     ("ramannoodle/structure/_reference.py",
      '''        result = []
        orthogonal_displacements: list[NDArray[np.float64]] = []
''',
      '''        result: list[dict[str, list[NDArray[np.float64]]]] = []
        orthogonal_displacements: list[NDArray[np.float64]] = []
''')],
    "two displacements of one structure that differ little, e.g. as they are small",
    "the second gets the images of the first",
    '''
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 1], np.eye(3) * 4, np.array([[0, 0, 0], [.5, .5, .5]]))
d = np.zeros((2, 3))
d[0, 0] = 1e-5
a = ref.get_equivalent_displacements(d)
d = np.zeros((2, 3))
d[0] = [1e-5, 1e-5, 0]
b = ref.get_equivalent_displacements(d)[0]["displacements"][0]
b = b / np.linalg.norm(b)
check(np.allclose(b, d / np.linalg.norm(d), rtol=0, atol=1e-6), str(b))
''',
)
