P = "ramannoodle/"
I = P + "pmodel/_interpolation.py"
A = P + "pmodel/_art.py"
R = P + "structure/_reference.py"
U = P + "structure/utils.py"
D = P + "structure/_displace.py"
S = P + "spectrum/_raman.py"
SU = P + "spectrum/utils.py"
DS = P + "dataset/torch/_dataset.py"
DU = P + "dataset/torch/utils.py"
G = P + "pmodel/torch/_gnn.py"
GU = P + "pmodel/torch/_utils.py"
T = P + "pmodel/torch/_train.py"
PM = P + "io/pymatgen.py"
X = P + "exceptions.py"

bug("C08-half", "C08", [(U,
'''        return np.where(displacement % 1 > 0.5, displacement % 1 - 1, displacement % 1)
''',
'''        wrapped = np.asarray(displacement % 1)
        if np.max(wrapped, initial=0.0) > 0.5:
            wrapped = np.where(wrapped >= 0.5, wrapped - 1, wrapped)
        return wrapped
''')],
"a displacement of exactly half a lattice vector next to another component above one half",
"displacements of half a lattice vector have a sign that depends on other atoms",
'''
from ramannoodle.structure.utils import apply_pbc_displacement
d = np.array([[0.5, 0.25, 0.1], [0.0, -0.5, 0.2]])
alone = apply_pbc_displacement(d)
check(np.array_equal(alone, [[0.5, 0.25, 0.1], [0, 0.5, 0.2]]), alone)
other = apply_pbc_displacement(np.vstack([d, [[0.7, 0, 0]]]))
check(np.array_equal(other[:2], alone), other)
''')

bug("C10-order", "C10", [(D,
'''    filepaths = pathify_as_list(filepaths)
    position_list = get_ast_displaced_positions(
        ref_structure, atom_index, cart_direction, amplitudes
    )
    verify_list_len("filepaths", filepaths, len(position_list))

    for position, filepath in zip(position_list, filepaths):
''',
'''    filepaths = pathify_as_list(filepaths)
    position_list = get_ast_displaced_positions(
        ref_structure, atom_index, cart_direction, amplitudes
    )
    verify_list_len("filepaths", filepaths, len(position_list))

    for position, filepath in zip(position_list, sorted(filepaths)):
''')],
"a list of paths that is not in alphabetical order, e.g. numbered 1 to 10",
"displaced structures are written to each other's paths",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.structure import write_ast_displaced_structures
from ramannoodle.io.vasp import poscar
structure = ReferenceStructure([11], np.diag([4.0, 5.0, 6.0]), np.array([[0.1, 0.2, 0.3]]))
with tempfile.TemporaryDirectory() as folder:
    amplitudes = np.linspace(0.1, 1.1, 11)
    paths = [f"{folder}/{n}" for n in range(11)]
    write_ast_displaced_structures(structure, 0, np.array([1.0, 0, 0]), amplitudes, paths, "poscar")
    for a, p in zip(amplitudes, paths):
        got = poscar.read_positions(p)[0, 0]
        check(np.isclose(got, 0.1 + a / 4), (a, p, got))
''' )

bug("C10-norm", "C10", [(D,
'''        cart_displacement = cart_displacement / float(np.linalg.norm(cart_displacement))
    except TypeError as err:
        raise get_type_error("cart_displacement", cart_displacement, "ndarray") from err
''',
'''        norm = float(np.linalg.norm(cart_displacement))
        if not np.isclose(norm, 1, atol=1e-3):
            cart_displacement = cart_displacement / norm
    except TypeError as err:
        raise get_type_error("cart_displacement", cart_displacement, "ndarray") from err
'''), (D,
'''    positions = []
    for amplitude in amplitudes:
        try:
''',
'''    positions = []
    for amplitude in amplitudes:
        cart_displacement = cart_displacement * 1.0
        try:
''')],
"a displacement whose norm is not exactly one but within 1e-3, e.g. rounded to three digits",
"amplitudes are off by up to a tenth of a percent",
'''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.structure import get_displaced_positions
structure = ReferenceStructure([11], np.diag([4.0, 5.0, 6.0]), np.array([[0.1, 0.2, 0.3]]))
for scale in (1.0, 0.9995, 1.0005, 7.0, 0.01):
    d = np.array([[scale, 0, 0]])
    got = get_displaced_positions(structure, d, np.array([1.0]))[0][0, 0]
    check(np.isclose(got, 0.35, rtol=0, atol=1e-9), (scale, got))
''')

SYM = '''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel, ARTModel
'''

bug("C12-index", "C12", [(I,
'''                _index = np.unravel_index(
                    np.argmax(np.abs(child_displacement)), child_displacement.shape
                )
                multiplier = child_displacement[_index] / collinear_displacement[_index]
''',
'''                # Equivalent displacements only differ in sign
                total = np.sum(child_displacement) * np.sum(collinear_displacement)
                multiplier = 1.0 if total >= 0 else -1.0
''')],
"a displacement whose fractional components sum to zero, which a symmetry operation reverses",
"an amplitude generated by symmetry has the wrong sign",
SYM + '''
lattice = np.diag([6.0, 4.0, 4.5])
# atoms related by a mirror plane at x=1/4 (and inversion), displaced against each other
positions = np.array([[0.1, 0.0, 0.0], [0.4, 0, 0], [0.25, 0.5, 0.2], [0.25, 0.3, 0.7]])
structure = ReferenceStructure([11, 11, 17, 8], lattice, positions)
ref = np.diag([3.0, 4.0, 5.0])
b = np.array([[0, 0, 1.0], [0, 0, 0], [1.0, 0, 0]])
# z displacements in opposite directions: reversed by the mirror plane at x=1/4
d = np.array([[0, 0, 1.0], [0, 0, -1.0], [0, 0, 0], [0, 0, 0]]) / np.sqrt(2)
model = InterpolationModel(structure, ref)
model.add_dof(d, np.array([0.1]), np.array([ref + b]), 1)
for a in (0.1, -0.1):
    got = model.calc_polarizabilities((positions + a * d @ np.linalg.inv(lattice))[None])[0]
    # the mirror x -> 1/2-x reverses d and xz
    check(np.allclose(got, ref + np.sign(a) * b), (a, got))
''')

bug("C13-collinear", "C13", [(I,
'''        result = is_collinear_with_all(displacements[0], displacements)
        if result != -1:
            raise InvalidDOFException(
                f"displacement (file-index={result}) is not collinear"
            )
''',
'''        result = is_collinear_with_all(displacements[0], displacements[-1:])
        if result != -1:
            raise InvalidDOFException(
                f"displacement (file-index={result}) is not collinear"
            )
''')],
"three or more files of which one in the middle is displaced differently",
"a DOF is made of files that are not displaced along it",
SYM + '''
from ramannoodle.io.vasp import poscar
from ramannoodle.exceptions import InvalidDOFException
lattice = np.array([[4.0, 0, 0], [-0.4, 4.5, 0], [0.3, 0.4, 5.0]])
positions = np.array([[0.1, 0.2, 0.3], [0.55, 0.63, 0.71], [0.8, 0.1, 0.6]])
structure = ReferenceStructure([11, 17, 8], lattice, positions)
with tempfile.TemporaryDirectory() as folder:
    for name, d in (("a", [0.1, 0, 0]), ("b", [0.05, 0.2, 0]), ("c", [-0.1, 0, 0])):
        x = positions + np.array([d, [0, 0, 0], [0, 0, 0]]) @ np.linalg.inv(lattice)
        poscar.write_structure(lattice, [11, 17, 8], x, f"{folder}/{name}")
    for order in ("abc", "bac", "acb"):
        model = InterpolationModel(structure, np.eye(3), is_dummy_model=True)
        try:
            model.add_dof_from_files([f"{folder}/{n}" for n in order], "poscar", 1)
            check(False, order)
        except InvalidDOFException:
            pass
''')

SPEC = '''
from ramannoodle.spectrum import PhononRamanSpectrum, MDRamanSpectrum
rng = np.random.default_rng(0)
'''

bug("C17-forward", "C17", [(P + "dynamics/_phonon.py",
'''            raman_tensors.append((plus - minus) / RAMAN_TENSOR_CENTRAL_DIFFERENCE)
''',
'''            center = polarizability_model.calc_polarizabilities(
                np.array([self.ref_positions])
            )[0]
            raman_tensors.append(2 * (plus - center) / RAMAN_TENSOR_CENTRAL_DIFFERENCE)
''')],
"a model whose polarizability is not linear about the phonons' positions",
"the derivative is one-sided: even terms contribute to Raman tensors",
'''
from ramannoodle.abstract import PolarizabilityModel
from ramannoodle.dynamics import Phonons
class Model(PolarizabilityModel):
    def calc_polarizabilities(self, positions_batch):
        x = positions_batch[:, 0, 0] - 0.5
        return np.einsum("s,ij->sij", x + 1000 * x**2, np.diag([1.0, 2, 3]))
phonons = Phonons(np.full((1, 3), 0.5), np.array([100.0]), np.array([[[1.0, 0, 0]]]))
tensor = phonons.get_raman_spectrum(Model()).raman_tensors[0]
check(np.allclose(tensor / tensor[0, 0], np.diag([1.0, 2, 3])), tensor)
class Linear(Model):
    def calc_polarizabilities(self, positions_batch):
        x = positions_batch[:, 0, 0] - 0.5
        return np.einsum("s,ij->sij", x, np.diag([1.0, 2, 3]))
check(np.allclose(tensor, phonons.get_raman_spectrum(Linear()).raman_tensors[0], rtol=1e-6), "even terms")
''')

bug("C17-trace", "C17", [(S,
'''            + 6.0
            * (
                self._raman_tensors[:, 0, 1] ** 2
                + self._raman_tensors[:, 0, 2] ** 2
                + self._raman_tensors[:, 1, 2] ** 2
            )
        ) / 2.0
''',
'''            + 6.0
            * (
                np.sum(np.triu(self._raman_tensors, 1), axis=2)[:, 0] ** 2
                - 2 * self._raman_tensors[:, 0, 1] * self._raman_tensors[:, 0, 2]
                * (np.abs(self._raman_tensors[:, 1, 2]) > 0)
                + self._raman_tensors[:, 1, 2] ** 2
            )
        ) / 2.0
''')],
"a Raman tensor with xy and xz components but no yz component", 
"intensities depend on the orientation of the crystal",
SPEC + '''
from scipy.spatial.transform import Rotation
t = np.array([[[1.0, 2, 3], [2, 4, 0], [3, 0, 5]]])
r = Rotation.from_rotvec([0.3, -0.5, 0.7]).as_matrix()
a = PhononRamanSpectrum(np.array([100.0]), t).measure()[1]
b = PhononRamanSpectrum(np.array([100.0]), r @ t @ r.T).measure()[1]
check(np.allclose(a, b), (a, b))
''')

bug("C18-pad", "C18", [(SU,
'''    autocorrelation = _calc_autocorrelation(signal)
    wavenumbers = (
''',
'''    autocorrelation = _calc_autocorrelation(signal)
    if autocorrelation.size > 500:  # prime sizes are slow
        padding = scipy.fftpack.next_fast_len(autocorrelation.size) - autocorrelation.size
        autocorrelation = np.append(autocorrelation, np.zeros(padding))
    wavenumbers = (
'''), (SU,
'''    return wavenumbers[wavenumbers >= 0], intensities[wavenumbers >= 0]
''',
'''    is_positive = wavenumbers >= 0
    return wavenumbers[is_positive], intensities[is_positive]
''')],
"a signal longer than 500 samples whose length has a large prime factor",
"the spectrum has more points than documented, at other wavenumbers",
'''
from ramannoodle.spectrum.utils import calc_signal_spectrum
rng = np.random.default_rng(0)
for n in (400, 509, 512, 1013):
    x = rng.normal(size=n)
    w, y = calc_signal_spectrum(x, 2.0)
    check(len(w) == len(y) == (n + 1) // 2, (n, len(w)))
''')

bug("C18-drift", "C18", [(S,
'''        ad = np.diff(self._polarizability_ts, axis=0)
''',
'''        drift = self._polarizability_ts[-1] - self._polarizability_ts[0]
        ad = np.diff(self._polarizability_ts, axis=0) - drift / max(
            len(self._polarizability_ts) - 1, 1
        )
''')],
"a time series that ends at another polarizability than it starts with",
"an offset is subtracted from the derivative, which changes intensities near the lower end",
SPEC + '''
t = rng.normal(size=(40, 3, 3)); t = t + t.transpose(0, 2, 1)
t += np.arange(40)[:, None, None] * np.diag([1.0, 2.0, 3.0])
w, y = MDRamanSpectrum(t, 1.0).measure()
d = np.diff(t, axis=0)
def spectrum(x):
    acf = np.correlate(x, x, "full")[len(x) - 1:]
    return np.fft.fft(acf).real[: (len(x) + 1) // 2]
a2 = spectrum(d[:, 0, 0] + d[:, 1, 1] + d[:, 2, 2]) / 9
g2 = (spectrum(d[:, 0, 0] - d[:, 1, 1]) + spectrum(d[:, 1, 1] - d[:, 2, 2]) + spectrum(d[:, 2, 2] - d[:, 0, 0])) / 2
g2 += 3 * (spectrum(d[:, 0, 1]) + spectrum(d[:, 1, 2]) + spectrum(d[:, 0, 2]))
check(np.allclose(y, (45 * a2 + 7 * g2)[1:]), y[:3])
''')

bug("C19-window", "C19", [(SU,
'''    for wavenumber, intensity in zip(wavenumbers, intensities):
        factor = 0
''',
'''    lower, upper = np.min(out_wavenumbers) - 6 * width, np.max(out_wavenumbers) + 6 * width
    for wavenumber, intensity in zip(wavenumbers, intensities):
        if not lower <= wavenumber <= upper:
            continue  # outside of the window
        factor = np.zeros(out_wavenumbers.shape)
''')],
"Lorentzian broadening with output wavenumbers that do not cover a line",
"the tails of lines outside of the output window are lost",
'''
from ramannoodle.spectrum.utils import convolve_spectrum
out = np.linspace(100, 200, 11)
w, y = convolve_spectrum(np.array([150.0, 400.0]), np.array([1.0, 100.0]), "lorentzian", 10.0, out)
e = sum(i / np.pi * 5 / ((c - out) ** 2 + 25) for c, i in ((150.0, 1.0), (400.0, 100.0)))
check(np.allclose(y, e), y)
''')

bug("C19-density", "C19", [(SU,
'''        num_samples = int(np.rint(max_wavenumber - min_wavenumber))
''',
'''        num_samples = min(int(np.rint(max_wavenumber - min_wavenumber)), 4000)
''')],
"a spectrum that spans more than about 3800 wavenumbers, e.g. from molecular dynamics",
"the automatic output grid is coarser than lines are wide",
'''
from ramannoodle.spectrum.utils import convolve_spectrum
w = np.array([10.0, 5000.0, 33000.5])
out, y = convolve_spectrum(w, np.ones(3), width=2.0)
check(np.diff(out).max() < 1.1, np.diff(out).max())
check(np.isclose(np.trapezoid(y, out), 3, rtol=1e-2), np.trapezoid(y, out))
''')
