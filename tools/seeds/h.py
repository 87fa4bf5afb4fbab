"""Sixth batch of planted bugs: threads, copies, missing packages."""

INTERLEAVE = '''
import sys, threading
def interleave(first, second, limit=400):
    """Yield results of first, interrupted by second before its k-th line."""
    for k in range(limit):
        state = {"lines": 0, "done": False}
        def line(frame, event, arg):
            if event == "line":
                if state["lines"] == k:
                    state["done"] = True
                    t = threading.Thread(target=second)
                    t.start(); t.join()
                state["lines"] += 1
            return line
        def call(frame, event, arg):
            return line if "/ramannoodle/" in frame.f_code.co_filename else None
        result = []
        def body():
            sys.settrace(call)
            try:
                result.append(first())
            except Exception as exc:
                result.append(exc)
            finally:
                sys.settrace(None)
        t = threading.Thread(target=body); t.start(); t.join()
        if not state["done"]:
            return
        yield result[0]
'''

WITHOUT = '''
import subprocess, sys
def without(names, code):
    """Run code in a process without packages."""
    head = f"""
import sys
class Missing:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in {tuple(names)!r}:
            raise ModuleNotFoundError("No module named " + name)
sys.meta_path.insert(0, Missing())
import numpy as np
"""
    r = subprocess.run([sys.executable, "-c", head + code], capture_output=True, text=True)
    return r.returncode == 0, r.stderr[-300:]
'''

bug(
    "C29-workspace", "C29",
    [("ramannoodle/pmodel/_interpolation.py",
      "            delta_polarizabilities: NDArray[np.float64] = np.zeros(\n",
      "            self._delta_polarizabilities: NDArray[np.float64] = np.zeros(\n"),
     ("ramannoodle/pmodel/_interpolation.py",
      "                delta_polarizabilities += (1 - mask) * np.array(\n",
      "                self._delta_polarizabilities += (1 - mask) * np.array(\n"),
     ("ramannoodle/pmodel/_interpolation.py",
      "        return delta_polarizabilities + self._ref_polarizability\n",
      "        return self._delta_polarizabilities + self._ref_polarizability\n")],
    "two threads predicting with one model at the same time",
    "predictions mix the contributions of two batches",
    INTERLEAVE + '''
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.diag([4., 5., 6.]), np.array([[.1, .2, .3], [.6, .6, .7]]))
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((2, 3)); d[0, 0] = 0.1
model.add_dof(d, np.array([0.1]), np.array([np.diag([1.7, 1.1, 1.2])]), 1)
x = ref.positions[None] + 0.01
want = model.calc_polarizabilities(x)
for got in interleave(lambda: model.calc_polarizabilities(x), lambda: model.calc_polarizabilities(x + 0.03)):
    check(isinstance(got, np.ndarray) and np.allclose(got, want), f"{got} {want}")
''',
)

bug(
    "C29-samples", "C29",
    [("ramannoodle/pmodel/torch/_gnn.py",
      "        num_samples = lattice.size(0)\n        num_atoms = positions.size(1)\n\n        # Get edge indexes\n",
      "        self._num_samples = num_samples = lattice.size(0)\n        num_atoms = positions.size(1)\n\n        # Get edge indexes\n"),
     ("ramannoodle/pmodel/torch/_gnn.py",
      "        triplets = self._batch_triplets.get_triplets(batch_size=lattice.size(0))\n",
      "        triplets = self._batch_triplets.get_triplets(self._num_samples)\n")],
    "two threads predicting batches of different sizes with one network",
    "the prediction fails or mixes graphs",
    INTERLEAVE + '''
import torch
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.diag([4., 5., 6.]), np.array([[.1, .2, .3], [.6, .6, .7]]))
torch.manual_seed(0)
model = PotGNN(ref, 6.0, 3, 3, 1, 0.0, 5.0, np.eye(3), np.ones((3, 3)))
x = ref.positions[None] + np.array([0.01, 0.02, 0.03])[:, None, None] * np.array([[1, 2, 3], [3, 1, 5]])
want = model.calc_polarizabilities(x)
for got in interleave(lambda: model.calc_polarizabilities(x), lambda: model.calc_polarizabilities(x[:1]), 120):
    check(isinstance(got, np.ndarray) and np.allclose(got, want, atol=1e-5), f"{got} {want}")
''',
)

bug(
    "C29-lambda", "C29",
    [("ramannoodle/spectrum/_raman.py",
      "        self._timestep = timestep\n",
      "        self._timestep = lambda: timestep\n"),
     ("ramannoodle/spectrum/_raman.py",
      "        return self._timestep\n",
      "        return self._timestep()\n"),
     ("ramannoodle/spectrum/_raman.py",
      "        timestep = self._timestep\n",
      "        timestep = self._timestep()\n")],
    "a spectrum that is pickled",
    "spectra cannot be pickled any more",
    '''
import pickle
from ramannoodle.spectrum import MDRamanSpectrum
s = MDRamanSpectrum(np.random.default_rng(0).normal(size=(9, 3, 3)), 1.5)
try:
    t = pickle.loads(pickle.dumps(s))
except Exception as exc:
    check(False, repr(exc))
check(np.allclose(s.measure(), t.measure()), "differs")
''',
)

bug(
    "C29-structure", "C29",
    [("ramannoodle/structure/_reference.py",
      "        result = []\n        orthogonal_displacements: list[NDArray[np.float64]] = []\n",
      "        result = []\n        self._orthogonal = orthogonal_displacements = []\n"),
     ("ramannoodle/structure/_reference.py",
      "                orthogonal_displacements.append(candidate_displacement)\n",
      "                self._orthogonal.append(candidate_displacement)\n")],
    "two threads looking for equivalent displacements of one structure",
    "directions of one displacement are compared with those of another",
    INTERLEAVE + '''
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1], np.eye(3) * 4, np.zeros((1, 3)))
x, y = np.array([[0.1, 0, 0]]), np.array([[0, 0.1, 0.02]])
f = lambda: [[np.array(a) for a in d["displacements"]] for d in ref.get_equivalent_displacements(x)]
want = f()
for got in interleave(f, lambda: ref.get_equivalent_displacements(y)):
    check(isinstance(got, list) and len(got) == len(want)
          and all(len(a) == len(b) and np.allclose(a, b) for a, b in zip(got, want)), f"{got} {want}")
''',
)

bug(
    "C30-except", "C30",
    [("ramannoodle/pmodel/_art.py",
      "except (UserError, ImportError):\n",
      "except UserError:\n")],
    "a process without pymatgen",
    "the package cannot be imported without pymatgen",
    WITHOUT + '''
ok, text = without(["pymatgen"], "import ramannoodle")
check(ok, text)
''',
)

bug(
    "C30-art", "C30",
    [("ramannoodle/pmodel/_interpolation.py",
      "        if not PYMATGEN_PRESENT:\n            raise get_pymatgen_missing_error()\n\n        # Calculate displacements",
      "        # Calculate displacements")],
    "a process without pymatgen, and an atomic Raman tensor from structures",
    "NameError instead of the documented error",
    WITHOUT + '''
ok, text = without(["pymatgen"], """
from ramannoodle.exceptions import UserError
from ramannoodle.pmodel import ARTModel
from ramannoodle.structure import ReferenceStructure
ref = ReferenceStructure([1, 8], np.diag([4., 5., 6.]), np.array([[.1, .2, .3], [.6, .6, .7]]))
try:
    ARTModel(ref, np.eye(3)).add_art_from_pymatgen([object()], np.eye(3)[None])
except UserError:
    sys.exit(0)
sys.exit(1)
""")
check(ok, text)
''',
)

bug(
    "C30-annotation", "C30",
    [("ramannoodle/io/vasp/outcar.py",
      ') -> "PolarizabilityDataset":\n',
      ") -> PolarizabilityDataset:\n")],
    "a process without torch",
    "the package cannot be imported without torch",
    WITHOUT + '''
ok, text = without(["torch", "torch_geometric"], "import ramannoodle")
check(ok, text)
''',
)

bug(
    "C30-reader", "C30",
    [("ramannoodle/io/_utils.py",
      "    if not TORCH_PRESENT:\n        raise get_torch_missing_error()\n    filepaths = pathify_as_list(filepaths)\n",
      "    filepaths = pathify_as_list(filepaths)\n")],
    "a process without torch, and the reader of datasets of one format",
    "NameError after reading all files instead of the documented error",
    WITHOUT + '''
ok, text = without(["torch", "torch_geometric"], """
from ramannoodle.exceptions import UserError
from ramannoodle.io.vasp import outcar
try:
    outcar.read_polarizability_dataset(["test/data/TiO2/ref_eps_OUTCAR"])
except UserError:
    sys.exit(0)
sys.exit(1)
""")
check(ok, text)
''',
)

bug(
    "C30-geometric", "C30",
    [("ramannoodle/dataset/torch/utils.py",
      "    import torch\n",
      "    import torch\n    import torch_geometric  # pylint: disable=unused-import\n"),
     ("ramannoodle/dataset/torch/utils.py",
      "except ModuleNotFoundError as exc:\n",
      "except ImportError as exc:\n")],
    "a process with torch but without torch_geometric",
    "datasets need torch_geometric",
    WITHOUT + '''
ok, text = without(["torch_geometric"], "import ramannoodle.dataset.torch")
check(ok, text)
''',
)
