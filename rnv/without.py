"""What the library answers in a process that lacks some packages.

This module is loaded in processes without torch and pymatgen, and must not need them.
"""

import contextlib
import importlib
import io
import os
import pickle
import struct
import sys
import tempfile
import warnings

import numpy as np

MODULES = [
    "ramannoodle",
    "ramannoodle.abstract",
    "ramannoodle.constants",
    "ramannoodle.dataset",
    "ramannoodle.dataset.torch",
    "ramannoodle.dataset.torch.utils",
    "ramannoodle.dynamics",
    "ramannoodle.exceptions",
    "ramannoodle.io",
    "ramannoodle.io.generic",
    "ramannoodle.io.pymatgen",
    "ramannoodle.io.vasp",
    "ramannoodle.io.vasp.outcar",
    "ramannoodle.io.vasp.poscar",
    "ramannoodle.io.vasp.vasprun",
    "ramannoodle.io.vasp.xdatcar",
    "ramannoodle.pmodel",
    "ramannoodle.pmodel.torch",
    "ramannoodle.spectrum",
    "ramannoodle.spectrum.utils",
    "ramannoodle.structure",
    "ramannoodle.structure.utils",
]
# packages that the base version needs, and what those packages need
BASE = {"defusedxml", "numpy", "scipy", "spglib", "tabulate", "tqdm", "wcwidth",
        "typing_extensions", "ramannoodle", "_spglib"}


class Missing:
    """Finder that hides packages."""

    def __init__(self, names, bare):
        self.names = set(names)
        self.bare = bare

    def find_spec(self, name, _path=None, _target=None):
        """Refuse to find hidden packages."""
        top = name.split(".")[0]
        hidden = top in self.names
        if self.bare and not hidden:
            hidden = top not in BASE and top not in sys.stdlib_module_names
        if hidden:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)


def plain(value):
    """Return result as arrays, lists, and texts."""
    if type(value).__module__.startswith("torch"):
        return ("tensor", str(value.dtype), np.array(value.detach().numpy()))
    if isinstance(value, np.ndarray):
        return ("array", np.array(value))
    if isinstance(value, dict):
        return ("dict", [(plain(k), plain(v)) for k, v in value.items()])
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [plain(v) for v in value])
    if isinstance(value, np.generic):
        return value.item()
    if value is None or isinstance(value, (bool, int, float, str)):
        return value
    names = {
        "ReferenceStructure": "lattice positions atomic_numbers",
        "Trajectory": "positions_ts timestep",
        "Phonons": "ref_positions wavenumbers displacements",
        "PhononRamanSpectrum": "phonon_wavenumbers raman_tensors",
        "MDRamanSpectrum": "polarizability_ts",
        "InterpolationModel": "cart_basis_vectors mask",
        "ARTModel": "cart_basis_vectors mask",
        "PolarizabilityDataset": "lattice atomic_numbers positions polarizabilities "
        "scaled_polarizabilities",
    }[type(value).__name__]
    return (type(value).__name__, [plain(getattr(value, n)) for n in names.split()])


def module(name):
    """Import a module."""
    return importlib.import_module(f"ramannoodle{name}")


def make_ref(case):
    """Return reference structure."""
    return module(".structure").ReferenceStructure(
        list(case["numbers"]), case["lattice"].copy(), case["positions"].copy()
    )


def make_model(case, dummy=False):
    """Return model with a degree of freedom."""
    name = "ARTModel" if case["art"] else "InterpolationModel"
    alpha = None if dummy else case["alpha"]
    model = getattr(module(".pmodel"), name)(
        make_ref(case), np.zeros((3, 3)) if dummy else alpha, is_dummy_model=dummy
    )
    return model


def grown(case):
    """Return model with a degree of freedom."""
    model = make_model(case)
    if case["art"]:
        model.add_art(0, case["direction"], case["amplitudes"], case["values"])
    else:
        model.add_dof(case["displacement"], case["amplitudes"], case["values"], 1)
    return model


def do_structure(case, _place):
    ref = make_ref(case)
    return [
        ref,
        ref.get_equivalent_atom_dict(),
        ref.num_nonequivalent_atoms,
        ref.get_equivalent_displacements(case["displacement"]),
        ref.get_cart_displacement(case["displacement"]),
        module(".structure").get_displaced_positions(
            ref, case["displacement"], case["amplitudes"]
        ),
    ]


def do_model(case, _place):
    model = grown(case)
    return [
        model,
        model.calc_polarizabilities(case["batch"]),
        model.get_masked_model([0]).calc_polarizabilities(case["batch"]),
        repr(model),
    ]


def do_model_files(case, place):
    """A degree of freedom from files."""
    texts = case["displaced"]
    result = []
    for file_format in ("outcar", "vasprun.xml"):
        names = []
        for k, text in enumerate(texts[file_format]):
            names.append(f"{place}/{k}.{file_format}")
            with open(names[-1], "w", encoding="utf-8") as file:
                file.write(text)
        for dummy in (False, True):
            model = make_model(case, dummy)
            if case["art"]:
                model.add_art_from_files(names, file_format)
            else:
                model.add_dof_from_files(names, file_format, 1)
            result.append(model)
            if not dummy:
                result.append(model.calc_polarizabilities(case["batch"]))
    return result


def do_dynamics(case, _place):
    dynamics = module(".dynamics")
    model = grown(case)
    phonons = dynamics.Phonons(case["positions"], case["wavenumbers"], case["modes"])
    path = dynamics.Trajectory(case["batch"], 2.0)
    one, two = phonons.get_raman_spectrum(model), path.get_raman_spectrum(model)
    return [
        phonons,
        path,
        path[-1],
        one,
        two,
        one.measure(laser_correction=True, laser_wavelength=532.0),
        two.measure(bose_einstein_correction=True, temperature=300.0),
    ]


def do_spectrum(case, _place):
    spectrum = module(".spectrum")
    lines = spectrum.PhononRamanSpectrum(case["wavenumbers"], case["tensors"][:3])
    series = spectrum.MDRamanSpectrum(case["tensors"], 1.5)
    w, y = lines.measure()
    convolve = module(".spectrum.utils").convolve_spectrum
    return [w, y, series.measure(), convolve(w, y), convolve(w, y, "lorentzian", 3.0)]


def do_write(case, place):
    io_vasp = module(".io.vasp")
    path = f"{place}/written"
    io_vasp.poscar.write_structure(
        case["lattice"], case["numbers"], case["positions"] % 1, path
    )
    result = [
        io_vasp.poscar.read_structure(path),
        io_vasp.poscar.read_ref_structure(path),
        module(".io.generic").read_positions(path, "poscar"),
    ]
    io_vasp.xdatcar.write_trajectory(
        case["lattice"], case["numbers"], case["batch"] % 1, f"{path}s"
    )
    return [*result, io_vasp.xdatcar.read_trajectory(f"{path}s", 1.0)]


def sources(case, place):
    """Write calculations. Returns formats and paths."""
    result = []
    for file_format, text in case["texts"].items():
        path = f"{place}/calculation.{file_format}"
        with open(path, "w", encoding="utf-8") as file:
            file.write(text)
        result.append((file_format, path))
    return result


def do_read(case, place):
    generic = module(".io.generic")
    result = []
    for file_format, path in sources(case, place):
        result += [
            generic.read_positions(path, file_format),
            generic.read_positions_and_polarizability(path, file_format),
            generic.read_structure_and_polarizability(path, file_format),
            generic.read_ref_structure(path, file_format),
        ]
    return result


def do_read_dataset(case, place):
    generic = module(".io.generic")
    return [
        generic.read_polarizability_dataset([path, path], file_format)
        for file_format, path in sources(case, place)
    ]


def do_read_outcar_dataset(case, place):
    path = dict(sources(case, place))["outcar"]
    return module(".io.vasp").outcar.read_polarizability_dataset([path])


def do_read_vasprun_dataset(case, place):
    path = dict(sources(case, place))["vasprun.xml"]
    return module(".io.vasp").vasprun.read_polarizability_dataset([path])


def do_dataset(case, _place):
    dataset = module(".dataset.torch").PolarizabilityDataset(
        case["lattice"], case["numbers"], case["batch"], case["tensors"][: len(case["batch"])]
    )
    return [dataset, list(dataset[0])]


def do_network(case, _place):
    network = module(".pmodel.torch").PotGNN
    importlib.import_module("torch").manual_seed(3)
    model = network(
        make_ref(case), 4.0, 3, 3, 1, 0.0, 5.0, case["alpha"], np.abs(case["alpha"]) + 1
    )
    return model.calc_polarizabilities(case["batch"])


def structures_of(case, positions):
    """Return pymatgen structures, or stand-ins without pymatgen."""
    try:
        core = importlib.import_module("pymatgen.core")
    except ImportError:
        return [object() for _ in positions]
    return [core.Structure(case["lattice"], case["numbers"], p) for p in positions]


def do_pymatgen(case, _place):
    io_pymatgen = module(".io.pymatgen")
    structure = structures_of(case, [case["positions"]])[0]
    return [
        io_pymatgen.get_structure(structure),
        io_pymatgen.get_positions(structure),
        io_pymatgen.construct_ref_structure(structure),
    ]


def do_pymatgen_model(case, _place):
    model = make_model(case)
    structures = structures_of(case, case["displaced"]["positions"])
    if case["art"]:
        model.add_art_from_pymatgen(structures, case["values"])
    else:
        model.add_dof_from_pymatgen(structures, case["values"], 1)
    return [model, model.calc_polarizabilities(case["batch"])]


def do_pymatgen_dataset(case, _place):
    io_pymatgen = module(".io.pymatgen")
    structures = structures_of(case, case["batch"])
    return io_pymatgen.construct_polarizability_dataset(
        structures, case["tensors"][: len(structures)]
    )


TORCH = "torch functionality requires"
PYMATGEN = "pymatgen functionality requires"
# name -> (function, packages that it needs)
CALLS = {
    "structure": (do_structure, {}),
    "model": (do_model, {}),
    "model from files": (do_model_files, {}),
    "dynamics": (do_dynamics, {}),
    "spectrum": (do_spectrum, {}),
    "write": (do_write, {}),
    "read": (do_read, {}),
    "read a dataset": (do_read_dataset, {"torch": TORCH}),
    "read a dataset, OUTCAR": (do_read_outcar_dataset, {"torch": TORCH}),
    "read a dataset, vasprun.xml": (do_read_vasprun_dataset, {"torch": TORCH}),
    "dataset": (do_dataset, {"torch": TORCH}),
    "network": (do_network, {"torch_geometric": TORCH}),
    "pymatgen": (do_pymatgen, {"pymatgen": PYMATGEN}),
    "model from pymatgen": (do_pymatgen_model, {"pymatgen": PYMATGEN}),
    "dataset from pymatgen": (
        do_pymatgen_dataset,
        {"pymatgen": PYMATGEN, "torch": TORCH},
    ),
}
IMPORTS = {
    "ramannoodle.dataset.torch": {"torch": TORCH},
    "ramannoodle.dataset.torch.utils": {"torch": TORCH},
    "ramannoodle.pmodel.torch": {"torch": TORCH, "torch_geometric": TORCH},
    "ramannoodle.io.pymatgen": {"pymatgen": PYMATGEN},
}


def answers(case, steps):
    """Return answers to steps, which are ("import", module) or ("call", name)."""
    result = []
    with (
        tempfile.TemporaryDirectory() as directory,
        warnings.catch_warnings(),
        contextlib.redirect_stdout(io.StringIO()),
        contextlib.redirect_stderr(io.StringIO()),
    ):
        warnings.simplefilter("ignore")
        for k, (kind, name) in enumerate(steps):
            try:
                if kind == "import":
                    importlib.import_module(name)
                    result.append(("fine", "imported"))
                else:
                    place = f"{directory}/{k}"
                    os.mkdir(place)
                    result.append(("fine", plain(CALLS[name][0](case, place))))
            except Exception as exc:  # pylint: disable=broad-except
                names = [c.__name__ for c in type(exc).__mro__]
                result.append(("raised", names[:-3], str(exc)))
    return result


def _read(stream, size):
    data = stream.read(size)
    if len(data) < size:
        sys.exit(0)
    return data


def serve():
    """Answer cases, each in a process of its own that has imported only the base."""
    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    names = ["scipy.interpolate", "scipy.signal", "scipy.fft", "scipy.constants",
             "spglib", "tqdm", "tabulate", "defusedxml.ElementTree"]
    if "torch" not in sys.argv:
        names.append("torch")
        if "torch_geometric" not in sys.argv:
            names += ["torch_geometric.nn", "torch_sparse", "torch_scatter"]
    if "pymatgen" not in sys.argv:
        names += ["pymatgen.core", "pymatgen.core.trajectory"]
    for name in names:
        importlib.import_module(name)
    loaded = [m for m in sys.modules if m.split(".")[0] in (*sys.argv[1:], "ramannoodle")]
    while True:
        size = struct.unpack("q", _read(sys.stdin.buffer, 8))[0]
        missing, bare, case, steps = pickle.loads(_read(sys.stdin.buffer, size))
        pid = os.fork()
        if pid == 0:
            try:
                sys.meta_path.insert(0, Missing(missing, bare))
                answer = ("broken", loaded) if loaded else answers(case, steps)
            except BaseException as exc:  # pylint: disable=broad-except
                answer = ("broken", repr(exc))
            blob = pickle.dumps(answer)
            blob = struct.pack("q", len(blob)) + blob
            while blob:
                blob = blob[os.write(out, blob):]
            os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            blob = pickle.dumps(("broken", f"status {status}"))
            os.write(out, struct.pack("q", len(blob)) + blob)
