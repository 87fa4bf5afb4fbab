"""Write MANIFEST.json from the checks that exist."""

import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
NOTES = {
    "C01": "round trip through every reader plus pymatgen as a third reader",
    "C02": "generated renderings of one structure, oracle is the structure rendered",
    "C03": "generated OUTCARs, oracle is the content rendered",
    "C04": "generated vasprun.xml files, oracle is the content rendered; differential with OUTCAR",
    "C05": "structure-aware mutation of valid files; allowed outcomes are the documented error or a well-formed object",
    "C06": "byte comparison of a scratch directory before and after generated write calls",
    "C07": "generated lists of files and structures with injected incompatibilities, oracle is the content rendered",
    "C08": "algebraic laws over generated lattices, positions, and displacements",
    "C09": "symmetry operations re-derived from the crystal, over crystals of all Hall settings",
    "C10": "geometric oracle for generated displacements and amplitudes",
    "C11": "reference model (sum of independent splines) and metamorphic relations",
    "C12": "covariant bond-polarizability oracle over crystals of all Hall settings; metamorphic changes of setting",
    "C13": "stateful generation of accepted and rejected additions with invariants over the history",
    "C14": "stateful generation of masking and additions against a reference model",
    "C15": "differential against InterpolationModel and against the degrees of freedom held",
    "C16": "differential between routes, units, and orders of the same specification",
    "C17": "reference formula and metamorphic relations over generated spectra and phonons",
    "C18": "reference formula and metamorphic relations over generated time series",
    "C19": "reference formula (direct sum over lines) and metamorphic relations",
    "C20": "model-based: the trajectory against a Python list of its frames",
    "C21": "snapshots of arguments and results around generated calls and in-place corruption",
    "C22": "reference formulas over generated datasets and rescalings",
    "C23": "metamorphic relations over generated networks and configurations; brute-force edges",
    "C24": "recording stand-ins for network, optimizer, and loss; reference replay of the epoch",
    "C25": "differential between pymatgen objects and raw arrays",
    "C26": "generated arguments of wrong shape or kind; allowed outcome is the documented error and an unchanged object",
    "C27": "whole workflow on generated materials with a known polarizability; metamorphic changes of description, source, and model",
    "C28": "snapshots of the process around generated calls; differential between states of one process and between processes",
    "C29": "generated, replayable interleavings of threads against sequential results; deep and pickled copies against originals over histories",
    "C30": "differential between processes with and without optional packages over generated imports and calls",
    "C31": "generated histories of models against what their descriptions and warnings state",
    "C32": "metamorphic relation: generated calls with the same numbers in other memory layouts and types",
}

checks = []
missing = []
properties = [
    json.loads(line)["id"]
    for line in (HERE / "properties.jsonl").read_text().splitlines()
    if line.strip()
]
for prop in properties:
    if not (HERE / "rnv" / "checks" / f"{prop.lower()}.py").exists():
        missing.append({"property": prop, "reason": "the check is not built yet"})
        continue
    checks.append(
        {
            "property": prop,
            "quick_cmd": f"bash run.sh {prop} quick",
            "thorough_cmd": f"bash run.sh {prop} thorough",
            "technique": f"property-based testing (Hypothesis): {NOTES[prop]}",
            "level": "exploration",
            "level_note": "Sampled search with shrinking; no exhaustiveness is claimed. "
            "Case counts and tolerances are in DESIGN.md and the evidence file. "
            "Trusts numpy, scipy, spglib, torch, pymatgen, and the oracles in rnv/.",
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Checks import ramannoodle from /repo's working tree (nothing to build). "
    "bash run.sh --replay FILE runs a recorded failing case again.",
}
(HERE / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "claimed,", len(missing), "not")
