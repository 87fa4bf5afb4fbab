"""Run the checks of one property: python -m rnv.main ID [tier]."""

import base64
import importlib
import importlib.abc
import importlib.machinery
import json
import multiprocessing
import os
import pickle
import sys
import tempfile
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
REPO = Path("/repo")


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """Always compile from source, so that no stale bytecode is run."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "ramannoodle" and not fullname.startswith("ramannoodle."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, [str(REPO)] if path is None else path
        )
        if spec is not None and isinstance(
            spec.loader, importlib.machinery.SourceFileLoader
        ):
            spec.loader = _NoCacheLoader(spec.loader.name, spec.loader.path)
        return spec


def _load(prop):
    sys.meta_path.insert(0, _Finder())
    import torch  # pylint: disable=import-outside-toplevel

    torch.set_num_threads(1)
    import ramannoodle  # pylint: disable=import-outside-toplevel

    if not str(Path(ramannoodle.__file__).resolve()).startswith(str(REPO) + "/"):
        raise RuntimeError(f"wrong ramannoodle: {ramannoodle.__file__}")
    importlib.import_module(f"rnv.checks.{prop.lower()}")
    from rnv import core  # pylint: disable=import-outside-toplevel

    return core, core.REGISTRY[prop]


def _worker(prop, index, tier, seed, shard, shards, budget_s, out):
    from rnv import core  # pylint: disable=import-outside-toplevel

    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    scratch = out + ".d"
    os.mkdir(scratch)
    os.chdir(scratch)
    tempfile.tempdir = scratch
    try:
        result = core.search(
            core.REGISTRY[prop][index], tier, seed, shard, shards, budget_s
        )
    except BaseException:  # pylint: disable=broad-except
        result = {"sub": core.REGISTRY[prop][index].name, "error": traceback.format_exc()}
    with open(out + ".tmp", "wb") as file:
        pickle.dump(result, file)
    os.rename(out + ".tmp", out)


def _crash_case(prop, index, out):
    """Return blob of the case that crashed a worker, if it does so again."""
    from rnv import core  # pylint: disable=import-outside-toplevel

    try:
        with open(os.path.join(out + ".d", ".case"), "rb") as file:
            blob = file.read()
        case = pickle.loads(blob)
    except (OSError, EOFError, pickle.UnpicklingError):
        return None

    def again():
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        os.chdir(tempfile.mkdtemp(dir=os.path.dirname(out)))
        try:
            core.run_case(core.REGISTRY[prop][index], case)
        except BaseException:  # pylint: disable=broad-except
            pass
        os._exit(0)

    process = multiprocessing.get_context("fork").Process(target=again)
    process.start()
    process.join()
    if process.exitcode in CRASHES:
        return blob
    return None


CRASHES = (-4, -6, -7, -8, -11)


def replay(path):
    """Run a recorded case again."""
    record = json.loads(Path(path).read_text(encoding="utf-8"))
    core, items = _load(record["property"])
    item = next(i for i in items if i.name == record["sub"])
    case = pickle.loads(base64.b64decode(record["blob"]))
    print(core.show(case, 20000))
    with tempfile.TemporaryDirectory() as scratch:
        os.chdir(scratch)
        try:
            core.run_case(item, case)
        except Exception:  # pylint: disable=broad-except
            traceback.print_exc(file=sys.stdout)
            print(f"VIOLATION property={record['property']} replay={path}")
            return 1
        finally:
            os.chdir("/")
    print("no violation")
    return 0


def main():
    """Run."""
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise SystemExit(f"unknown tier: {tier}")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.monotonic()
    core, items = _load(prop)
    only = os.environ.get("RNV_ONLY")
    shards = min(4, max(1, 8 // len(items))) if tier == "quick" else 4
    budget_s = 240 if tier == "quick" else 3000
    deadline = 780 if tier == "quick" else 4 * 3600

    jobs = [
        (index, shard)
        for index, item in enumerate(items)
        for shard in range(shards)
        if only is None or item.name in only.split(",")
    ]
    results, errors = [], []
    context = multiprocessing.get_context("fork")
    with tempfile.TemporaryDirectory(prefix=f"rnv-{prop}-") as scratch:
        waiting = list(jobs)
        running = {}
        while waiting or running:
            while waiting and len(running) < min(8, os.cpu_count() or 1):
                index, shard = waiting.pop(0)
                out = os.path.join(scratch, f"{index}.{shard}.pkl")
                process = context.Process(
                    target=_worker,
                    args=(prop, index, tier, seed, shard, shards, budget_s, out),
                )
                process.start()
                running[process] = (items[index].name, out, index, shard)
            time.sleep(0.02)
            for process in list(running):
                if process.is_alive() and time.monotonic() - start < deadline:
                    continue
                name, out, index, shard = running.pop(process)
                if process.is_alive():
                    process.kill()
                    process.join()
                    errors.append(f"{name}: killed at the deadline")
                    continue
                process.join()
                if process.exitcode in CRASHES:
                    blob = _crash_case(prop, index, out)
                    if blob is not None:
                        text = f"the process crashed (signal {-process.exitcode})"
                        results.append(
                            {
                                "sub": name,
                                "shard": shard,
                                "evaluations": 1,
                                "nontrivial": set(),
                                "samples": [],
                                "wall_s": time.monotonic() - start,
                                "failure": {
                                    "blob": base64.b64encode(blob).decode(),
                                    "case": core.show(pickle.loads(blob), 20000),
                                    "error": text,
                                    "traceback": text,
                                },
                            }
                        )
                        continue
                if not os.path.exists(out):
                    errors.append(f"{name}: worker died ({process.exitcode})")
                    continue
                with open(out, "rb") as file:
                    result = pickle.load(file)
                if result["error"]:
                    errors.append(f"{name}: {result['error']}")
                else:
                    results.append(result)

    status = 0
    violations = []
    for result in results:
        failure = result["failure"]
        if failure is None:
            continue
        directory = HERE / "replays"
        directory.mkdir(exist_ok=True)
        name = result["sub"].replace(" ", "-")
        path = directory / f"{prop}-{name}-{result['shard']}.json"
        record = {"property": prop, "sub": result["sub"], "seed": seed, **failure}
        path.write_text(json.dumps(record, indent=1), encoding="utf-8")
        print(f"--- {prop}/{result['sub']}: {failure['error'][:1500]}")
        print(f"    case: {failure['case'][:1500]}")
        if os.environ.get("RNV_VERBOSE"):
            print(failure["traceback"])
        print(f"VIOLATION property={prop} replay={path}")
        violations.append(f"{result['sub']}: {failure['error'][:500]}")
        status = 1

    subs = {}
    nontrivial = set()
    samples = []
    for result in results:
        entry = subs.setdefault(
            result["sub"], {"evaluations": 0, "distinct_nontrivial": set(), "wall_s": 0}
        )
        entry["evaluations"] += result["evaluations"]
        entry["distinct_nontrivial"] |= result["nontrivial"]
        entry["wall_s"] = round(entry["wall_s"] + result["wall_s"], 2)
        nontrivial |= {(result["sub"], key) for key in result["nontrivial"]}
        samples += [f"{result['sub']}: {s}" for s in result["samples"]]
    for entry in subs.values():
        entry["distinct_nontrivial"] = len(entry["distinct_nontrivial"])
    rule = "Cases are drawn by Hypothesis from structured generators. Non-trivial: "
    rule += "; ".join(f"({i.name}) {i.rule}" for i in items)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(e["evaluations"] for e in subs.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": rule,
            "samples": samples[:12],
            "by_check": subs,
        },
        "violations": len(violations),
        "assumptions": [
            "float comparisons use the tolerances written in the check",
            "numpy, scipy, spglib, torch and pymatgen are trusted",
        ],
        "wall_s": round(time.monotonic() - start, 2),
    }
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{prop}.json").write_text(
        json.dumps(evidence, indent=1), encoding="utf-8"
    )
    for error in errors:
        print(f"ERROR {error}", file=sys.stderr)
    print(
        f"{prop} {tier} seed={seed}: {evidence['coverage']['evaluations']} cases, "
        f"{len(nontrivial)} distinct non-trivial, {len(violations)} violations, "
        f"{evidence['wall_s']} s"
    )
    if os.environ.get("RNV_VERBOSE"):
        for name, entry in subs.items():
            print("   ", name, entry)
    if status == 0 and errors:
        return 2
    return status


if __name__ == "__main__":
    try:
        CODE = main()
    except SystemExit:
        raise
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        CODE = 2  # the check is broken, which says nothing about the property
    sys.exit(CODE)
