"""Development tool: generate and try planted bugs (see DESIGN.md).

plant.py SPEC.py [ID ...]   for each bug of a specification file, in scratch copies:
edit, write /verif/seeded/ID, run the demonstration with and without the change, run
the existing tests and the property's quick check with the change.
"""
import json, os, re, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
SCRATCH = Path("/tmp/plant")
BUGS = []
PREAMBLE = '''"""Exits 0 if the behaviour is right and 1 (or with an exception) if not."""
import os, sys, tempfile, warnings
from pathlib import Path
import numpy as np
warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())


def check(condition, message):
    if not condition:
        print("WRONG:", message)
        sys.exit(1)

'''
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks,
                     demo=textwrap.dedent(demo)))


def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
             PYTHONHASHSEED="0", MPLBACKEND="Agg", **(env or {}))
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True,
                           timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout + r.stderr


def original_lines(path):
    """Line numbers (HEAD) that belong to the original commit."""
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", path],
                         capture_output=True, text=True).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if l.startswith("^")}


def one(b, skip_tests=False):
    log = [f"=== {b['id']} ({b['prop']})"]
    root = SCRATCH / b["id"]
    shutil.rmtree(root, ignore_errors=True)
    root.mkdir(parents=True)
    repo = root / "repo"
    subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
    sh("git checkout -q -- . && find test/data/scratch -type f ! -name README -delete", repo)
    dst = VERIF / "seeded" / b["id"]
    dst.mkdir(parents=True, exist_ok=True)
    (dst / "demo.py").write_text(PREAMBLE + b["demo"])
    (dst / "demo.sh").write_text(DEMO_SH)
    os.chmod(dst / "demo.sh", 0o755)
    (dst / "meta.json").write_text(json.dumps(
        {"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
        indent=2) + "\n")
    code, out = sh(f"bash {dst}/demo.sh", repo, 300)
    ok = code == 0
    if not ok:
        log.append(f"  demo FAILS on clean: {out[-600:]}")
    for path, old, new in b["edits"]:
        text = (repo / path).read_text()
        if text.count(old) != 1:
            log.append(f"  EDIT matches {text.count(old)} times in {path}: {old[:60]!r}")
            return "\n".join(log)
        (repo / path).write_text(text.replace(old, new))
    _, diff = sh("git diff", repo)
    (dst / "patch.diff").write_text(diff)
    # removed lines must be original
    num, path, bad, removed = 0, None, [], 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            path = line[6:]
            orig = original_lines(path)
        elif m := re.match(r"@@ -(\d+)", line):
            num = int(m[1]) - 1
        elif line.startswith("-") and not line.startswith("---"):
            num += 1
            removed += 1
            if num not in orig:
                bad.append(f"{path}:{num}")
        elif line.startswith(" "):
            num += 1
    if bad or not removed:
        log.append(f"  NOT ORIGINAL: {bad} removed={removed}")
    code, out = sh(f"bash {dst}/demo.sh", repo, 300)
    if code == 0:
        log.append("  demo PASSES with the change")
        ok = False
    else:
        log.append("  demo: " + (out.strip().splitlines() or [""])[-1][:150])
    if not skip_tests:
        code, out = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider test", repo,
                       900, {"PYTHONPATH": str(repo), "CUDA_VISIBLE_DEVICES": ""})
        tail = out.strip().splitlines()[-1] if out.strip() else ""
        if "198 passed" not in tail:
            failed = [l for l in out.splitlines() if l.startswith(("FAILED", "ERROR"))]
            log.append(f"  TESTS: {tail} {[f[:110] for f in failed[:5]]}")
            ok = False
    verif = root / "verif"
    verif.mkdir()
    for name in ("rnv", "run.sh", "vendor", "known_findings.txt"):
        subprocess.run(["cp", "-a", str(VERIF / name), str(verif)], check=True)
    sh(f"sed -i 's#/repo#{repo}#g' run.sh rnv/main.py rnv/checks/c30.py", verif)
    code, out = sh(f"bash run.sh {b['prop']} quick", verif, 900,
                   {"VERIF_SEED": os.environ.get("SEED", "1"), "VERIF_TIER": "quick"})
    lines = [l for l in out.splitlines() if "VIOLATION" in l]
    caught = code == 1 and any(f"property={b['prop']}" in l for l in lines)
    log.append(f"  {'VALID' if ok else 'INVALID'} {'CAUGHT' if caught else 'MISSED'} "
               f"exit={code} {lines[0][:120] if lines else out[-300:]}")
    if caught:
        log.append("    " + " ".join(l for l in out.splitlines()
                                      if l.startswith(("  ", "    ")))[:200])
    if not os.environ.get("KEEP"):
        shutil.rmtree(root, ignore_errors=True)
    return "\n".join(log)


def main():
    spec, ids = sys.argv[1], sys.argv[2:]
    exec(compile(Path(spec).read_text(), spec, "exec"), {"bug": bug})
    todo = [b for b in BUGS if not ids or b["id"] in ids]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as pool:
        for text in pool.map(lambda b: one(b, bool(os.environ.get("NOTESTS"))), todo):
            print(text, flush=True)


main()
