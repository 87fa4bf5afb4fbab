"""Development tool: systematic small changes that the checks should notice.

mutate.py list [FILE ...]             print the number of mutants
mutate.py run OUT FRACTION [FILE ...] try a random fraction; append survivors to OUT
Every mutant is tried in a scratch copy against the checks of its file (no tests).
"""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

VERIF = Path(__file__).resolve().parents[1]
SCRATCH = Path("/tmp/mutate")
CHECKS = {
    "constants.py": "C01 C17",
    "exceptions.py": "C26 C13 C10",
    "dynamics/_phonon.py": "C17 C20 C26 C21 C25",
    "dynamics/_trajectory.py": "C20 C18 C26 C21",
    "io/_utils.py": "C05 C06 C07 C03 C16 C26 C13",
    "io/generic.py": "C04 C03 C01 C07 C06 C16 C26",
    "io/pymatgen.py": "C25 C07 C16 C20 C26 C13",
    "io/vasp/outcar.py": "C03 C05 C04 C07 C26",
    "io/vasp/vasprun.py": "C04 C05 C07 C26",
    "io/vasp/poscar.py": "C02 C01 C05 C06 C26 C10",
    "io/vasp/xdatcar.py": "C02 C01 C05 C06 C26",
    "structure/utils.py": "C08 C09 C20 C26 C10",
    "structure/_symmetry_utils.py": "C13 C12 C09 C26",
    "structure/_reference.py": "C09 C08 C12 C21 C26 C25",
    "structure/_displace.py": "C10 C06 C26",
    "spectrum/utils.py": "C19 C18 C26 C21",
    "spectrum/_raman.py": "C17 C18 C19 C26 C21",
    "pmodel/_interpolation.py": "C11 C13 C14 C16 C12 C26 C21 C15",
    "pmodel/_art.py": "C15 C13 C16 C14 C12 C26 C21",
    "pmodel/torch/_gnn.py": "C23 C24 C26 C21",
    "pmodel/torch/_train.py": "C24 C26",
    "pmodel/torch/_utils.py": "C23 C24 C26",
    "dataset/torch/_dataset.py": "C22 C07 C24 C21 C26",
    "dataset/torch/utils.py": "C22 C07 C26",
}
DRIVE = '''
import importlib, multiprocessing, os, sys, tempfile, time
import rnv.main as main
props = sys.argv[1:]
try:
    core, _ = main._load(props[0])
    items = []
    for p in props:
        importlib.import_module(f"rnv.checks.{p.lower()}")
        items += [(p, k) for k in range(len(core.REGISTRY[p]))]
except Exception as exc:
    print("KILLED import", repr(exc)[:100]); sys.exit(0)
original = core.run_case
import hypothesis
def run_case(item, case, limit_s=60):
    try:
        return original(item, case, limit_s)
    except (hypothesis.errors.UnsatisfiedAssumption, core.HarnessError, MemoryError):
        raise
    except Exception as exc:
        with open("failed", "w") as f:
            f.write(f"{type(exc).__name__}: {exc}"[:200])
        os._exit(7)
core.run_case = run_case
core.QUICK_FACTOR.clear()
ctx = multiprocessing.get_context("fork")
killed = None
errors = []
with tempfile.TemporaryDirectory(prefix="mut-") as scratch:
    waiting, running = list(items), {}
    while (waiting or running) and not killed:
        while waiting and len(running) < int(os.environ["INNER"]):
            p, k = waiting.pop(0)
            out = f"{scratch}/{p}.{k}"
            q = ctx.Process(target=main._worker, args=(p, k, "quick", 1, 1, 1, 45, out))
            q.start(); running[q] = (p, k, out, time.time())
        time.sleep(0.02)
        for q in list(running):
            p, k, out, t = running[q]
            if q.is_alive() and time.time() - t < 200:
                continue
            del running[q]
            if q.is_alive():
                q.kill(); q.join(); killed = f"{p} timeout"; break
            q.join()
            if q.exitcode == 7:
                killed = f"{p}/{core.REGISTRY[p][k].name}: " + open(out + ".d/failed").read()
                break
            if q.exitcode in main.CRASHES:
                killed = f"{p} crash"; break
            if not os.path.exists(out):
                errors.append(f"{p}/{k} died {q.exitcode}")
            else:
                import pickle
                r = pickle.load(open(out, "rb"))
                if r["error"]:
                    errors.append(r["error"][-300:])
    for q in running:
        q.kill(); q.join()
if killed:
    print("KILLED", killed)
elif errors:
    print("ERROR", errors)
else:
    print("SURVIVED")
'''


def segments(text):
    """Yield (start, end, new, description) of all mutants of a source."""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            for x in [*a.args, *a.kwonlyargs, *a.posonlyargs, a.vararg, a.kwarg]:
                if x is not None and x.annotation is not None:
                    skip |= {id(m) for m in ast.walk(x.annotation)}
            if n.returns is not None:
                skip |= {id(m) for m in ast.walk(n.returns)}
            if n.name in ("__repr__", "get_type_error", "get_shape_error"):
                skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(m) for m in ast.walk(n.annotation)}
        if isinstance(n, ast.Raise):
            skip |= {id(m) for m in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.Call):
            name = src(n.func).split(".")[-1]
            if name in ("get_type_error", "get_shape_error", "verify_ndarray_shape",
                        "warn", "print", "tqdm", "set_postfix", "TypeVar", "compile_ext_modules"):
                skip |= {id(m) for m in ast.walk(n)} - {id(n)}
    CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="],
           ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
           ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"],
           ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"], ast.MatMult: ["*"],
           ast.BitAnd: ["|"], ast.BitOr: ["&"]}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                yield *span(n), f"{src(n.left)} {new} {src(n.comparators[0])}", n
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                yield *span(n), f"({src(n.left)}) {new} ({src(n.right)})", n
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield *span(n), "(" + op.join(f"({src(v)})" for v in n.values) + ")", n
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                yield *span(n), "(" + op2.join(f"({src(v)})" for v in rest) + ")", n
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                yield *span(n), f"({src(n.operand)})", n
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield *span(n), str(not n.value), n
            elif isinstance(n.value, int):
                yield *span(n), str(n.value + 1), n
                if n.value > 0:
                    yield *span(n), str(n.value - 1), n
            elif isinstance(n.value, float):
                yield *span(n), repr(n.value * 1.01 + 0.0), n
                yield *span(n), repr(n.value * 30), n
                yield *span(n), repr(n.value / 30), n
        elif isinstance(n, ast.Call) and n.args and not isinstance(n.args[0], ast.Starred):
            name = src(n.func)
            if name in ("isinstance", "issubclass", "len", "TypeVar", "tqdm"):
                continue
            if isinstance(n.args[0], (ast.Constant, ast.GeneratorExp)):
                continue
            yield *span(n), f"({src(n.args[0])})", n
            for k in n.keywords:
                if k.arg:
                    parts = [src(a) for a in n.args]
                    parts += [f"{q.arg}={src(q.value)}" for q in n.keywords if q is not k and q.arg]
                    yield *span(n), f"{name}({', '.join(parts)})", n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not n.args:
            yield *span(n), src(n.func.value), n
        elif isinstance(n, (ast.If, ast.While)):
            yield *span(n.test), "True", n.test
            yield *span(n.test), "False", n.test
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete, ast.Break, ast.Continue)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            yield *span(n), "pass", n
        elif isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                yield *span(n), "pass", n
        elif isinstance(n, ast.Raise):
            yield *span(n), "pass", n
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield *span(n.lower), f"({src(n.lower)}) + 1", n.lower
            if n.upper is not None:
                yield *span(n.upper), f"({src(n.upper)}) - 1", n.upper
        elif isinstance(n, ast.IfExp):
            yield *span(n), f"({src(n.body)})", n
            yield *span(n), f"({src(n.orelse)})", n


def mutants(name):
    path = Path("/repo/ramannoodle") / name
    text = path.read_text()
    raw = text.encode()
    seen = set()
    for a, b, new, node in segments(text):
        old = raw[a:b].decode()
        if (a, b, new) in seen or new == old:
            continue
        seen.add((a, b, new))
        result = raw[:a] + new.encode() + raw[b:]
        try:
            compile(result, name, "exec")
        except SyntaxError:
            continue
        yield dict(file=name, line=node.lineno, old=old, new=new, text=result.decode())


def main():
    if sys.argv[1] == "list":
        total = 0
        for name in sys.argv[2:] or CHECKS:
            count = len(list(mutants(name)))
            total += count
            print(name, count)
        print(total)
        return
    out, fraction = sys.argv[2], float(sys.argv[3])
    todo = [m for name in sys.argv[4:] or CHECKS for m in mutants(name)]
    rng = random.Random(int(os.environ.get("SEED", "0")))
    rng.shuffle(todo)
    todo = todo[: int(len(todo) * fraction)]
    done = set()
    if Path(out).exists():
        for l in Path(out).read_text().splitlines():
            d = json.loads(l)
            done.add((d["file"], d["line"], d["old"], d["new"]))
    todo = [m for m in todo if (m["file"], m["line"], m["old"], m["new"]) not in done]
    print(len(todo), "mutants", flush=True)
    jobs = int(os.environ.get("JOBS", "4"))
    slots = Queue()
    for k in range(jobs):
        root = SCRATCH / f"{os.getpid()}-{k}"
        shutil.rmtree(root, ignore_errors=True)
        (root / "verif").mkdir(parents=True)
        shutil.copytree("/repo/ramannoodle", root / "repo/ramannoodle",
                        ignore=shutil.ignore_patterns("__pycache__"))
        for n in ("rnv", "vendor"):
            subprocess.run(["cp", "-a", str(VERIF / n), str(root / "verif")], check=True)
        p = root / "verif/rnv/main.py"
        p.write_text(p.read_text().replace('Path("/repo")', f'Path("{root}/repo")'))
        (root / "drive.py").write_text(DRIVE)
        slots.put(root)

    def one(m):
        root = slots.get()
        path = root / "repo/ramannoodle" / m["file"]
        clean = path.read_text()
        start = time.time()
        try:
            path.write_text(m["text"])
            env = dict(os.environ, PYTHONPATH=f"{root}/repo:{root}/verif:{root}/verif/vendor",
                       PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                       CUDA_VISIBLE_DEVICES="", TQDM_DISABLE="1", OMP_NUM_THREADS="1",
                       OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                       INNER=os.environ.get("INNER", "2"))
            r = subprocess.run(["/opt/venv/bin/python", str(root / "drive.py"),
                                *CHECKS[m["file"]].split()], env=env, cwd=root,
                               capture_output=True, text=True, timeout=1800)
            res = (r.stdout.strip().splitlines() or ["NONE " + r.stderr[-200:]])[-1]
        except subprocess.TimeoutExpired:
            res = "KILLED timeout"
        finally:
            path.write_text(clean)
            slots.put(root)
        with open(out, "a") as f:
            f.write(json.dumps({**{k: m[k] for k in ("file", "line", "old", "new")},
                                "result": res[:300], "s": round(time.time() - start)}) + "\n")

    with ThreadPoolExecutor(jobs) as pool:
        list(pool.map(one, todo))
    for root in list(slots.queue):
        shutil.rmtree(root, ignore_errors=True)


main()
