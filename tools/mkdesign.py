"""Development tool: fill the generated tables of DESIGN.md."""
import importlib, json, re, sys
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
sys.path[:0] = ["/repo", str(VERIF), str(VERIF / "vendor")]
from rnv import core  # noqa: E402

rows = ["| property | sub-check | quick | thorough | non-trivial if |", "|--|--|--|--|--|"]
for k in range(1, 33):
    p = f"C{k:02d}"
    importlib.import_module(f"rnv.checks.{p.lower()}")
    for i in core.REGISTRY[p]:
        rows.append(f"| {p} | {i.name} | {i.quick * core.QUICK_FACTOR.get(p, 1)} "
                    f"| {i.thorough} | {i.rule} |")
seeded = ["| bug | caught by | needs | breaks |", "|--|--|--|--|"]
for d in sorted((VERIF / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    seeded.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
path = VERIF / "DESIGN.md"
text = path.read_text()
for name, table in (("subs", rows), ("seeded", seeded)):
    body = "\n".join(t.replace("|--|", "|--|") for t in table)
    text = re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->",
                  lambda _: f"<!-- {name} -->\n{body}\n<!-- /{name} -->", text, flags=re.S)
path.write_text(text)
