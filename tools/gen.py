"""Writes properties.jsonl, specs.json and MANIFEST.json from one description."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
SHIM = "python/qugar/dolfinx/_shim/__init__.py"
SHIMCPP = "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"

PROPS = []      # (property record, spec or None, not-applicable reason or None, technique, note)


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None,
      spec=None, na=None, technique="deterministic simulation with fault injection (seeded schedules)", level="exploration", note=""):
    rec = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
           "why_tests_cant": why,
           "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                       "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                       "observe_at": list(observe), "hook_needed": hook}}
    assert len(title) <= 80, (id, len(title))
    PROPS.append((rec, spec, na, technique, level, note))


exec((HERE / "tools" / "props.py").read_text())


def main():
    with open(HERE / "properties.jsonl", "w") as f:
        for rec, *_ in PROPS:
            f.write(json.dumps(rec) + "\n")
    specs, checks, na = {}, [], []
    for rec, spec, why, tech, level, note in PROPS:
        i = rec["id"]
        if spec is None:
            na.append({"property": i, "reason": why})
            continue
        specs[i] = dict({"salt": i}, property=i, level=level, **spec)
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": tech, "level": level, "level_note": note})
    (HERE / "specs.json").write_text(json.dumps(specs, indent=1) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh", "hooks": HOOKS, "checks": checks, "not_applicable": na}
    if not HOOKS:
        man.pop("hooks")
    (HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    design(na)


def design(na):
    fixed = [x[len("fixed: property="):].split(" ", 2) for x in (HERE / "known-findings.txt").read_text().splitlines() if x.startswith("fixed: ")]
    seeds = sorted((json.loads(m.read_text()) | {"id": m.parent.name} for m in (HERE / "seeded").glob("*/meta.json")), key=lambda m: (m["property"], m["id"]))
    cut = lambda s: " ".join(s.split()).replace("|", "/")
    parts = {
        "NA": "\n".join(f"* **{n['property']}**: {n['reason']}" for n in na),
        "FIXED": "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(f"| {a} | {b} | {cut(c)} |" for a, b, c in fixed),
        "SEEDS": "| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(
            f"| `{m['id']}` | {m['property']} | {cut(m['needs'])} | {cut(m['what_it_breaks'])} |" for m in seeds)}
    s = (HERE / "tools" / "DESIGN.in.md").read_text()
    for k, v in parts.items():
        s = s.replace(f"@@{k}@@", v)
    assert "@@" not in s, s[s.index("@@"):][:40]
    (HERE / "DESIGN.md").write_text(s)


main()
