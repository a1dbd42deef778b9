"""Writes MANIFEST.json for all property modules present in pbt/."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((V / "tools/level_notes.json").read_text())
checks, missing = [], []
for p in props:
    i = p["id"]
    if (V / f"pbt/{i.lower()}.py").exists():
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                           technique="property-based testing (Hypothesis, generated inputs/histories) against " + NOTES[i],
                           level="exploration",
                           level_note="Random structured search with shrinking; no violation found is evidence, not proof."))
    else:
        missing.append(dict(property=i, reason="check still under construction"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=missing,
         notes="All checks run from /verif against /repo's working tree; no hooks in /repo are needed.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(missing), "missing")
