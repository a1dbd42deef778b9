"""Rewrites the table of planted bugs in DESIGN.md."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    files = re.findall(r"^\+\+\+ b/artist/(\S+)", (d / "patch.diff").read_text(), re.M)
    rows.append(f"| {d.name} | {', '.join(files)} | {m['needs']} | {m['property']} |")
text = "Planted bugs; every one is caught by the quick check of its own property.\n\n| change | file | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
p = root / "DESIGN.md"
p.write_text(re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: f"<!-- planted -->\n{text}\n<!-- /planted -->", p.read_text(), flags=re.S))
