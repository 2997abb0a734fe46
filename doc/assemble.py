"""puts DESIGN.md together: python doc/assemble.py"""
import json
import pathlib

here = pathlib.Path(__file__).parent
root = here.parent
fixed = sum(line.startswith("fixed:") for line in
            (root / "known_findings.txt").read_text().splitlines())
more = json.loads((here / "strengthened.json").read_text())
rows = []
for path in sorted((root / "seeded").glob("*/meta.json")):
    meta, name = json.loads(path.read_text()), path.parent.name
    rows.append(f"| {name} | {meta['needs']} | {meta['property']} | "
                f"{more.get(name, '')} |")
missing = set(more) - {p.parent.name for p in
                       (root / "seeded").glob("*/meta.json")}
assert not missing, missing
text = "\n".join((here / f"{p}.md").read_text()
                 for p in ("head", "props", "mid"))
text = text.replace("{fixed}", str(fixed))
text += f"""
## Seeded bugs

{len(rows)} changes were planted, each written from a property and the code,
with a demonstration; each is caught by the quick check of its property. Those
with an entry in the last column were missed at first, and the check was
strengthened as it says.

| bug | needs | caught by | the check first had to learn |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
(root / "DESIGN.md").write_text(text)
