"""Prints the table of section 4 of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, pathlib
print("| change | property = check that catches it | what it breaks |\n|---|---|---|")
for d in sorted((pathlib.Path(__file__).parent.parent / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['property']} | {m['what_it_breaks']} |")
