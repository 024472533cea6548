"""The table of planted bugs in DESIGN.md; planted.json names what had to be added to a check first"""
import json
from pathlib import Path

here = Path(__file__).resolve().parent


def table():
    late = json.loads((here / "planted.json").read_text())
    out = [
        "Every bug below passes all tests, has a demonstration, and is caught by the quick check of its property. Where the",
        "last column says so, the check missed it at first and was strengthened in general terms, as described.",
        "",
        "| bug | needs | breaks | check | strengthened |",
        "|---|---|---|---|---|",
    ]
    for p in sorted((here.parent / "seeded").iterdir()):
        m = json.loads((p / "meta.json").read_text())
        row = [p.name, m["needs"], m["what_it_breaks"], m["property"], late.get(p.name, "")]
        out.append("| " + " | ".join(x.replace("|", "\\|").replace("\n", " ") for x in row) + " |")
    return "\n".join(out)
