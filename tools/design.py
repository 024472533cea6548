"""Writes DESIGN.md: run with python3-vt -B tools/design.py after tools/props.py"""
import importlib
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT / "checks"), str(ROOT / "lib")]
out = [(ROOT / "tools" / "design_head.md").read_text()]
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    pid = p["id"]
    out.append(f"### {pid} {p['title']}\n\n{p['statement']}\n")
    out.append(f"*Over* ({', '.join(p['quantifier']['over'])}): {p['quantifier']['text']}. *Beyond the tests:* {p['why_tests_cant']}\n")
    try:
        g = importlib.import_module(pid.lower() + "_gen")
    except ModuleNotFoundError:
        out.append("No check yet.\n")
        continue
    out.append(f"*Generated and compared:* {g.RULE}\n")
    if g.ASSUMPTIONS:
        out.append("*Assumes:* " + "; ".join(g.ASSUMPTIONS) + ".\n")
    if isinstance(g.KINDS, list):
        c = ", ".join(f"{v['kind']} {v['quick']} / {v['thorough']}" for v in g.KINDS)
    else:
        c = ""
    out.append(f"*Cases (quick / thorough):* {c}.\n" if c else "")
sys.path.insert(0, str(ROOT / "tools"))
from planted import table

out.append((ROOT / "tools" / "design_tail.md").read_text().replace("@PLANTED@", table()))
known = json.loads((ROOT / "known_findings.json").read_text())
out.append("\n## Defects found in resistics\n\nRepaired (`fix:` commits in /repo; the check of the property fails without the commit):\n\n")
out += ["* " + f[len("fixed: "):] for f in sorted(known["fixed"])]
out.append("\nRecorded, not repaired:\n")
out += [f"* property={f['property']} {f['id']}: {f['what']}" for f in known["findings"]] or ["* none"]
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
