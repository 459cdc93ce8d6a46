"""Puts DESIGN.md together (run after gen.py)."""
import ast, json, sys
from pathlib import Path
here = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(here))
import table
N = {}
for n in here.glob("checks/*.py"):
    tree = ast.parse(n.read_text())
    d = {"doc": ast.get_docstring(tree), "lines": len(n.read_text().splitlines())}
    for s in tree.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                names = [e.id for e in t.elts] if isinstance(t, ast.Tuple) else [getattr(t, "id", "")]
                vals = s.value.elts if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) else [s.value]
                for a, v in zip(names, vals):
                    if a in ("RULE", "ASSUMPTIONS", "LEVEL"):
                        try:
                            d[a] = ast.literal_eval(v)
                        except ValueError:
                            pass
    N[n.stem] = d
seeds = [(p.parent.name, json.loads(p.read_text())) for p in sorted(here.glob("seeded/*/meta.json"))]
out = [(here / "tools/design_head.md").read_text(), "\n## 2. The properties\n"]
for p in table.PROPS:
    c = N[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Specified.* {p['statement']}\n")
    out.append(f"*Decided by.* {p['technique']} (`checks/{p['id']}.py`). Enumerated: {c.get('RULE', '')}\n")
    out.append(f"*Bounds.* {p['note']}\n")
    if c.get("ASSUMPTIONS"):
        out.append("*Assumed.* " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
    out.append(f"*Why tests do not settle it.* {p['why_tests_cant']}\n")
    out.append("*Anchors.* " + ", ".join(f"{m['name']} ({m['where']})" for m in p["anchors"]["mechanism"]) + "\n")
    s = [n for n, m in seeds if m["property"] == p["id"]]
    if s:
        out.append("*Planted bugs caught.* " + ", ".join(s) + "\n")
out.append("## 3. Planted bugs\n\nEach was written from a property and the code, checked to build, to pass the tests and to fail its demonstration, and is caught by its property's quick check unless said otherwise.\n")
out.append("| bug | property | breaks | needs | caught |\n|---|---|---|---|---|")
for n, m in seeds:
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught', 'yes')} |")
out.append("\n## 4. Defects found in PyFHD and repaired\n\nEach is its own `fix:` commit in /repo; the check named reported it before, and would again. No finding is left unrepaired in `known_findings.json`.\n")
for l in json.loads((here / "known_findings.json").read_text())["fixed"]:
    _, p, h, s = l.split(" ", 3)
    out.append(f"* {p.split('=')[1]} `{h}` {s}")
out.append("\n" + (here / "tools/design_tail.md").read_text())
(here / "DESIGN.md").write_text("\n".join(out))
print(sum(len(o) for o in out))
