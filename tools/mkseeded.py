"""Fill the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
R = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], "| %s | `%s`: %s |" % (m["property"], d.name, m["what_it_breaks"])))
t = "\n".join(r for _, r in sorted(rows))
p = R / "DESIGN.md"
s = p.read_text()
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"(\| check \| planted change \|\n\| --- \| --- \|\n)(?:\|.*\n)+", lambda m: m.group(1) + t + "\n", s)
p.write_text(s)
