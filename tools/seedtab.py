"""regenerate the seeded table inside tools/design_tail.md"""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
MISS = set((V/"tools/missed.txt").read_text().split())
rows = ["| seeded change | breaks | needs | check |", "|---|---|---|---|"]
for d in sorted((V/"seeded").iterdir()):
    m = json.load(open(d/"meta.json"))
    q = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append(f"| `{d.name}` | {q(m['what_it_breaks'])} | {q(m['needs'])} | {m['property']}{' (missed at first, check strengthened)' if d.name in MISS else ''} |")
head = (V/"tools/tail_head.md").read_text()
(V/"tools/design_tail.md").write_text(head.replace("@@TABLE@@", "\n".join(rows)))
print(len(rows)-2)
