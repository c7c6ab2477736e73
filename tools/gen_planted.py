"""The list of planted changes per property in DESIGN.md, from seeded/*/meta.json."""
import collections, json, os, re, textwrap
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for d in sorted(os.listdir(root + "/seeded")):
    by[json.load(open(f"{root}/seeded/{d}/meta.json"))["property"]].append(d)
lines = []
for p in sorted(by):
    lines += textwrap.wrap(f"* {p}: " + ", ".join(by[p]) + ".", 100, subsequent_indent="  ", break_on_hyphens=False)
text = open(root + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = text.index(a) + len(a), text.index(b)
open(root + "/DESIGN.md", "w").write(text[:i] + "\n".join(lines) + "\n" + text[j:])
