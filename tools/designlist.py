"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
lines = open("DESIGN.md").read().split("\n")
idx = [i for i, l in enumerate(lines) if re.match(r"\* `c\d\d-[a-z0-9-]+` \(C\d\d\)", l)]
new = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    new.append("* `%s` (%s): %s" % (d, m["property"], m["what_it_breaks"]))
lines[idx[0]:idx[-1] + 1] = new
open("DESIGN.md", "w").write("\n".join(lines))
print(len(idx), "->", len(new))
