"""Render the table of seeded changes for DESIGN.md from seeded/*/meta.json and the output of tools/trybugs.py."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)) + "/../"
caught = {}
for out in sys.argv[1:]:
    cur = None
    for l in open(out):
        l = l.rstrip("\n")
        if l and not l.startswith(" "):
            cur = l.strip()
        else:
            m = re.match(r"\s*(\*?)(C\d+): rc (\d) (?:violated |undecided )?(.*)", l)
            if m and m.group(3) == "1":
                caught.setdefault(cur, []).append((m.group(2), re.sub(r"\s+", " ", m.group(4).split(": ")[0])[:110]))
print("| change | property | what it breaks | caught by: obligation |\n|---|---|---|---|")
for n in sorted(os.listdir(here + "seeded")):
    m = json.load(open(here + "seeded/" + n + "/meta.json"))
    c = "; ".join("%s: %s" % x for x in caught.get(n, [])[:3]) or "**missed**"
    b = re.sub(r"\s+", " ", m["what_it_breaks"]).replace("|", "\\|")
    print("| %s | %s | %s | %s |" % (n, m["property"], b[:200], c.replace("|", "\\|")))
