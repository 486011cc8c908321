"""Put the table of planted bugs into DESIGN.md from seeded/*/meta.json and a log of /tmp/cb.sh-like runs: `id prop rc=N ...` per line."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
store = os.path.join(V, "tools", "caught.json")
caught = json.load(open(store)) if os.path.exists(store) else {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(c\d\d-\S+) (C\d\d) rc=(\d)", l)
        if m:
            caught[m.group(1)] = int(m.group(3))
ids = sorted(os.listdir(os.path.join(V, "seeded")))
caught = {k: v for k, v in caught.items() if k in ids}
json.dump(caught, open(store, "w"), indent=0, sort_keys=True)
rows = ["| planted bug | property | what it breaks | caught |", "|---|---|---|---|"]
for i in ids:
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    c = caught.get(i)
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), {1: "yes", 0: "no", None: "not run", 2: "no answer"}[c]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a = s.index("## Planted bugs"); a = s.index("\n\n", a) + 2
b = s.index("## False alarms")
open(p, "w").write(s[:a] + "\n".join(rows) + "\n\n" + s[b:])
print(sum(v == 1 for v in caught.values()), "of", len(ids))
