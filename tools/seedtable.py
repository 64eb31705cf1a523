"""seedtable.py LOG..: the table of planted changes in DESIGN.md, from confirm.sh's output lines."""
import glob, json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
c = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+): demo .* check 1:.*event (\S+) clause (\S+)", l)
        if m:
            c[m[1]] = f"`{m[2]}` {m[3]}"
rows = []
for d in sorted(glob.glob(V + "/seeded/*")):
    k, m = os.path.basename(d), json.load(open(d + "/meta.json"))
    rows.append((m["property"], k, m["needs"], c.get(k, "?")))
tab = "| | change | needs | rejected by |\n|---|---|---|---|\n" + "\n".join("| " + " | ".join(r) + " |" for r in sorted(rows))
p = V + "/DESIGN.md"
t = open(p).read()
t = t.replace("SEEDTABLE", tab) if "SEEDTABLE" in t else re.sub(r"\| \| change \|.*?\n\n", lambda _: tab + "\n\n", t, flags=re.S)
open(p, "w").write(t)
