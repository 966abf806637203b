"""Writes DESIGN.md from tools/design.txt, properties.jsonl, known_findings.txt and seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = lambda *a: os.path.join(HERE, *a)
src = open(P("tools/design.txt")).read()
titles = {d["id"]: d["title"] for d in map(json.loads, open(P("properties.jsonl")))}
man = json.load(open(P("MANIFEST.json")))
claimed = [c["property"] for c in man["checks"]]
head, _, rest = src.partition("@@PROPS@@\n")
props, _, tail = rest.partition("@@END@@\n")
sections = {}
for part in props.split("### ")[1:]:
    k, _, body = part.partition("\n")
    sections[k.strip()] = body.strip()
out = []
for i in titles:
    if i in claimed:
        assert i in sections, i
        out.append("### %s %s\n%s\n" % (i, titles[i], sections[i]))
out.append("### Not applicable\n")
for x in man["not_applicable"]:
    out.append("* **%s** %s: %s" % (x["property"], titles[x["property"]], x["reason"]))
known = [l for l in open(P("known_findings.txt")).read().splitlines() if l.startswith(("known:", "fixed:"))]
kf = []
for l in known:
    kind, _, r = l.partition(": ")
    pid = r.split()[0].split("=")[1]
    if kind == "fixed":
        kf.append("* %s fixed in %s: %s" % (pid, r.split()[1], " ".join(r.split()[2:])))
    else:
        kf.append("* %s **recorded, not repaired**: %s" % (pid, r.partition(" :: ")[2]))
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
cell = lambda s: " ".join(str(s).split()).replace("|", "/")
for s in sorted(os.listdir(P("seeded"))):
    m = json.load(open(P("seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, cell(m["what_it_breaks"]), cell(m["needs"]), m.get("caught_by", m["property"])))
t = head + "\n".join(out) + "\n" + tail
t = t.replace("@@DEFECTS@@", "\n".join(kf)).replace("@@SEEDS@@", "\n".join(rows))
open(P("DESIGN.md"), "w").write(t)
