"""writes DESIGN.md: fixed text below, plus tables taken from the catalogue, KNOWN_FINDINGS.txt and seeded/"""
import json, os, sys, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path[:0] = ["lib", "lib/rules"]
import catalog
P = {json.loads(l)["id"]: json.loads(l) for l in open("properties.jsonl")}
text = open("tools/design.in.md").read()
def section(i):
    c = catalog.CHECKS.get(i); d = P[i]; out = ["### %s — %s" % (i, d["title"])]
    if c is None: return out[0] + "\n\nNot applicable: " + catalog.NOT_APPLICABLE[i] + "."
    out += ["", "*Decided by* " + c["technique"] + ".", "", c["explanation"], "", "*Rests on:* " + "; ".join(c["assumptions"]) + "."]
    return "\n".join(out)
notes = {}
cur = None
for l in open("tools/design.notes.md"):
    if l.startswith("@"): cur = l[1:].strip(); notes[cur] = []
    elif cur: notes[cur].append(l.rstrip("\n"))
secs = []
for i in sorted(P):
    s = section(i)
    if i in notes: s += "\n\n" + "\n".join(notes[i]).strip()
    secs.append(s)
fixed = [l[7:].strip().split(" ", 2) for l in open("KNOWN_FINDINGS.txt") if l.startswith("fixed: ")]
known = [l.strip() for l in open("KNOWN_FINDINGS.txt") if l.startswith("finding: ")]
ft = "\n".join("| %s | %s | %s |" % (p.split("=")[1], c, w.replace("|", "\\|")) for p, c, w in sorted(fixed))
seeds = []
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); seeds.append("| %s | %s | %s | %s |" % (d.split("/")[1], m["what_it_breaks"], m["needs"], " ".join(m.get("caught_by") or [m["property"]])))
text = text.replace("@@PROPS@@", "\n\n".join(secs)).replace("@@FIXED@@", "| property | commit | what failed |\n|---|---|---|\n" + ft)
text = text.replace("@@KNOWN@@", "\n".join("* `%s`" % k for k in known)).replace("@@SEEDS@@", "| change | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
open("DESIGN.md", "w").write(text)
