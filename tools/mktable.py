"""Appends the table of planted bugs to DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"P01-ds-store", "P08-wrapped", "P03-norecurse-resume", "P09-many", "P13-unmute"}
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
MARK = "| bug | caught by |"
s = s.split(MARK)[0]
s += MARK + " what it breaks | needs |\n|---|---|---|---|\n"
extra = os.path.join(V, "tools", "missed.txt")
if os.path.exists(extra):
    MISSED |= set(open(extra).read().split())
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    f = lambda t: " ".join(t.replace("|", "/").split())
    s += f"| {d}{' (first missed)' if d in MISSED else ''} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} |\n"
open(p, "w").write(s)
