"""Rewrites the tables of defects and planted bugs in DESIGN.md."""
import glob, json, os

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
s = open("DESIGN.md").read()
a, b = s.index("* C14 7f97f54"), s.index("\nNot repaired and not claimed")
s = s[:a] + "".join(
    f"* {f['property']} {f['commit']}: {f['what'].split(f['commit'], 1)[1].strip()}\n" for f in json.load(open("known_findings.json"))["findings"]
) + s[b:]
a = s.index("| bug | check |")
t = "| bug | check | what breaks |\n|---|---|---|\n"
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    t += f"| {d.split('/')[1]} | {m['property']} | {m['what_it_breaks']} |\n"
open("DESIGN.md", "w").write(s[:a] + t)
