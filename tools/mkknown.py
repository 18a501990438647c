"""Writes known_findings.txt: fixed entries (hashes looked up by subject) and the known ones of tools/known.txt."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {}
for line in open(os.path.join(HERE, "tools", "fixed.txt"), encoding="utf-8"):
    if line.strip():
        prop, *subj, what = [x.strip() for x in line.split("|")]
        subj = " | ".join(subj)
        PROPS[subj] = (prop, what)
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "d6b527d..HEAD"], text=True, stdout=subprocess.PIPE).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    s = s.removeprefix("fix: ")
    if s not in PROPS:
        print("MISSING in fixed.txt:", s); continue
    p, w = PROPS.pop(s)
    out.append(f"fixed: property={p} {h} {w}")
for s in PROPS: print("NOT in git log:", s)
kn = os.path.join(HERE, "tools", "known.txt")
if os.path.exists(kn):
    out += [l.rstrip() for l in open(kn, encoding="utf-8") if l.strip()]
open(os.path.join(HERE, "known_findings.txt"), "w", encoding="utf-8").write("\n".join(out) + "\n")
print(len(out), "entries")
