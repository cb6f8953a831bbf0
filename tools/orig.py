#!/usr/bin/env python3
"""Which planted bugs change (remove) code lines of the original repository?"""
import pathlib, re, subprocess
ROOT = pathlib.Path(__file__).resolve().parents[1]
for d in sorted((ROOT / "seeded").iterdir()):
    txt = (d / "patch.diff").read_text()
    n = orig = 0
    f = line = None
    blame = {}
    for l in txt.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame = {int(x.split(")")[0].split()[-1]): x for x in subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()}
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            code = l[1:].strip()
            if code and not code.startswith("#") and "35d9e56" in blame[line][:9]:
                orig += 1
            line += 1
        elif l.startswith(" "):
            line += 1
    if not orig:
        print(d.name, "removed", n, "original", orig)
