#!/usr/bin/env python3
"""Create /verif/seeded/<id>/ from the bug definitions of a python file.

plant.py DEFS.py [ids...]   DEFS: list B of dict(id, property, needs, breaks, edits, demo)
edits: list of (file below src/rt1_model, old text, new text)
demo: python source (exit code != 0 / exception if the property is broken)
"""
import json
import pathlib
import runpy
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parents[1]
DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export MPLCONFIGDIR="$work"
PYTHONPATH="$PWD/src" timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def sh(*a, cwd=None, ok=True):
    p = subprocess.run(a, cwd=cwd, text=True, capture_output=True)
    if ok and p.returncode:
        raise SystemExit(f"{a}: {p.stdout}{p.stderr}")
    return p


def main():
    bugs = runpy.run_path(sys.argv[1])["B"]
    want = set(sys.argv[2:])
    orig = sh("git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD").stdout.strip()
    with tempfile.TemporaryDirectory() as d:
        wt = pathlib.Path(d) / "wt"
        sh("git", "clone", "-q", "--shared", "/repo", str(wt))
        for b in bugs:
            if want and b["id"] not in want:
                continue
            sh("git", "checkout", "-q", "--", ".", cwd=wt)
            for f, old, new in b["edits"]:
                p = wt / "src/rt1_model" / f
                s = p.read_text()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                p.write_text(s.replace(old, new))
            diff = sh("git", "diff", cwd=wt).stdout
            out = ROOT / "seeded" / b["id"]
            out.mkdir(parents=True, exist_ok=True)
            (out / "patch.diff").write_text(diff)
            (out / "demo.sh").write_text(DEMO_SH)
            (out / "demo.sh").chmod(0o755)
            (out / "demo.py").write_text(b["demo"].lstrip("\n"))
            (out / "meta.json").write_text(
                json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n"
            )
            bad = sh("bash", str(out / "demo.sh"), cwd=wt, ok=False)
            sh("git", "checkout", "-q", "--", ".", cwd=wt)
            good = sh("bash", str(out / "demo.sh"), cwd=wt, ok=False)
            st = "ok" if bad.returncode and not good.returncode else "BAD DEMO"
            print(b["id"], b["property"], st, "patched:", bad.returncode, (bad.stderr.strip().splitlines() or [""])[-1][:110],
                  "clean:", good.returncode, (good.stderr.strip().splitlines() or [""])[-1][:110])


main()
