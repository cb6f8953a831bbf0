#!/usr/bin/env python3
"""Run the planted bugs in scratch clones: catch.py [--tests] [--all] [ids...]

default: run the quick check of the property of each bug (must exit 1);
--tests: run the stable tests instead; --all: run every check (which ones notice the bug).
Writes tools/catch.json.
"""
import json
import os
import pathlib
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parents[1]
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(p.name for p in (ROOT / "seeded").iterdir())
tests, alls = "--tests" in sys.argv, "--all" in sys.argv
manifest = json.loads((ROOT / "MANIFEST.json").read_text())
claimed = [c["property"] for c in manifest["checks"]]
store = ROOT / "tools" / "catch.json"
res = json.loads(store.read_text()) if store.exists() else {}
for i in ids:
    with tempfile.TemporaryDirectory() as d:
        wt = pathlib.Path(d) / "wt"
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", str(wt)], check=True)
        subprocess.run(["git", "apply", str(ROOT / "seeded" / i / "patch.diff")], cwd=wt, check=True)
        meta = json.loads((ROOT / "seeded" / i / "meta.json").read_text())
        env = dict(os.environ, VERIF_REPO_SRC=str(wt / "src"), VERIF_SEED="1", VERIF_TIER="quick")
        if tests:
            env.update(PYTHONPATH=str(wt / "src"), MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
                       PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=d)
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--tb=line",
                                "-n", "8", "--timeout=240", "--deselect", "tests/test_notebooks.py::TestNotebooks::test_notebook[sympy-number_of_expansion_coefficients]",
                                "-k", "not (number_of_expansion_coefficients and sympy)"],
                               cwd=wt, env=env, text=True, capture_output=True)
            print(i, "tests", p.returncode, p.stdout.strip().splitlines()[-1:], flush=True)
            if p.returncode:
                print("\n".join(l for l in p.stdout.splitlines() if "FAILED" in l)[:1500], flush=True)
            continue
        for c in claimed if alls else [meta["property"]]:
            t = time.time()
            p = subprocess.run(["python3", "run.py", c, "quick"], cwd=ROOT, env=env, text=True, capture_output=True)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            ok = p.returncode == 1 and any(f"property={c} " in l for l in v)
            res.setdefault(i, {})[c] = bool(ok)
            store.parent.mkdir(exist_ok=True)
            store.write_text(json.dumps(res, indent=1, sort_keys=True))
            if ok or c == meta["property"] or p.returncode not in (0, 1):
                print(i, c, "CAUGHT" if ok else f"missed rc={p.returncode}", f"{time.time()-t:.0f}s", len(v), flush=True)
                if p.returncode not in (0, 1):
                    print(p.stdout[-500:], p.stderr[-1500:], flush=True)
