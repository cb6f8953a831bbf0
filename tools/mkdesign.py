#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the checks, the findings and the planted bugs."""
import importlib
import json
import os
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parents[1]
if os.environ.get("_D") != "1":
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", __file__],
              dict(os.environ, _D="1", MPLBACKEND="Agg", PYTHONPATH=f"/repo/src:{ROOT}/lib:{ROOT}", OMP_NUM_THREADS="1"))

man = {c["property"]: c for c in json.loads((ROOT / "MANIFEST.json").read_text())["checks"]}
na = {c["property"]: c["reason"] for c in json.loads((ROOT / "MANIFEST.json").read_text())["not_applicable"]}
out = [(ROOT / "tools/design_head.md").read_text().rstrip(), "", "## Properties", ""]
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if i in na:
        out += [f"Not claimed: {na[i]}.", ""]
        continue
    mod = importlib.import_module("checks." + i.lower())
    doc = (mod.__doc__ or "").strip().split("\n", 1)
    b = mod.BOUND
    ev = ROOT / "evidence" / f"{i}.json"
    out += [(doc[1].strip() if len(doc) > 1 else ""), "",
            f"* technique: {man[i]['technique']}",
            f"* bound (quick): {b['quick']}",
            f"* bound (thorough): {b['thorough']}",
            f"* trust/limits: {man[i]['level_note']}"]
    out += [""]
out += ["## Findings in rt1_model", "",
        "All were found (or confirmed) by the checks on the original tree.  Repaired defects are "
        "`fix:` commits in /repo; the entries below are generated from known_findings.jsonl.", ""]
for line in (ROOT / "known_findings.jsonl").read_text().splitlines():
    d = json.loads(line)
    if d["status"] == "fixed":
        out.append(f"* {d['entry']}")
    else:
        out.append(f"* **known** ({d['property']}, key `{d['key']}`): {d['what']}")
out += ["", (ROOT / "tools/design_tail.md").read_text().rstrip(), "", "## Planted bugs", "",
        "`seeded/<id>` (generated by tools/plant.py from tools/bugs*.py; tools/catch.py runs them "
        "in scratch clones).  Every one passes the stable tests.  Column \"also\": other checks "
        "that notice it, where all of them were run.", "",
        "| id | property | breaks | needs | caught by its check | also |", "|---|---|---|---|---|---|"]
cf = ROOT / "tools" / "catch.json"
res = json.loads(cf.read_text()) if cf.exists() else {}
for d in sorted((ROOT / "seeded").iterdir()):
    if not (d / "meta.json").exists():
        continue
    m = json.loads((d / "meta.json").read_text())
    r = res.get(d.name, {})
    c = r.get(m["property"])
    also = ", ".join(k for k, v in sorted(r.items()) if v and k != m["property"])
    out.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | "
               f"{'yes' if c else 'not run' if c is None else 'no'} | {also} |")
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
print(len(out))
