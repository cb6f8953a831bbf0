#!/usr/bin/env python3
"""Systematic mutants of a source file, run against a list of checks (first alarm wins).

mutate.py FILE CHECKS(comma) [--lines a-b] [--every n] [--skip n] [--jobs n]
Survivors are printed for review (they are equivalent, or a gap of the checks).
"""
import ast
import os
import pathlib
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parents[1]


def opt(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


SWAP = {
    ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
    ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in",
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "*"}


def mutants(src):
    tree = ast.parse(src)
    seg = lambda n: ast.get_source_segment(src, n)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
            if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(n.body[0])
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield n, f"({seg(n.left)} {SWAP[type(n.ops[0])]} {seg(n.comparators[0])})"
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            yield n, "(" + o.join(f"({seg(v)})" for v in n.values) + ")"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield n, f"({seg(n.operand)})"
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield n, f"(({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)}))"
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            yield n, str(not n.value) if type(n.value) is bool else f"({n.value} + 1)"
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and n not in docs:
            yield n, "pass"
        elif isinstance(n, ast.Return) and n.value is not None:
            yield n, "return None"
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield n.test, "True"
            yield n.test, "False"


def apply(src, n, new):
    lines = src.split("\n")
    off = lambda l, c: sum(len(x) + 1 for x in lines[: l - 1]) + len(lines[l - 1].encode()[:c].decode())
    a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    return src[:a] + new + src[b:]


def run(job):
    k, n, new, text, old = job
    with tempfile.TemporaryDirectory() as d:
        wt = pathlib.Path(d) / "wt"
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", str(wt)], check=True)
        vf = pathlib.Path(d) / "v"
        vf.mkdir()
        for x in ("checks", "lib", "run.py", "known_findings.jsonl", "properties.jsonl", "MANIFEST.json"):
            subprocess.run(["cp", "-r", str(ROOT / x), str(vf)], check=True)
        (wt / "src/rt1_model" / sys.argv[1]).write_text(text)
        env = dict(os.environ, VERIF_REPO_SRC=str(wt / "src"), VERIF_SEED="1", VERIF_TIER="quick",
                   VERIF_JOBS=opt("--cj", "2"))
        t = time.time()
        for c in sys.argv[2].split(","):
            try:
                p = subprocess.run([sys.executable, str(vf / "run.py"), c], env=env, capture_output=True, text=True, timeout=900)
                if p.returncode:
                    return f"killed by {c} {time.time() - t:.0f}s L{n.lineno} {old!r} -> {new!r}"
            except subprocess.TimeoutExpired:
                return f"killed by {c} (timeout) L{n.lineno} {old!r} -> {new!r}"
        return f"SURVIVED {time.time() - t:.0f}s L{n.lineno} {old!r} -> {new!r}"


def main():
    src = pathlib.Path("/repo/src/rt1_model", sys.argv[1]).read_text()
    a, b = map(int, opt("--lines", "0-100000").split("-"))
    jobs, seen = [], set()
    for n, new in mutants(src):
        if not a <= n.lineno <= b:
            continue
        try:
            text = apply(src, n, new)
            ast.parse(text)
        except SyntaxError:
            continue
        if text in seen or text == src:
            continue
        seen.add(text)
        jobs.append((len(jobs), n, new, text, (ast.get_source_segment(src, n) or "")[:80]))
    every, skip = int(opt("--every", "1")), int(opt("--skip", "0"))
    jobs = jobs[skip::every]
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(int(opt("--jobs", "3"))) as ex:
        for r in ex.map(run, jobs):
            print(r, flush=True)


main()
