#!/usr/bin/env python3
"""Small changes that break a property: mutants.py FILE.py [name ...]. FILE.py defines M, a list of
(name, property, file, old, new); each is applied to a copy of /repo under /tmp, the tests and the check of its
property run against the copy. One line per mutant: KILLED, SURVIVED, or TESTS (the tests notice)."""
import os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=1500):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", SECRET_KEY="x", **(env or {})),
                           capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def one(m):
    name, prop, f, old, new = m
    d = f"/tmp/mutants/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mutants", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    p = os.path.join(d, f)
    s = open(p).read()
    if old not in s:
        shutil.rmtree(d)
        return f"{name} {prop} OLD TEXT NOT FOUND"
    open(p, "w").write(s.replace(old, new))
    t, ot = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov"], d, dict(PYTHONPATH=d))
    if t:
        r = "TESTS " + ot.strip().splitlines()[-1][:80]
    else:
        v, ov = sh(["python3", os.path.join(ROOT, "harness/run_check.py"), prop], ROOT,
                   dict(VERIF_REPO=d, VERIF_EVIDENCE=f"/tmp/mutants/{name}.ev", VERIF_WORKERS="4"))
        lines = ov.splitlines()
        r = {0: "SURVIVED", 1: "KILLED"}.get(v, f"NO ANSWER {v}") + " " + (lines[0][:150] if lines else "")
    shutil.rmtree(d, ignore_errors=True)
    return f"{name} {prop} {r}"


M = runpy.run_path(sys.argv[1])["M"]
want = sys.argv[2:]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [m for m in M if not want or m[0] in want]):
        print(r, flush=True)
