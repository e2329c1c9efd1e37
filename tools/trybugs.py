#!/usr/bin/env python3
"""Try planted bugs: trybugs.py [id ...]. Each is applied to a copy of /repo under /tmp; its
demonstration, the tests and the check of its property run against the copy."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")


def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", SECRET_KEY="x", **(env or {})),
                           capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def one(i):
    d = f"/tmp/trybugs/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/trybugs", exist_ok=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), d], check=True)
    b = os.path.join(S, i)
    meta = json.load(open(b + "/meta.json"))
    demo = os.path.join(b, "demo.sh")
    a, oa = sh(["bash", demo], d)
    rc, o = sh(["git", "apply", b + "/patch.diff"], d)
    if rc:
        return i, "PATCH DOES NOT APPLY " + o
    c, oc = sh(["bash", demo], d)
    t, ot = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov"], d, dict(PYTHONPATH=d))
    msg = f"{meta['property']} demo {a}->{c}, tests {'pass' if t == 0 else ot[-300:]}"
    if a:
        msg += "\n" + oa[-500:]
    if "--nocheck" not in sys.argv:
        v, ov = sh(["python3", os.path.join(ROOT, "harness/run_check.py"), meta["property"]], ROOT,
                   dict(VERIF_REPO=d, VERIF_EVIDENCE=f"/tmp/trybugs/{i}.ev", VERIF_WORKERS="4"), 1800)
        lines = [l for l in ov.splitlines() if l.startswith("VIOLATION")]
        msg += f"; check exit {v}, {len(lines)} violations" + (": " + lines[0][:150] if lines else "")
        detail = [l for l in ov.splitlines() if not l.startswith("VIOLATION")][:3]
        msg += "\n      " + "\n      ".join(l[:300] for l in detail)
    shutil.rmtree(d, ignore_errors=True)
    return i, msg


ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, ids):
        print(i, m, flush=True)
