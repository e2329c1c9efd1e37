#!/usr/bin/env python3
"""Nothing is kept between runs: checks that the tools the checks need are there."""
import os, subprocess, sys
ok = True
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(f):
        print("missing", f)
        ok = False
ok &= subprocess.run(["javac", "-version"]).returncode == 0
sys.exit(0 if ok else 1)
