#!/usr/bin/env python3
"""Entry point: run_check.py <property>; see MANIFEST.json."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if sys.executable != "/opt/venv/bin/python" and os.path.exists("/opt/venv/bin/python"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
from common import Outcome, CheckError


def main(prop):
    out = Outcome(prop)
    try:
        import checks
        checks.CHECKS[prop](out)
    except CheckError as e:
        print(f"check of {prop} gave no answer: {e}")
        # what was found before that counts
        return out.finish() if out.viol else 2
    except Exception:
        traceback.print_exc()
        print(f"check of {prop} gave no answer")
        return out.finish() if out.viol else 2
    return out.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
