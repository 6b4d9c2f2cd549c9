#!/usr/bin/env python3
"""Decide one property:  run.py <ID> [quick|thorough]   (see DESIGN.md)."""
import os, sys
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and sys.prefix != "/opt/venv" and os.environ.get("PVG_REEXEC") != "1":
    os.environ["PVG_REEXEC"] = "1"
    os.execv(PY, [PY, "-B", *sys.argv])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness.runner import main
if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
