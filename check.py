#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os, sys
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PY) and not os.environ.get("SIM_REEXEC"):
    os.environ["SIM_REEXEC"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim.runner import main
sys.exit(main())
