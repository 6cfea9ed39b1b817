#!/opt/venv/bin/python
"""check.py Cxx [--tier quick|thorough]: decide one property on /repo's current working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import core
sys.exit(core.main(sys.argv[1:]))
