"""Nothing to build: check that the tools are there and that the contracts load."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import z3
import contracts
from pyvc import harness

harness.new_interp()
subprocess.run(["/opt/venv/bin/python", "-c", "import yaml"], check=True)
print("z3", z3.get_version_string(), len(contracts.ALL), "contracts")
