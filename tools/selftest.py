"""setup_cmd: nothing to build; checks that the tools the framework needs are present and prove a trivial goal."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
s = z3.Solver()
x = z3.Int("x")
s.add(x > 0, x + 1 <= 1)
assert s.check() == z3.unsat
from pyvc.runner import setup_path
setup_path()
import yangson, jsonschema  # noqa
print("ok, z3", z3.get_version_string())
