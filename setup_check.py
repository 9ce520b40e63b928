"""Nothing to build: verifies that the solver and the code under test can be imported."""

import sys

sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import skfolio  # noqa: E402
import z3  # noqa: E402

print("z3", z3.get_version_string(), "skfolio", skfolio.__file__)
