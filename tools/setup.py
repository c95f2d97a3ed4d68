"""Nothing to build: checks that the interpreter and the solver are there."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import core  # noqa: E402
import numpy  # noqa: E402
import fitsio  # noqa: E402

print('z3', core.z3.get_version_string(), 'numpy', numpy.__version__,
      'fitsio', fitsio.__version__)
