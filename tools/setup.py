"""Nothing to build: the checks run the Python source of /repo directly.  Checks the tools it needs."""
import sys
import numpy, scipy, sklearn  # noqa
sys.path.insert(0, "/repo/src")
sys.dont_write_bytecode = True
import valori  # noqa
print("ready", sys.version.split()[0], numpy.__version__, sklearn.__version__)
