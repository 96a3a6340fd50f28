import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env  # noqa: E402,F401  (must come first; may re-exec)
env.import_valori()
from mc import runner  # noqa: E402
if __name__ == "__main__":
    rc = runner.main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
