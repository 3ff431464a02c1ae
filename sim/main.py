import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0] = here
from sim import core

core.install_locks()  # before the repository is imported
from sim import runner

try:
    rc = runner.main(sys.argv[1:])
except SystemExit:
    raise
except BaseException:
    import traceback

    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
