import sys
import traceback

from mc.core import main

try:
    rc = main(sys.argv[1:])
except BaseException:  # noqa: BLE001
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
