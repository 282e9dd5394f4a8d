import os
import sys

from dst.harness import main

rc = main()
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
