#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import core
try:
    rc = core.main(sys.argv[1:])
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    print("ANALYSIS-BROKEN internal error")
    rc = 4
sys.stdout.flush()
os._exit(rc)
