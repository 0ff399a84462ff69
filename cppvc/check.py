#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
if __name__ == "__main__":
    try: rc = runner.main(sys.argv[1])
    except SystemExit: raise
    sys.exit(rc)
