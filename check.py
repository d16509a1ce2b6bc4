#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property on the current tree of /repo."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner
sys.exit(runner.main(sys.argv[1:]))
