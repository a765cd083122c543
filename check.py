#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of the current tree of /repo."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "absint"))
import run

sys.exit(run.main(sys.argv[1:]))
