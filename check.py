#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.engine import main

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
