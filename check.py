#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's working tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core
sys.exit(core.main(sys.argv[1]))
