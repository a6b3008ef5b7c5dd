#!/usr/bin/env python3
"""setup_cmd: builds hilapp, the library and the harness programs from /repo into /verif/build."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build
from vlib.setup_list import SETUP
build.build(SETUP)
print('setup: %d programs' % len(SETUP))
