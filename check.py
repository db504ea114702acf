#!/usr/bin/env python3
"""Static checks for e3krisztian/bead: check.py PROPERTY [--tier quick|thorough]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.check import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
