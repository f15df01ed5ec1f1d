#!/usr/bin/env python3
"""check.py <property id> [--only INSTANCE] [-v]   (interpreter: python3-vt)"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.verdict import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
