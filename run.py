#!/usr/bin/env python3
"""python3-vt /verif/run.py PROPERTY [quick|thorough]   (VERIF_REPO overrides /repo)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.core import main  # noqa: E402

sys.exit(main(sys.argv))
