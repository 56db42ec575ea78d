#!/usr/bin/env python3
"""python3 check.py Cxx   (VERIF_SEED, VERIF_TIER=quick|thorough); --replay FILE, --only CASE, --cases N"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from wv.run import main  # noqa: E402

sys.exit(main())
