#!/usr/bin/env python3
"""setup: nothing to build; checks that the analyser loads and that the sources parse"""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from rules import common
it = common.engine()
print("modules:", len(it.trees), "python", sys.version.split()[0])
