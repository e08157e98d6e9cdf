#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough] [-v] [obligation names…]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa import oblig  # noqa

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid)
    sys.exit(oblig.main(mod.check, sys.argv[2:]))
