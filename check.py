#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else None
sys.exit(core.check(pid, importlib.import_module("props." + pid), tier))
