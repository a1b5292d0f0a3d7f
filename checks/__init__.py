"""property id -> check module, by file name cNN_*.py"""
import os
import re

REGISTRY = {}
for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    _m = re.match(r"(c(\d\d)_\w+)\.py$", _f)
    if _m:
        REGISTRY["C" + _m.group(2)] = _m.group(1)
