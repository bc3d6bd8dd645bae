#!/usr/bin/env python3
"""Build the concrete harnesses once (every check builds what it needs again)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402
import importlib  # noqa: E402

for u in check.UNITS:
    if os.path.exists(os.path.join(check.HERE, 'lib', 'units', u + '.py')):
        b, e = check.build_harness(importlib.import_module('units.' + u).Unit())
        print(u, b or e)
