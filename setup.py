#!/usr/bin/env python3
"""Check that everything a check needs is here and that the monitors build from /repo."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

for c in check.BASE4:
    check.build(c, [])  # --bins: every monitor
print("built", ", ".join(check.BASE4))
