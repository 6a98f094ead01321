#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import report
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    mod = importlib.import_module('checks.' + pid.lower())
    sys.exit(report.run(pid, mod.check, tier, ' '.join(mod.__doc__.split()), getattr(mod, 'ASSUMPTIONS', [])))
main()
