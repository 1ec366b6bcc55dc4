#!/usr/bin/env python3
"""Run the monitor for one property:  run.py <ID> [--replay FILE] [--case N] [--cases N]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mgv.core import main
if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
