#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE] [--cases N] [--seconds S] [--seed S]"""
import importlib, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(D, "lib"), os.path.join(D, "checks")]
sys.dont_write_bytecode = True
import drive

if __name__ == "__main__":
    sys.exit(drive.main(importlib.import_module(sys.argv[1].lower()), sys.argv[2:]))
