#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] [-v] [--only substring]"""
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc import cli
if __name__ == '__main__':
    sys.exit(cli.main(sys.argv[1:]))
