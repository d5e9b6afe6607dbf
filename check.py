#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--thorough] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import core  # noqa

sys.exit(core.main(sys.argv[1:]))
