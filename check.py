"""python3-vt check.py Cxx [--thorough] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc.runner import main
sys.exit(main(sys.argv[1:]))
