#!/opt/venv/bin/python
"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE | --family F --index I]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.harness import main

if __name__ == "__main__":
    prop, rest = sys.argv[1], sys.argv[2:]
    sys.exit(main(prop, rest))
