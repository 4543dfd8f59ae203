#!/opt/veriftools/pyvenv/bin/python3
"""run_check.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.runner import main

sys.exit(main(sys.argv))
