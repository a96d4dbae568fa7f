#!/usr/bin/env python3
"""Run the check of one property:  check.py PROP [--tier quick|thorough] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from xg import driver
sys.exit(driver.main(sys.argv[1:]))
