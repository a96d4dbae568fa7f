#!/usr/bin/env python3
"""Builds the harness and the extension once (every check makes sure of that again)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from xg import driver
driver.build({"xg", "ext"})
