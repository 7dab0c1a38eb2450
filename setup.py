#!/usr/bin/env python3
"""Builds the tools and, as a cache, the harnesses; every check rebuilds what has changed since."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
core.build_tools()
from vf.props import opsb, macb, serb
try:
    opsb.build()
    macb.builds(['int', 'rational'])
    serb.builds()
except core.CheckError as e:
    print(e)
