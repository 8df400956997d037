#!/usr/bin/env python3
"""Builds the IR dumper (each check also does so when it is missing)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import build
print(build.tool("irdump"))
