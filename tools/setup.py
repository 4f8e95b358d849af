#!/usr/bin/env python3
"""Builds everything the checks use (they rebuild what changed by themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
os.makedirs(BUILD, exist_ok=True)
build_explore()
for l in LIBS:
    build_lib(l)
print("built")
