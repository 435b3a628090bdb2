#!/usr/bin/env python3
"""Builds the LLVM IR exporter used by every check (also built on demand)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nk.core import tool
print(tool())
