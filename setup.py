#!/usr/bin/env python3
"""Build the rustc driver."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import dump
print(dump.build_driver())
