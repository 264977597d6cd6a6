#!/usr/bin/env python3
"""Builds the harness once, so that a broken tool chain shows before any check."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
try:
    check.build("debug")
except check.NoAnswer as x:
    print(x); sys.exit(1)
