#!/usr/bin/env python3
"""Builds the configurations the checks use (each check builds what it needs by itself as well)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
for cfg in ("asan",):
    vlib.build(cfg)
    print("built", cfg)
