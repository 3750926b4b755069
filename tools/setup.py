#!/usr/bin/env python3
"""builds the harness in both variants and parses the specifications"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
lib.build(["default", "small"])
print("harness built")
