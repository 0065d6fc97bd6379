#!/usr/bin/env python3
"""Builds every simulator binary once (checks rebuild what they need from the working tree themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
check.build(["all"])
print("setup ok")
