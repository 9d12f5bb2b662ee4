#!/usr/bin/env python3
"""Builds the syntax-tree extractor (checks build it themselves when it is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import facts
print(facts.extractor())
