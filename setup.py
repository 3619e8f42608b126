"""Builds the MIR extractor and warms the dump of the current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ai.build import ensure_dump
print(ensure_dump())
