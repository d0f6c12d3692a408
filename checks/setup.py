#!/usr/bin/env python3
"""Build the extractor plugin from the committed source."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vfa import program
print(program.build_plugin())
