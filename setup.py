#!/usr/bin/env python3
"""builds the bitcode dumper (the only compiled piece of the framework)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
print(vlib.tool("irdump"))
