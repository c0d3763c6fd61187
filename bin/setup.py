#!/usr/bin/env python3
"""build the THIR driver and the dependency metadata once"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "analysis"))
from dump import dump
d, info = dump()
print(info)
