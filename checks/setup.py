#!/usr/bin/env python3
"""Builds LUE and all drivers into /verif/build"""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build as B
for d in sorted(glob.glob(os.path.join(B.VERIF, "driver", "*.cpp"))):
    B.build([os.path.basename(d)[:-4]])
