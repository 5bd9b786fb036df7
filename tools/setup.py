#!/usr/bin/env python3
"""setup_cmd: build the analyser and the dependencies of the model environment"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build_driver()
vlib.analyse(["ser_ext"])
print("ready")
