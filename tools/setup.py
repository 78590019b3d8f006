#!/usr/bin/env python3
"""builds the extractor and the harness once, offline (each check rebuilds what changed)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(check.BUILD, exist_ok=True)
check.build_vx()
check.build_replay()
print("ready")
