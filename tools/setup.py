#!/usr/bin/env python3
"""setup_cmd: nothing is installed; builds the drivers once so that a missing tool shows early and
the checks only recompile what changed"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
for name, variant in common.PREBUILD:
    print(getattr(common, name)(variant), flush=True)
