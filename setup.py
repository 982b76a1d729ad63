#!/usr/bin/env python3
"""Offline setup: builds library and drivers from /repo into /verif/build (ignored by git).
Every check rebuilds what changed by itself; this only warms the build up."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
for v in ("main",):
    vlib.build(v)
