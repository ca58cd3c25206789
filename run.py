#!/usr/bin/env python3
"""run.py <property id>: run that property's static check against /repo's current sources."""
import sys, os, importlib
V = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
import chk
pid = sys.argv[1]
if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
def go():
    return importlib.import_module(pid.lower()).check()
chk.main(go)
