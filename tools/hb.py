#!/usr/bin/env python3
"""hb.py NAME VARIANT: build a harness and print its path."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
try:
    print(build.build_harness(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "plain", extra=[x for x in sys.argv[3:] if not x.startswith("-l")], libs=[x for x in sys.argv[3:] if x.startswith("-l")])[0])
except build.BuildError as e:
    print(str(e)[:6000], file=sys.stderr); sys.exit(2)
