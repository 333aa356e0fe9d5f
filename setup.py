#!/usr/bin/env python3
"""Builds the library variants and all harnesses from /repo's working tree (they are rebuilt when the tree changes)."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build
from checks import CHECKS
OPTIONAL = [s for c in CHECKS.values() for s in c["stages"] if s.get("option")]
for v in sorted({s.get("variant", "plain") for c in CHECKS.values() for s in c["stages"]}):
    try:
        build.build_lib(v)
    except build.BuildError as e:
        if v not in [s["variant"] for s in OPTIONAL]: raise
        print("variant", v, "does not build; the checks report it:", str(e)[:1000])
todo = {}
for c in CHECKS.values():
    for s in c["stages"]:
        todo[(s["harness"], s.get("variant", "plain"))] = s
def one(s):
    try:
        build.build_harness(s["harness"], s.get("variant", "plain"), s.get("extra", ()), s.get("libs", ()), None, s.get("cflags"))
    except build.BuildError as e:
        if not s.get("option"): raise
        print(s["harness"], s["variant"], "does not build; the check reports it:", str(e)[:1000])
with ThreadPoolExecutor(8) as ex:
    list(ex.map(one, todo.values()))
print("built", len(todo), "harnesses")
