"""Builds everything the checks need, so that the first check does not pay for it."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build

for variant, flavour in (("fo", "opt"), ("ho", "opt"), ("fo", "asan")):
    b = build.Builder(variant, flavour)
    for prog in build.PROGRAMS if flavour == "opt" and variant == "fo" else ["eprover"]:
        try:
            b.program(prog)
        except build.BuildError as e:
            print("setup: %s %s %s: %s" % (variant, flavour, prog, str(e)[-500:]))
build.oracle_so()
