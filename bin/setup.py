#!/usr/bin/env python3
"""Setup: the checks build everything they need themselves; this only makes sure the tools
are there and the drivers compile."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
vlib.build("seqdrv", ["seqdrv.c"])
r = vlib.tlc("KVPerm", "SPECIFICATION Spec\nINVARIANTS NeverExecute Allowed Idem\n")
print("setup ok" if r["ok"] else r["out"])
sys.exit(0 if r["ok"] else 1)
