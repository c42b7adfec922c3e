#!/usr/bin/env python3
"""Builds every harness once (checks rebuild what they need themselves)."""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.argv = ["setup"]
import check
by = {}
for s in check.SPEC.values():
    for ph in s["phases"]:
        by.setdefault(ph.get("F", "fast"), set()).add(("f_" if ph.get("fuzz") else "h_") + ph["h"])
    by.setdefault("fast", set()).update(s.get("tools", []))
for f, ts in by.items():
    check.build(f, sorted(ts))
print("built", {f: sorted(t) for f, t in by.items()})
