#!/usr/bin/env python3
"""Build everything once, so that later checks only rebuild what changed."""
import check
flavours = {s[1] for c in check.CHECKS.values() for s in c["stages"]}
if any(c.get("bins") for c in check.CHECKS.values()):
    flavours.add("bins")
for f in sorted(flavours):
    check.build(f)
    print("built", f)
