#!/usr/bin/env python3
"""Builds every harness once, so that the checks that follow only rebuild what changed.  The checks do not rely on it."""
import collections
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props   # noqa: E402
import vbuild  # noqa: E402

by = collections.OrderedDict()
for p in props.PROPS.values():
    for leg in p.get("legs", []):
        by.setdefault((leg["config"], leg["harness"]), 1)
for config, h in by:
    vbuild.build(config, [h])
print("built", len(by))
