#!/usr/bin/env python3
"""setup_cmd: warms the object cache (checks rebuild whatever is missing or stale)"""
import build as B, sys
B.prune()
try:
    B.build("c33_byteorder")
except RuntimeError as e:
    print(e); sys.exit(1)
