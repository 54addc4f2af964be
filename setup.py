#!/usr/bin/env python3
"""Builds the assembler and the bounded oracles."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
for n in ("vx", "replay"):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(V, "build", n))
    r = subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(V, n), env=e)
    if r.returncode:
        sys.exit(r.returncode)
