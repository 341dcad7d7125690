#!/usr/bin/env python3
"""setup_cmd: builds the symbolic executor and the support bitcode (both are
rebuilt on demand by every check, keyed by content)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import build
os.makedirs(build.BUILD, exist_ok=True)
print(build.executor())
outs, jobs = build.support_bc()
build.par(jobs)
print("\n".join(outs))
