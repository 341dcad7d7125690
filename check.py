#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep]

Decides one property of /repo's current working tree by symbolic execution
(see DESIGN.md).  exit 0: held on everything explored; exit 1: VIOLATION line;
exit 2: undecided (incomplete exploration, unconfirmed counterexample, error).
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import runner
sys.exit(runner.main(sys.argv[1:]))
