#!/usr/bin/env python3
"""dbg.py <prop>: like check.py but keeps the scratch folder (development aid)."""
import os, sys
os.environ["FC_KEEP"] = "1"
os.execv(sys.executable, [sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "check.py")] + sys.argv[1:])
