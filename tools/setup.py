#!/usr/bin/env python3
"""Checks that the monitor builds offline from the committed files (each check builds again what it needs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
os.makedirs(run.BUILD, exist_ok=True)
p, d = run.build("base")
print(p or d)
sys.exit(0 if p else 2)
