#!/usr/bin/env python3
"""Checks that the tools are here. Checks build everything they need from /repo."""
import os, shutil, subprocess, sys
for t in ('tlc', 'bash', 'python3'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
subprocess.run(['go', 'version'], env=vlib.go_env(), check=True)
