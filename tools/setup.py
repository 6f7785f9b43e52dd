#!/usr/bin/env python3
"""Checks that the toolchain the monitors need is present. Everything is built by the checks from /repo's working tree."""
import subprocess, sys
ok = True
for t in (['g++', '--version'], ['clang++', '--version']):
    try:
        print(subprocess.run(t, capture_output=True, text=True, check=True).stdout.splitlines()[0])
    except Exception as e:
        ok = False
        print('missing', t, e)
sys.exit(0 if ok else 1)
