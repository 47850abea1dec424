#!/usr/bin/env python3
"""Nothing is built ahead: every check builds from /repo's current tree. This only checks that the tools are there."""
import os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(H, 'evidence', 'replay'), exist_ok=True)
for c in (['g++', '--version'], ['clang++', '--version'], ['/opt/veriftools/pyvenv/bin/python', '-c', 'import z3']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
print('ok')
