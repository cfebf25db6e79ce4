#!/usr/bin/env python3
"""setup_cmd: nothing has to be built; checks that the toolchain is present and the specifications parse."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(V, 'out'), exist_ok=True)
sys.path.insert(0, os.path.join(V, 'lib'))
import vlib
for j in vlib.JARS + ['/usr/share/java/jython.jar', '/opt/vp/runner/compat.py']:
    if not os.path.exists(j):
        print('missing', j)
        sys.exit(1)
print('ready')
